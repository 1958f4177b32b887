// Value objects of the library living in slots the simulated callers share.
#ifndef VERIF_VALS_HH
#define VERIF_VALS_HH
#include "ops.hh"
#include <new>
#include <utility>

namespace sim {

enum VFlags { V_SHARED = 1,   // const access by several threads at once is allowed
              V_SINGLE = 2 }; // single precision results

struct VType {
  const char* name; int flags; int nq; int variants; unsigned size;
  void (*make)(void*, int id, int shape);
  void (*copy)(void*, const void*);
  void (*move)(void*, void*);
  void (*assign)(void*, const void*);
  void (*massign)(void*, void*);
  void (*destroy)(void*);
  void (*query)(void*, int q, Sig&);
  void (*check)(const void*, int id, int shape, const char* name);   // reference runs: absolute oracle
};

// index: stable number used in plans
struct VReg { VReg(int index, const VType& t); };
const VType* vtype(int index);

template<class G, class Make, class Query>
VType make_vtype(const char* name, int flags, int nq, int variants, Make, Query, void (*check)(const void*, int, int, const char*) = nullptr) {
  VType t;
  t.name = name; t.flags = flags; t.nq = nq; t.variants = variants; t.size = sizeof(G);
  t.make = [](void* p, int id, int shape) { Make::make((G*)p, id, shape); };
  t.copy = [](void* p, const void* q) { ::new (p) G(*static_cast<const G*>(q)); };
  t.move = [](void* p, void* q) { ::new (p) G(std::move(*static_cast<G*>(q))); };
  t.assign = [](void* p, const void* q) { *static_cast<G*>(p) = *static_cast<const G*>(q); };
  t.massign = [](void* p, void* q) { *static_cast<G*>(p) = std::move(*static_cast<G*>(q)); };
  t.destroy = [](void* p) { static_cast<G*>(p)->~G(); };
  t.query = [](void* p, int q, Sig& s) { Query::query(*static_cast<G*>(p), q, s); };
  t.check = check;
  return t;
}

void vals_finish();
void geo_setup();
}
#endif
