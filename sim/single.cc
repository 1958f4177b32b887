// Objects made once per topology by a singleton factory with a user's creator.
// The factory makes no promise about concurrent use, so callers take turns.
#include "ops.hh"
#include "topo.hh"
#include <vector>
#include <dune/geometry/topologyfactory.hh>
namespace sim {
using namespace Dune;

constexpr int NKEY = 40;
constexpr int userToken = 200;

// a key that owns memory
struct SKey {
  int v; std::vector<int> pad;
  SKey() : v(0) {}
  explicit SKey(int k) : v(k), pad(3, k) {}
  friend bool operator<(const SKey& a, const SKey& b) { return a.v < b.v; }
};
inline int key_value(int k) { return k; }
inline int key_value(const SKey& k) { return k.v; }

template<unsigned dim_, class K, int tag> struct World {
  struct Obj {
    int id, key; std::vector<double> data; double* extra;
    Obj(int i, int k) : id(i), key(k), data(5, i + 100 * k), extra(nullptr) { call_op(0); extra = new double(i * 7 + k); ++live(); }
    ~Obj() { delete extra; --live(); data.clear(); }
  };
  static int& live() { static int n; return n; }
  // what the creator has done
  static int& made(int key, int id) { static int n[NKEY][16]; return n[key][id]; }
  static int& nest() { static int n; return n; }
  struct Factory_ {
    template<GeometryType::Id gid> static const Obj* createObject(const K& key);
    template<class Topology> static const Obj* createObject(const K& key);
  };
  struct Traits { static const unsigned int dimension = dim_; typedef K Key; typedef const Obj Object; typedef Factory_ Factory; };
  typedef TopologySingletonFactory<TopologyFactory<Traits>> Single;
  static const Obj* handed[NKEY][16];

  // the request being served; ids 2k and 2k+1 name the same type
  static int& want() { static int n; return n; }
  static const Obj* request(int id, int key) {
    struct Back { int n; ~Back() { want() = n; } } back{want()};
    want() = id;
    const Obj* o = Single::create(GeometryType(id, dim_), K(key));
    note(id, key, o);
    return o;
  }
  static const Obj* creator(int made_for, int key) {
    const int id = want();
    if (!topo_same(made_for, id, dim_) && cares(A_VALUE)) { Paused p; violate("creation", "the creator was asked for type %d instead of %d", made_for, id); }
    call_op(1);
    // some creators need the objects of other types or keys
    int n = nest();
    if (n > 0 && id > 1) {
      nest() = n - 1;
      struct Back { int n; ~Back() { nest() = n; } } back{n};
      request(id - 2, key);
    } else if (n > 0 && key + 1 < NKEY) {
      nest() = n - 1;
      struct Back { int n; ~Back() { nest() = n; } } back{n};
      request(id, key + 1);
    }
    call_op(2);
    const Obj* o = new Obj(id, key);
    { Paused p; if (++made(key, id) != 1 && cares(A_VALUE)) violate("creation", "the creator was run to its end %d times for type %d and key %d", made(key, id), id, key); }
    return o;
  }
  static void note(int id, int key, const Obj* o) {
    Paused p;
    if (!cares(A_VALUE)) return;
    if (!o) violate("creation", "no object for type %d and key %d", id, key);
    if (!heap_is_live(o)) violate("creation", "the object for type %d and key %d is not alive", id, key);
    if (o->id != id || o->key != key || o->data.size() != 5 || o->data[4] != id + 100 * key || *o->extra != id * 7 + key) violate("creation", "the object for type %d and key %d is another one or damaged", id, key);
    if (handed[key][id] && handed[key][id] != o) violate("identity", "two requests for type %d and key %d gave different objects", id, key);
    if (made(key, id) != 1) violate("creation", "the creator was run to its end %d times for type %d and key %d", made(key, id), id, key);
    handed[key][id] = o;
  }
  // exactly the objects the creator finished exist
  static void balance() {
    Paused p;
    int n = 0; for (int k = 0; k < NKEY; ++k) for (int i = 0; i < 16; ++i) n += made(k, i);
    if (n != live() && cares(A_VALUE)) violate("creation", "%d objects were created successfully, %d are alive", n, live());
  }
  template<int k> static const Obj* by_id(int id, const K& key) {
    if constexpr (k < (1 << dim_)) { if (id == k) { constexpr GeometryType::Id g{GeometryType(k, dim_)}; return Single::template create<g>(key); } return by_id<k + 1>(id, key); }
    else { (void)id; (void)key; return nullptr; }
  }
  static void run(const Op& op);
};
template<unsigned d, class K, int t> const typename World<d, K, t>::Obj* World<d, K, t>::handed[NKEY][16];
template<unsigned d, class K, int t> template<GeometryType::Id gid> const typename World<d, K, t>::Obj* World<d, K, t>::Factory_::createObject(const K& key) { constexpr GeometryType g = gid; return creator((int)g.id(), key_value(key)); }
// a topology class as older code passes it
template<unsigned id_, unsigned dim_> struct Topology { static const unsigned int id = id_; static const unsigned int dimension = dim_; };
template<unsigned d, class K, int t> template<class Top> const typename World<d, K, t>::Obj* World<d, K, t>::Factory_::createObject(const K& key) { return creator((int)Top::id, key_value(key)); }

static bool busy;
// a: 0 which factory, 1 type, 2 key, 3 entry point, 4 requests made by the creator
template<unsigned d, class K, int t> void World<d, K, t>::run(const Op& op) {
  int id = (int)op.a[1] % (1 << d), key = (int)op.a[2] % NKEY;
  if (!refmode() && busy) { probe(10); return; }
  busy = true;
  struct Turn { Turn() { user_acquire(userToken); } ~Turn() { nest() = 0; busy = false; user_release(userToken); } } turn;
  nest() = (int)op.a[4]; want() = id;
  const Obj* o = nullptr;
  struct Always { ~Always() { balance(); } } always;
  {
    Active a;
    K k(key);
    switch (op.a[3]) {
      case 1: o = by_id<0>(id, k); break;
      case 2:
        if (id == 0) { o = Single::template create<Topology<0, d>>(k); break; }
        if (id == (1 << d) - 1) { o = Single::template create<Topology<(1u << d) - 1, d>>(k); break; }
        o = Single::create(GeometryType(id, d), k); break;
      default: o = Single::create(GeometryType(id, d), k);
    }
    Single::release(o);                           // documented to do nothing
    note(id, key, o);
  }
  Sig s; s.add(o->id); s.add(o->key); s.vec(o->data, 5); s.add(*o->extra);
  expect(op, s);
}
static void op_single(const Op& op) {
  switch (op.a[0]) {
    case 0: return World<2, int, 0>::run(op);
    case 1: return World<3, SKey, 0>::run(op);
    case 2: return World<1, int, 0>::run(op);
    default: return World<3, int, 1>::run(op);
  }
}
REGISTER_OP("single", op_single, 5, 0)
void single_finish() { World<2, int, 0>::balance(); World<3, SKey, 0>::balance(); World<1, int, 0>::balance(); World<3, int, 1>::balance(); }
}
