// Helpers for operations the simulated callers perform.
#ifndef VERIF_OPS_HH
#define VERIF_OPS_HH
#include "sim.hh"
#include <cmath>
#include <cstring>
#include "numbers.hh"

namespace sim {

// Library code runs in here: scheduled, race-checked, subject to faults.
struct Active { Active() { resume(); } ~Active() { pause(); } Active(const Active&) = delete; };

struct Sig {
  int n = 0; std::uint64_t hash = 0x5ca1ab1eull; double v[MAXVAL];
  void add(double x) {
    std::uint64_t b; if (x == 0) x = 0; std::memcpy(&b, &x, 8);
    hash = (hash ^ b) * 0x100000001b3ull; hash ^= hash >> 32;
    if (n < MAXVAL) v[n] = x;
    ++n;
  }
  void add(const SimReal& x) { add(x.raw()); }
  template<int t> void add(const SimBigT<t>& x) { add(x.raw()); }
  void add(int x) { add(double(x)); }
  void add(unsigned x) { add(double(x)); }
  void add(long x) { add(double(x)); }
  void add(unsigned long x) { add(double(x)); }
  void add(bool x) { add(double(x)); }
  void add(float x) { add(double(x)); }
  void add(long double x) { double h = (double)x; add(h); add((double)(x - h)); }
  template<class V> void vec(const V& x, int n) { for (int i = 0; i < n; ++i) add(x[i]); }
  template<class M> void mat(const M& m, int r, int c) { for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) add(m[i][j]); }
};

inline bool close(double a, double b, double tol) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (a == b) return true;
  if (std::isinf(a) || std::isinf(b)) return false;
  return std::abs(a - b) <= tol * (1 + std::abs(a) + std::abs(b));
}

// Report the observable result of an operation; outside reference runs it is
// compared with the result of the same operation alone in a fresh process.
void expect(const Op& op, const Sig& s, double tol = 0);
void compare(const char* what, const Ref* r, const Sig& s, double tol);

// identity[key] is fixed by the first observation in a run
void same_identity(std::uint64_t key, const void* p, const char* what);
std::uint64_t hkey(std::initializer_list<std::int64_t> l);

void note_refused(const char* msg);     // an operation was refused as documented

// things handed out by the library that callers keep using
struct Kept { void* p; const Op* op; void (*reread)(const Kept&); std::uint64_t hash; int n; int tid; };
void keep(void* p, const Op& op, void (*reread)(const Kept&), const Sig& s);
int kept_count();
const Kept* kept_at(int i);
void kept_check(const Kept& k, const Sig& s);

bool refmode();
// what the property being decided speaks about; everything else is left to the
// checks of the properties that do
enum Aspect { A_VALUE = 1, A_IDENTITY = 2, A_ABSOLUTE = 4, A_LEAK = 8 };
bool cares(Aspect a);
const char* op_text(const Op& op);

#define REGISTER_OP(name, fn, nref, flags) static ::sim::OpReg reg_##fn(name, fn, nref, flags);
struct OpReg { OpReg(const char* n, void (*f)(const Op&), int nref, int flags); };

void reenter_call(int salt, int count);   // nested lookups made by mappings, bases, creators
inline void call_op(int salt = 0) { int r = call_point(); if (r > 0) throw_call(r); if (r < 0) reenter_call(salt, -r); }
}
#endif
