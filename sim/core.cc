// Outcome handling, expected results, identity, recovery.
#include "ops.hh"
#include <cstdio>
#include <cstdlib>
#include <stdexcept>
#include <new>
#include <dune/common/exceptions.hh>
#include <dune/geometry/quadraturerules.hh>
#include <dune/geometry/referenceelements.hh>

namespace sim {

static OpDef defs[64]; static int ndefs;
OpReg::OpReg(const char* n, void (*f)(const Op&), int nref, int flags) { defs[ndefs++] = OpDef{n, f, nref, flags}; }
const OpDef& op_def(int k) { return defs[k]; }
int op_count() { return ndefs; }
int op_kind(const char* n) { for (int i = 0; i < ndefs; ++i) if (!std::strcmp(defs[i].name, n)) return i; return -1; }
bool refmode() { return plan().refmode; }
static const struct { char prop[8]; int aspects; } aspects[] = {
  {"C01", A_VALUE | A_ABSOLUTE}, {"C02", A_VALUE | A_IDENTITY}, {"C03", A_VALUE | A_LEAK}, {"C04", A_VALUE | A_ABSOLUTE},
  {"C05", A_VALUE | A_IDENTITY | A_ABSOLUTE}, {"C06", A_VALUE | A_ABSOLUTE},
  {"C07", A_VALUE | A_ABSOLUTE}, {"C08", A_VALUE | A_ABSOLUTE | A_LEAK}, {"C09", A_VALUE | A_ABSOLUTE},
  {"C10", A_VALUE | A_IDENTITY | A_ABSOLUTE}, {"C11", A_VALUE | A_LEAK}, {"C12", A_VALUE | A_IDENTITY | A_LEAK},
  {"C13", 0}, {"C14", A_LEAK}, {"C15", A_VALUE | A_ABSOLUTE}, {"C16", A_VALUE | A_IDENTITY | A_LEAK}};
bool cares(Aspect a) {
  for (const auto& x : aspects) if (!std::strcmp(x.prop, plan().prop)) return x.aspects & a;
  return true;
}
bool cares_about_leaks() { return cares(A_LEAK); }

const char* op_text(const Op& op) {
  static char b[256];
  int o = snprintf(b, sizeof b, "%s(", defs[op.kind].name);
  for (int i = 0; i < NARG; ++i) o += snprintf(b + o, sizeof b - o, i ? ",%lld" : "%lld", (long long)op.a[i]);
  snprintf(b + o, sizeof b - o, ")");
  return b;
}

std::uint64_t hkey(std::initializer_list<std::int64_t> l) { std::uint64_t h = 77; for (auto x : l) h = mix(h, (std::uint64_t)x); return h | 1; }
std::uint64_t ref_key(int kind, const std::int64_t* a) {
  std::uint64_t h = mix(kind, 99);
  for (int i = 0; i < defs[kind].nref; ++i) h = mix(h, (std::uint64_t)a[i]);
  return h | 1;
}

void compare(const char* what, const Ref* r, const Sig& s, double tol) {
  if (!r) violate("simulator", "no expected result for %s", what);
  if (!cares(A_VALUE)) return;
  if (r->outcome == O_REFUSED) violate("value", "%s succeeded, but alone in a fresh process it is refused", what);
  if (r->n != s.n) violate("value", "%s reports %d values, alone in a fresh process %d", what, s.n, r->n);
  if (tol == 0) {
    if (r->hash == s.hash) return;
    for (int i = 0; i < s.n && i < MAXVAL; ++i)
      if (std::memcmp(&r->v[i], &s.v[i], 8)) violate("value", "%s: value %d of %d is %.17g, alone in a fresh process %.17g", what, i, s.n, s.v[i], r->v[i]);
    violate("value", "%s: one of %d values differs from a fresh process", what, s.n);
  }
  for (int i = 0; i < s.n && i < MAXVAL; ++i)
    if (!close(r->v[i], s.v[i], tol)) violate("value", "%s: value %d of %d is %.17g, alone in a fresh process %.17g", what, i, s.n, s.v[i], r->v[i]);
}

void expect(const Op& op, const Sig& s, double tol) {
  Paused p;
  log_value(s.hash);
  Result& R = result();
  if (refmode()) {
    R.nsig = s.n; R.sigHash = s.hash; for (int i = 0; i < s.n && i < MAXVAL; ++i) R.sig[i] = s.v[i];
    return;
  }
  compare(op_text(op), find_ref(op.kind, op.a), s, tol);
}

// ------------------------------------------------------------------ identity
struct Id { std::uint64_t key; const void* p; };
static Id ids[4096]; static int nids;
void same_identity(std::uint64_t key, const void* p, const char* what) {
  Paused pp;
  for (int i = 0; i < nids; ++i) if (ids[i].key == key) {
    if (ids[i].p != p && cares(A_IDENTITY)) violate("identity", "%s: two equal requests returned different objects", what);
    probe(5);
    return;
  }
  if (nids < 4096) ids[nids++] = Id{key, p};
}

// ------------------------------------------------------------------ kept objects
static Kept kept[MAXOPS * 2]; static int nkept;
void keep(void* p, const Op& op, void (*reread)(const Kept&), const Sig& s) {
  Paused pp;
  if (refmode() || nkept == MAXOPS * 2) return;
  kept[nkept] = Kept{p, &op, reread, s.hash, s.n, tid()};
  user_release(nkept & 63);
  ++nkept;
}
int kept_count() { return nkept; }
const Kept* kept_at(int i) { if (i < 0 || i >= nkept) return nullptr; user_acquire(i & 63); return &kept[i]; }
void kept_check(const Kept& k, const Sig& s) {
  Paused pp;
  if ((s.n != k.n || s.hash != k.hash) && cares(A_VALUE)) violate("stability", "the object obtained by %s no longer has the contents it was handed out with", op_text(*k.op));
}

static void op_reread(const Op& op) {
  if (!nkept) return;
  const Kept* k = kept_at((int)(op.a[0] % nkept));
  if (k->tid != tid()) probe(6);
  k->reread(*k);
}
REGISTER_OP("reread", op_reread, 0, 0)

// ------------------------------------------------------------------ nested lookups by user code
void reenter_num() {
  // number types may look up tables of built-in number types
  probe(7);
  using namespace Dune;
  const auto& r = QuadratureRules<double, 1>::rule(GeometryTypes::line, 3);
  if (r.size() != 2) violate("value", "nested rule lookup from a number type returned %d points", (int)r.size());
  const auto& e = ReferenceElements<double, 2>::cube();
  if (e.size(2) != 4) violate("value", "nested reference element lookup from a number type is incomplete");
}
void reenter_geo(int which);
void reenter_call(int salt, int count) {
  probe(7);
  using namespace Dune;
  if (count % 3 == 0) return reenter_geo(salt + count / 3);
  switch (salt % 3) {
    case 0: { const auto& r = QuadratureRules<double, 2>::rule(GeometryTypes::quadrilateral, 3); if (r.size() != 4) violate("value", "nested rule lookup returned %d points", (int)r.size()); break; }
    case 1: { const auto& e = ReferenceElements<double, 3>::simplex(); if (e.size(3) != 4) violate("value", "nested reference element lookup is incomplete"); break; }
    default: { const auto& r = QuadratureRules<double, 2>::rule(GeometryTypes::triangle, 14); if (r.empty() || r.order() < 14) violate("value", "nested rule lookup returned order %d", r.order()); }
  }
}

// ------------------------------------------------------------------ running operations
static const Op* failed[MAXOPS]; static int nfailed;
static thread_local bool refusedHere;
void note_refused(const char*) { refusedHere = true; }

static void outcome(const Op& op, int o, const char* what, int id) {
  const bool fired = fault_fired_in_op() > 0;
  Result& R = result();
  const OpDef& d = defs[op.kind];
  if (op.uid >= 0 && !R.opOutcome[op.uid]) R.opOutcome[op.uid] = o;   // first attempt
  log_value(0xc0 + o);
  switch (o) {
    case O_OK: return;
    case O_REFUSED:
      if (refmode()) { if (!(d.flags & OP_CAN_REFUSE)) violate("refused", "%s is refused (%s)", op_text(op), what); R.refOutcome = O_REFUSED; return; }
      if (d.flags & OP_CAN_REFUSE) {
        const Ref* r = find_ref(op.kind, op.a);
        if (r && r->outcome == O_REFUSED) return;
      }
      violate("refused", "%s is refused (%s), alone in a fresh process it is served", op_text(op), what);
    case O_BADALLOC:
      if (!fired) violate("exception", "%s raised bad_alloc although no allocation of its own failed", op_text(op));
      return;
    case O_NUM: case O_CALL:
      if (!fired || id % 1000 != op.uid) violate("exception", "%s raised the error of another operation (%d)", op_text(op), id);
      return;
    default:
      violate("exception", "%s raised an unexpected exception: %s", op_text(op), what);
  }
}

// User code throws whatever it likes: types of its own, or derived from the usual bases.
struct StdText : std::exception { const char* what() const noexcept override { return "user error"; } };
template<class E> [[noreturn]] static void throw_as(int id) {
  struct WithStd : E, StdText { explicit WithStd(int i) : E{i} {} };
  struct WithLogic : E, std::logic_error { explicit WithLogic(int i) : E{i}, std::logic_error("user error") {} };
  struct WithDune : E, Dune::MathError { explicit WithDune(int i) : E{i} { this->message("user error"); } };
  struct WithRuntime : E, std::runtime_error { explicit WithRuntime(int i) : E{i}, std::runtime_error("user error") {} };
  struct WithMemory : E, std::bad_alloc { explicit WithMemory(int i) : E{i} {} };
  struct WithMissing : E, Dune::NotImplemented { explicit WithMissing(int i) : E{i} { this->message("user error"); } };
  struct WithRange : E, Dune::RangeError { explicit WithRange(int i) : E{i} { this->message("user error"); } };
  Paused p;
  switch (id / 1000) {
    case 2: throw WithStd(id);
    case 3: throw WithLogic(id);
    case 4: throw WithDune(id);
    case 5: throw WithRuntime(id);
    case 6: throw WithMemory(id);
    case 7: throw WithMissing(id);
    case 8: throw WithRange(id);
    default: throw E{id};
  }
}
void throw_num(int id) { throw_as<NumError>(id); }
void throw_call(int id) { throw_as<CallError>(id); }

static bool attempt(const Op& op) {
  refusedHere = false;
  try {
    defs[op.kind].run(op);
  }
  catch (const NumError& e) { outcome(op, O_NUM, "number type error", e.id); return false; }
  catch (const CallError& e) { outcome(op, O_CALL, "user function error", e.id); return false; }
  catch (const std::bad_alloc&) { outcome(op, O_BADALLOC, "bad_alloc", 0); return false; }
  catch (const Dune::NotImplemented& e) { char b[160]; snprintf(b, sizeof b, "%s", e.what()); outcome(op, O_REFUSED, b, 0); return true; }
  catch (const std::exception& e) { char b[160]; snprintf(b, sizeof b, "%s", e.what()); outcome(op, O_OTHER, b, 0); return false; }
  catch (...) { outcome(op, O_OTHER, "unknown type", 0); return false; }
  if (refusedHere) { if (refmode()) result().refOutcome = O_REFUSED; else if (op.uid >= 0) result().opOutcome[op.uid] = O_REFUSED; return true; }
  if (!refmode() && (defs[op.kind].flags & OP_CAN_REFUSE)) {
    const Ref* r = find_ref(op.kind, op.a);
    if (r && r->outcome == O_REFUSED && cares(A_VALUE)) violate("value", "%s was served, alone in a fresh process it is refused", op_text(op));
  }
  outcome(op, O_OK, "", 0);
  return true;
}

void harness_run_op(const Op& op, bool recovery) {
  if (attempt(op)) return;
  probe(8);
  if (recovery) violate("recovery", "%s still fails although nothing fails any more", op_text(op));
  if (op.a[NARG - 1] == 1) {
    // the caller simply tries again, on the same thread
    probe(9);
    faults_off(true);
    bool ok = attempt(op);
    faults_off(false);
    if (!ok) violate("recovery", "%s still fails when repeated at once", op_text(op));
    return;
  }
  if (!(defs[op.kind].flags & OP_NO_RECOVER) && nfailed < MAXOPS) failed[nfailed++] = &op;
}

void vals_finish(); void geo_setup(); void single_finish(); void vals_repeat(const Op& op);

void harness_setup() { geo_setup(); }
void harness_recover() {
  for (int i = 0; i < nfailed; ++i) harness_run_op(*failed[i], true);
}
static void again(const Op& op) {
  Op o = op; o.uid = -1;
  if (o.kind == op_kind("rule")) o.a[6] = 0;
  if (o.kind == op_kind("refel")) o.a[5] = 0;
  harness_run_op(o, true);
}
// Requests that were already served, made again and again, must not hold more memory.
static void repeat_all() {
  for (int t = 0; t <= plan().nthreads; ++t) for (int i = 0; i < plan().nops[t]; ++i) {
    const Op& op = plan().ops[t][i];
    if (op_def(op.kind).flags & OP_SLOT) vals_repeat(op);
    else if (op.kind != op_kind("reread")) {
      again(op);
    }
  }
}
static void check_growth() {
  repeat_all();                    // scratch space of this thread may be set up here
  HeapMark a = heap_live();
  for (int i = 0; i < 3; ++i) repeat_all();
  HeapMark b = heap_live();
  probe(19);
  if (b.live > a.live || b.bytes > a.bytes) violate("growth", "repeating requests three times raised the memory held by the library from %llu blocks (%llu bytes) to %llu (%llu)", (unsigned long long)a.live, (unsigned long long)a.bytes, (unsigned long long)b.live, (unsigned long long)b.bytes);
}
// Runs when the process ends, as the destructor of a static object of the user would
// that was created after the tables.
static void at_exit() {
  Paused p;
  probe(20);
  for (int i = 0; i < nkept; ++i) kept[i].reread(kept[i]);
  const Result& R = result();
  for (int t = 0; t <= plan().nthreads; ++t) for (int i = 0; i < plan().nops[t]; ++i) {
    const Op& op = plan().ops[t][i];
    if (op.kind != op_kind("rule") && op.kind != op_kind("refel") && op.kind != op_kind("refine")) continue;
    if (R.opOutcome[op.uid] != O_OK) continue;
    again(op);
  }
}
// A static object of the user, created here. Its destructor asks again for what this
// thread (and the main thread before it) had been given by then.
static void at_exit_early(void* mark) {
  Paused p;
  probe(25);
  const Result& R = result();
  const Op* m = (const Op*)mark;
  for (int t = 0; t <= plan().nthreads; ++t) {
    const bool here = m >= plan().ops[t] && m < plan().ops[t] + plan().nops[t];
    if (t && !here) continue;
    for (int i = 0; i < plan().nops[t] && &plan().ops[t][i] != m; ++i) {
      const Op& op = plan().ops[t][i];
      if ((op.kind == op_kind("rule") || op.kind == op_kind("refel") || op.kind == op_kind("refine")) && R.opOutcome[op.uid] == O_OK) again(op);
    }
  }
}
extern "C" int __cxa_atexit(void (*)(void*), void*, void*) noexcept;
static void op_mark(const Op& op) { if (op.uid >= 0 && plan().shutdown) __cxa_atexit(at_exit_early, (void*)&op, nullptr); }
REGISTER_OP("mark", op_mark, 0, 0)
void harness_finish() {
  for (int i = 0; i < nkept; ++i) { user_acquire(i & 63); kept[i].reread(kept[i]); }
  single_finish();
  vals_finish();
  if (plan().repeat) check_growth();
  if (plan().shutdown) std::atexit(at_exit);
}

} // namespace sim
