// Slots and the operations on the objects in them.
#include "vals.hh"
#include <dune/common/exceptions.hh>
#include <cstdio>

namespace sim {

constexpr int NTYPE = 96;
static VType types[NTYPE]; static bool have[NTYPE];
VReg::VReg(int i, const VType& t) { types[i] = t; have[i] = true; }
const VType* vtype(int i) { if (i < 0 || i >= NTYPE || !have[i]) violate("simulator", "no value type %d", i); return &types[i]; }

int vtype_variants(int i) { return i >= 0 && i < NTYPE && have[i] ? types[i].variants : 0; }
bool vtype_shared(int i) { return i >= 0 && i < NTYPE && have[i] && (types[i].flags & V_SHARED); }
int vtype_queries(int i) { return types[i].nq; }

enum State { EMPTY, LIVE, LIMBO };
constexpr int NSLOT = 32;
struct Slot { const VType* t; int type; void* p; int id, shape, state, readers; bool writer; };
static Slot slots[NSLOT];

// Access to a slot is ordered by the callers: readers among each other only for
// objects whose const interface may be used concurrently.
struct Claim {
  int s; bool write, ok;
  Claim(int s_, bool w) : s(s_), write(w), ok(false) {
    Slot& x = slots[s];
    if (x.state != EMPTY && !(x.t->flags & V_SHARED)) write = true;
    if (x.writer || (write && x.readers)) { probe(10); return; }
    ok = true;
    user_acquire(64 + 2 * s);
    if (write) { user_acquire(65 + 2 * s); x.writer = true; } else { if (x.readers++) probe(11); }
  }
  ~Claim() {
    if (!ok) return;
    Slot& x = slots[s];
    if (write) { x.writer = false; user_release(64 + 2 * s); } else { --x.readers; user_release(65 + 2 * s); }
  }
  Claim(const Claim&) = delete;
};

static void drop(Slot& x) {
  if (x.state == EMPTY) return;
  void* p = x.p; const VType* t = x.t;
  x.state = EMPTY; x.p = nullptr;
  { Active a; t->destroy(p); }
  ::operator delete(p);
}
struct Memory { void* p; explicit Memory(unsigned n) : p(::operator new(n)) {} explicit Memory(std::nullptr_t) : p(nullptr) {} ~Memory() { if (p) ::operator delete(p); } void* take() { void* q = p; p = nullptr; return q; } };

static void query(const VType* t, void* p, int q, Sig& s) {
  Sig part;
  try { Active a; t->query(p, q, part); }
  catch (const NumError&) { throw; }
  catch (const CallError&) { throw; }
  catch (const Dune::NotImplemented&) { part = Sig(); part.add(1e301); probe(12); }
  catch (const Dune::Exception&) { part = Sig(); part.add(1e300); probe(13); }
  s.add(part.n); for (int i = 0; i < part.n && i < MAXVAL; ++i) s.add(part.v[i]);
}

static void check_query(const Slot& x, int q, const char* how) {
  static int newKind = -1; if (newKind < 0) newKind = op_kind("vnew");
  std::int64_t a[NARG] = {x.type, x.id, x.shape};
  const Ref* r = find_ref(newKind, a);
  Sig s; query(x.t, x.p, q, s);
  log_value(s.hash);
  if (!r) violate("simulator", "no expected values for %s", x.t->name);
  if (!cares(A_VALUE)) return;
  int o = 0; for (int i = 0; i < q; ++i) o += 1 + (int)r->v[o];
  if ((int)r->v[o] + 1 != s.n) violate("value", "%s: query %d of a %s (variant %d, shape %d) reports %d values, on a fresh object %d", how, q, x.t->name, x.id, x.shape, s.n - 1, (int)r->v[o]);
  for (int i = 1; i < s.n; ++i)
    if (!close(r->v[o + i], s.v[i], x.t->flags & V_SINGLE ? 1e-4 : 1e-9)) violate("value", "%s: value %d of query %d of a %s (variant %d, shape %d) is %.17g, on a fresh object %.17g", how, i - 1, q, x.t->name, x.id, x.shape, s.v[i], r->v[o + i]);
}

// a: 0 type, 1 variant, 2 shape, 3 slot, 4 at the address of the object it replaces
static void op_vnew(const Op& op) {
  const VType* t = vtype((int)op.a[0]);
  int id = (int)op.a[1], shape = (int)op.a[2];
  if (refmode()) {
    Sig s;
    for (int q = 0; q < t->nq; ++q) {
      Memory m(t->size);
      { Active a; t->make(m.p, id, shape); }
      query(t, m.p, q, s);
      if (q == 0 && t->check && cares(A_ABSOLUTE)) t->check(m.p, id, shape, t->name);
      { Active a; t->destroy(m.p); }
    }
    if (s.n > MAXVAL) violate("simulator", "%s reports too many values (%d)", t->name, s.n);
    expect(op, s);
    return;
  }
  int sl = (int)(op.a[3] % NSLOT);
  Claim c(sl, true); if (!c.ok) return;
  Slot& x = slots[sl];
  Memory m(nullptr);
  if (op.a[4] && x.state != EMPTY && x.t == t) {
    m.p = x.p; x.state = EMPTY; x.p = nullptr;
    probe(24);
    Active a; t->destroy(m.p);
  } else { drop(x); m.p = ::operator new(t->size); }
  { Active a; t->make(m.p, id, shape); }
  x = Slot{t, (int)op.a[0], m.take(), id, shape, LIVE, 0, true};
}
REGISTER_OP("vnew", op_vnew, 3, OP_SLOT)

// a: 0 slot, 1 query, 2 further queries in a row
static void op_vq(const Op& op) {
  int sl = (int)(op.a[0] % NSLOT);
  Claim c(sl, false); if (!c.ok) return;
  Slot& x = slots[sl];
  if (x.state != LIVE) return;
  check_query(x, (int)(op.a[1] % x.t->nq), "use");
  if (!op.a[2]) return;
  Rng more((std::uint64_t)op.a[1] + 77);
  for (int i = 0; i < op.a[2]; ++i) check_query(x, (int)more.below(x.t->nq), "repeated use");
}
REGISTER_OP("vq", op_vq, 0, OP_SLOT)

// a: 0 destination slot, 1 source slot, 2 move
static void op_vcopy(const Op& op) {
  int d = (int)(op.a[0] % NSLOT), s = (int)(op.a[1] % NSLOT);
  if (d == s) return;
  Claim cd(d, true), cs(s, op.a[2] != 0);
  if (!cd.ok || !cs.ok || slots[s].state != LIVE) return;
  Slot &x = slots[d], &y = slots[s];
  drop(x);
  Memory m(y.t->size);
  if (op.a[2]) { y.state = LIMBO; { Active a; y.t->move(m.p, y.p); } probe(15); }
  else { { Active a; y.t->copy(m.p, y.p); } probe(14); }
  x = Slot{y.t, y.type, m.take(), y.id, y.shape, LIVE, 0, true};
}
REGISTER_OP("vcopy", op_vcopy, 0, OP_SLOT)

// a: 0 destination slot, 1 source slot, 2 move
static void op_vassign(const Op& op) {
  int d = (int)(op.a[0] % NSLOT), s = (int)(op.a[1] % NSLOT);
  if (d == s) {                       // to itself
    if (op.a[2]) return;
    Claim c(d, true); if (!c.ok || slots[d].state != LIVE) return;
    Slot& x = slots[d];
    x.state = LIMBO;
    { Active a; x.t->assign(x.p, x.p); }
    x.state = LIVE;
    probe(17);
    check_query(x, 1 % x.t->nq, "self-assignment");
    return;
  }
  Claim cd(d, true), cs(s, op.a[2] != 0);
  if (!cd.ok || !cs.ok || slots[s].state != LIVE) return;
  Slot &x = slots[d], &y = slots[s];
  if (x.state == EMPTY || x.t != y.t) return;
  x.state = LIMBO;
  if (op.a[2]) { y.state = LIMBO; Active a; y.t->massign(x.p, y.p); }
  else { Active a; y.t->assign(x.p, y.p); }
  x.id = y.id; x.shape = y.shape; x.state = LIVE;
  probe(16);
}
REGISTER_OP("vassign", op_vassign, 0, OP_SLOT)

// a: 0 slot
static void op_vdrop(const Op& op) {
  int d = (int)(op.a[0] % NSLOT);
  Claim c(d, true); if (!c.ok) return;
  drop(slots[d]);
}
REGISTER_OP("vdrop", op_vdrop, 0, OP_SLOT)

void vals_finish() {
  for (int i = 0; i < NSLOT; ++i) {
    Slot& x = slots[i];
    if (x.state == EMPTY) continue;
    user_acquire(64 + 2 * i); user_acquire(65 + 2 * i);
    if (x.state == LIVE) for (int q = 0; q < x.t->nq; ++q) check_query(x, q, "at the end");
    else probe(18);
    drop(x);
  }
}

// one object of this kind used and dropped
void vals_repeat(const Op& op) {
  if (op.kind != op_kind("vnew")) return;
  const VType* t = vtype((int)op.a[0]);
  Memory m(t->size);
  { Active a; t->make(m.p, (int)op.a[1], (int)op.a[2]); }
  for (int q = 0; q < t->nq; ++q) { Sig s; query(t, m.p, q, s); }
  { Active a; t->destroy(m.p); }
}
}
