// What the simulated callers do in each run. Compiled without instrumentation.
#include "plans.hh"
#include <cstring>
#include <initializer_list>

namespace sim {

Op& PlanBuilder::add(int t, int kind, std::initializer_list<std::int64_t> a) {
  if (uid >= MAXOPS || p.nops[t] >= MAXOPS) { static Op dummy; return dummy; }
  Op& o = p.ops[t][p.nops[t]++];
  std::memset(&o, 0, sizeof o);
  o.kind = kind; o.uid = uid++;
  int i = 0; for (auto x : a) o.a[i++] = x;
  return o;
}

static int K(const char* n) { int k = op_kind(n); return k; }

// ------------------------------------------------------------------ shared pieces
static void strategy(PlanBuilder& b) {
  Plan& p = b.p; Rng& r = b.rng;
  int x = r.range(0, 99);
  static const int ps[] = {3, 8, 20, 60, 200, 600, 2000};
  if (x < 42) { p.strategy = S_RANDOM; p.param = ps[r.below(7)]; }
  else if (x < 67) { p.strategy = S_PCT; p.param = r.range(1, 4); }
  else if (x < 87) { p.strategy = S_SYNC; p.param = r.range(8, 70); }
  else if (x < 96) { p.strategy = S_LOCKSTEP; p.param = r.chance(1, 2) ? r.range(1, 8) : r.range(9, 200); }
  else { p.strategy = S_SERIAL; p.param = 0; }
  p.schedSeed = r.next();
}
static int threads(Rng& r) { int x = r.range(0, 99); return x < 35 ? 2 : x < 70 ? 3 : x < 90 ? 4 : 5; }

struct RuleKey { int nt, dim, id, order, qt; };
static const int ruleCap[7] = {61, 61, 61, 127, 31, 30, 30};

static RuleKey rule_key(Rng& r, int nt, bool small) {
  RuleKey k; k.nt = nt;
  int x = r.range(0, 99);
  k.dim = x < 5 ? 0 : x < 30 ? 1 : x < 65 ? 2 : x < 93 ? 3 : x < 98 ? 4 : 5;
  if (nt && k.dim > 3) k.dim = 3;
  k.id = (int)r.below(1u << k.dim);
  x = r.range(0, 99);
  k.qt = x < 45 ? 0 : x < 65 ? 3 : x < 72 ? 1 : x < 79 ? 2 : x < 87 ? 4 : x < 94 ? 5 : 6;
  int cap = ruleCap[k.qt] - (k.dim > 1 ? k.dim - 1 : 0);
  static const int typ[6] = {20, 61, 14, 8, 4, 2}, big[6] = {200, 127, 61, 30, 12, 6};
  int c = !small && r.chance(1, 6) ? big[k.dim] : typ[k.dim];
  if (!small && !nt && k.dim == 3 && r.chance(1, 40)) c = 61;
  if (nt == 2) { static const int sb[4] = {5, 20, 8, 4}, sbb[4] = {5, 58, 16, 6}; c = !small && r.chance(1, 10) ? sbb[k.dim] : sb[k.dim]; }
  if (nt == 1) { static const int sr[4] = {5, 58, 30, 10}; if (c > sr[k.dim]) c = sr[k.dim]; }
  if (small && c > 10) c = 10;
  if (c > cap && k.dim > 0) c = cap;
  k.order = r.range(0, c < 0 ? 0 : c);
  if (nt && k.qt == 3 && k.order > 58) k.order = 58;
  return k;
}
static int number_type(Rng& r) { int x = r.range(0, 99); return x < 50 ? 0 : x < 74 ? 1 : x < 88 ? 2 : x < 94 ? 3 : 4; }

static Op& add_rule(PlanBuilder& b, int t, const RuleKey& k, bool keep) {
  return b.add(t, K("rule"), {k.nt, k.dim, k.id, k.order, k.qt, b.rng.chance(1, 5), keep});
}

// many different rules of one dimension
static void add_sweep(PlanBuilder& b, int t, int nt) {
  Rng& r = b.rng;
  int dim = r.range(1, 2), top = dim == 1 ? (nt == 2 ? 16 : 40) : nt == 2 ? 4 : 8, many = nt == 2 ? 40 : 120;
  b.add(t, K("sweep"), {nt, dim, (std::int64_t)r.below(1u << dim), (std::int64_t)r.below(4), (std::int64_t)r.below(7), r.range(20, many), r.range(4, top)});
}
// requests on several threads from a small pool of keys, so that they collide
static void rule_mix(PlanBuilder& b, int nt, int minOps, int maxOps, int keepPct, int rereadPct, bool small) {
  Rng& r = b.rng; Plan& p = b.p;
  RuleKey pool[4]; int np = r.range(1, 4);
  for (int i = 0; i < np; ++i) {
    pool[i] = rule_key(r, nt >= 0 ? nt : number_type(r), small);
    // often: neighbours that share the lower levels of the table
    if (i && r.chance(1, 2)) { pool[i].nt = pool[0].nt; pool[i].dim = pool[0].dim; pool[i].id = pool[0].id; pool[i].qt = pool[0].qt; pool[i].order = pool[0].order ? (int)r.below(pool[0].order + 1) : 0; }
    else if (i && r.chance(1, 3)) { pool[i] = pool[0]; if (pool[i].dim > 1) { pool[i].dim--; pool[i].id &= (1 << pool[i].dim) - 1; } }
  }
  if (r.chance(1, 6)) add_rule(b, 0, pool[r.below(np)], true);
  const bool many = r.chance(1, 40);
  for (int t = 1; t <= p.nthreads; ++t) {
    int n = r.range(minOps, maxOps);
    for (int i = 0; i < n; ++i) {
      if (i && r.range(0, 99) < rereadPct) { b.add(t, K("reread"), {(std::int64_t)r.below(64)}); continue; }
      if (many && r.chance(1, 3)) { add_sweep(b, t, pool[0].nt); continue; }
      add_rule(b, t, r.chance(5, 6) ? pool[r.below(np)] : rule_key(r, nt >= 0 ? nt : number_type(r), small), r.range(0, 99) < keepPct);
    }
  }
}

// ------------------------------------------------------------------ per property
static int faultBudget;    // how many faults gen_faults may draw for this plan
static int faultKinds;     // bit mask
static int stormFirst, stormLast;     // copies of one operation that fail one after the other

// one caller repeats an operation that keeps failing, then once more
static void storm(PlanBuilder& b) {
  Rng& r = b.rng; Plan& p = b.p;
  const int t = r.range(1, p.nthreads);
  if (!p.nops[t]) return;
  const Op o = p.ops[t][r.below(p.nops[t])];
  const int n = r.range(3, 8);
  if (b.uid + n + 1 > MAXOPS) return;
  stormFirst = b.uid; stormLast = b.uid + n - 1;
  for (int i = 0; i <= n; ++i) { Op& c = b.add(t, o.kind, {}); for (int k = 0; k < NARG - 1; ++k) c.a[k] = o.a[k]; }
}

static void gen_c01(PlanBuilder& b) { b.p.nthreads = threads(b.rng); rule_mix(b, -1, 1, 4, 10, 5, false); }
static void gen_c02(PlanBuilder& b) {
  b.p.nthreads = threads(b.rng); rule_mix(b, -1, 2, 6, 70, 35, b.rng.chance(2, 3));
  if (b.rng.chance(1, 3)) { faultBudget = b.rng.range(1, 3); faultKinds = 3; }
  b.p.shutdown = b.rng.chance(1, 4);
}
static void gen_c03(PlanBuilder& b) {
  b.p.nthreads = b.rng.chance(1, 5) ? 1 : threads(b.rng);
  int x = b.rng.range(0, 9);
  rule_mix(b, x < 3 ? 0 : x < 6 ? 1 : x < 9 ? 2 : 4, 1, 4, 20, 10, b.rng.chance(3, 4));
  for (int t = 1; t <= b.p.nthreads; ++t) for (int i = 0; i < b.p.nops[t]; ++i) b.p.ops[t][i].a[7] = b.rng.chance(1, 3);
  faultBudget = b.rng.range(1, 4); faultKinds = 3;
}

// ------------------------------------------------------------------ reference elements
struct RefKey { int nt, dim, id, extent; };
static RefKey refel_key(Rng& r, int nt) {
  RefKey k; k.nt = nt;
  int x = r.range(0, 99);
  k.dim = x < 8 ? 0 : x < 25 ? 1 : x < 55 ? 2 : x < 88 ? 3 : 4;
  if (nt && k.dim > 3) k.dim = 3;
  if (nt == 2 && k.dim > 2) k.dim = 2;
  k.id = (int)r.below(1u << k.dim);
  k.extent = r.chance(1, 3);
  return k;
}
static int refel_type(Rng& r) { int x = r.range(0, 99); return x < 50 ? 0 : x < 75 ? 1 : x < 92 ? 2 : 3; }
static Op& add_refel(PlanBuilder& b, int t, const RefKey& k, bool keep) {
  return b.add(t, K("refel"), {k.nt, k.dim, k.id, k.extent, (std::int64_t)b.rng.below(7), keep});
}
static void refel_mix(PlanBuilder& b, int nt, int minOps, int maxOps, int keepPct, int rereadPct) {
  Rng& r = b.rng; Plan& p = b.p;
  int fixed = nt >= 0 ? nt : r.chance(3, 4) ? refel_type(r) : -1;
  if (r.chance(1, 8)) add_refel(b, 0, refel_key(r, fixed >= 0 ? fixed : refel_type(r)), true);
  RefKey common = refel_key(r, fixed >= 0 ? fixed : refel_type(r));
  for (int t = 1; t <= p.nthreads; ++t) {
    int n = r.range(minOps, maxOps);
    for (int i = 0; i < n; ++i) {
      if (i && r.range(0, 99) < rereadPct) { b.add(t, K("reread"), {(std::int64_t)r.below(64)}); continue; }
      add_refel(b, t, r.chance(1, 3) ? common : refel_key(r, fixed >= 0 ? fixed : refel_type(r)), r.range(0, 99) < keepPct);
    }
  }
}
static void gen_c05(PlanBuilder& b) {
  b.p.nthreads = threads(b.rng); refel_mix(b, -1, 1, 4, 30, 15);
  b.p.shutdown = b.rng.chance(1, 6);
}
static void gen_c06(PlanBuilder& b) {
  b.p.nthreads = b.rng.chance(1, 4) ? 1 : threads(b.rng);
  refel_mix(b, -1, 1, 3, 20, 10);
  for (int t = 1; t <= b.p.nthreads; ++t) for (int i = 0; i < b.p.nops[t]; ++i) b.p.ops[t][i].a[7] = b.rng.chance(1, 3);
  faultBudget = b.rng.range(1, 4); faultKinds = 3;
}

// ------------------------------------------------------------------ value objects
static const int gGeo[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70};
static const int gOther[] = {42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56};
static const int gCaching[] = {15, 16, 17, 18, 22, 24, 27, 29, 30, 31, 32, 35, 37, 38, 40, 60, 62, 65, 66, 67, 68, 70};
static const int gUser[] = {23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 64, 65, 66, 67, 69, 70};
template<int n> static int pick(Rng& r, const int (&a)[n]) { return a[r.below(n)]; }
struct VSpec { int type, id, shape; };
static VSpec vspec(Rng& r, int type) {
  VSpec v; v.type = type; v.id = (int)r.below(vtype_variants(type)); v.shape = (int)r.below(7);
  return v;
}
static Op& add_vnew(PlanBuilder& b, int t, const VSpec& v, int slot) { return b.add(t, K("vnew"), {v.type, v.id, v.shape, slot, b.rng.chance(1, 2)}); }
static Op& add_vq(PlanBuilder& b, int t, int slot) {
  const std::int64_t query = (std::int64_t)b.rng.below(1 << 20);
  return b.add(t, K("vq"), {slot, query, b.rng.chance(1, 50) ? b.rng.range(10, 150) : 0});
}

// a few kinds of object, used by all threads
static void value_mix(PlanBuilder& b, const int* types, int ntypes, int minOps, int maxOps, int sharedSlots, int newPct, int copyPct, int assignPct) {
  Rng& r = b.rng; Plan& p = b.p;
  auto choose = [&] { return vspec(r, types[r.below(ntypes)]); };
  // sometimes most threads read one object
  const bool hot = p.nthreads > 1 && r.chance(1, 4);
  if (hot) {
    sharedSlots = 1;
    for (int i = 0; i < 8 && !vtype_shared(types[0]); ++i) { int k = (int)r.below(ntypes); if (vtype_shared(types[k])) { add_vnew(b, 0, vspec(r, types[k]), 0); sharedSlots = 0; break; } }
  }
  for (int s = 0; s < sharedSlots; ++s) {
    VSpec v = hot ? vspec(r, types[0]) : choose();
    add_vnew(b, 0, v, s);
    if (r.chance(1, 4)) add_vq(b, 0, s);
  }
  for (int t = 1; t <= p.nthreads; ++t) {
    int n = r.range(minOps, maxOps), own = 4 + 4 * (t - 1);
    auto slot = [&] { return hot ? (r.chance(3, 4) ? 0 : own + (int)r.below(3)) : sharedSlots && r.chance(1, 3) ? (int)r.below(sharedSlots) : own + (int)r.below(3); };
    add_vnew(b, t, choose(), own + (int)r.below(2));
    for (int i = 0; i < n; ++i) {
      if (r.chance(1, 12)) {     // a loop: similar objects one after the other at one address, asked the same
        const VSpec v = choose(); const int s = own + (int)r.below(3);
        const std::int64_t query = (std::int64_t)r.below(1 << 20);
        for (int m = r.range(2, 4); m--; ) { VSpec w = vspec(r, v.type); add_vnew(b, t, w, s).a[4] = 1; b.add(t, K("vq"), {s, query, 0}); }
        continue;
      }
      int x = r.range(0, 99);
      if (x < newPct) add_vnew(b, t, choose(), own + (int)r.below(3));
      else if (x < newPct + copyPct) b.add(t, K("vcopy"), {own + (std::int64_t)r.below(3), slot(), r.chance(1, 4)});
      else if (x < newPct + copyPct + assignPct) { int d = hot ? own + (int)r.below(3) : slot(); b.add(t, K("vassign"), {d, r.chance(1, 6) ? d : slot(), r.chance(1, 4)}); }
      else if (x > 97) b.add(t, K("vdrop"), {own + (std::int64_t)r.below(3)});
      else { int s = slot(), m = r.chance(1, 3) ? r.range(2, 3) : 1; while (m--) add_vq(b, t, s); }
    }
  }
}
static void retry_some(PlanBuilder& b) { for (int t = 1; t <= b.p.nthreads; ++t) for (int i = 0; i < b.p.nops[t]; ++i) b.p.ops[t][i].a[7] = b.rng.chance(1, 3); }
template<int n> static int choose_types(Rng& r, const int (&a)[n], int* out, int most) { int k = r.range(1, most); for (int i = 0; i < k; ++i) out[i] = pick(r, a); return k; }

static void gen_c07(PlanBuilder& b) {
  int ty[4]; int n = choose_types(b.rng, gGeo, ty, 3);
  b.p.nthreads = threads(b.rng);
  value_mix(b, ty, n, 2, 6, b.rng.range(0, 3), 25, 12, 6);
}
static void gen_c08(PlanBuilder& b) {
  int ty[4]; int n = b.rng.chance(4, 5) ? choose_types(b.rng, gUser, ty, 2) : choose_types(b.rng, gGeo, ty, 2);
  b.p.nthreads = b.rng.chance(1, 3) ? 1 : threads(b.rng);
  value_mix(b, ty, n, 2, 6, b.rng.range(0, 2), 25, 8, 6);
  retry_some(b);
  faultBudget = b.rng.range(1, 5); faultKinds = b.rng.chance(1, 2) ? 7 : 15;
}
static void gen_c09(PlanBuilder& b) {
  int ty[4]; int n = b.rng.chance(2, 3) ? choose_types(b.rng, gCaching, ty, 2) : choose_types(b.rng, gGeo, ty, 3);
  b.p.nthreads = b.rng.chance(1, 2) ? 1 : b.rng.range(2, 3);
  value_mix(b, ty, n, 5, b.p.nthreads == 1 ? 20 : 9, b.rng.range(1, 3), 8, 14, 14);
  if (b.rng.chance(1, 2)) { faultBudget = b.rng.range(1, 4); faultKinds = 7; }
}
static void gen_c11(PlanBuilder& b) {
  int ty[4]; int n = b.rng.chance(1, 2) ? choose_types(b.rng, gOther, ty, 2) : choose_types(b.rng, gGeo, ty, 2);
  b.p.nthreads = b.rng.chance(1, 2) ? 1 : b.rng.range(2, 3);
  value_mix(b, ty, n, 3, 8, b.rng.range(1, 3), 15, 25, 35);
  retry_some(b);
  faultBudget = b.rng.range(1, 5); faultKinds = 1;
}

// ------------------------------------------------------------------ refused requests
// around and far beyond the highest order; now and then the request can be served
static void add_unservable(PlanBuilder& b, int t, RuleKey k) {
  Rng& r = b.rng; const int nt = k.nt;
  static const std::int64_t far[] = {-1, -2, -1000, -2147483647 - 1, 62, 63, 127, 128, 129, 200, 255, 256, 1000, 65536, 1 << 20, 2147483647};
  int x = r.range(0, 99);
  int cap = ruleCap[k.qt];
  if (x < 50) k.order = cap + r.range(-k.dim, 3);     // around the highest order
  else if (x < 80) k.order = (int)far[r.below(16)];
  else k.order = (r.chance(1, 4) ? -1 : 1) * ((1 << r.range(8, 30)) + r.range(0, 12));     // small once cut to fewer bits
  if (k.qt == 3 && (k.order > 40 && k.order <= 128) && k.dim > 1) k.order += 100;     // served, but expensive
  if (k.qt != 3 && k.dim > 2 && k.order > 14 && k.order <= cap && (k.dim > 3 || nt || !r.chance(1, 6))) k.order = cap + 1 + (int)r.below(4);
  if (nt && k.dim == 2 && k.order >= 12 && k.order <= cap) k.order = cap + 1;
  b.add(t, K("rule"), {k.nt, k.dim, k.id, k.order, k.qt, r.chance(1, 5), 0});
}
static void add_refused(PlanBuilder& b, int t, RuleKey k) { if (k.dim == 0) { k.dim = 1; k.id = 0; } add_unservable(b, t, k); }

static void gen_c04(PlanBuilder& b) {
  Rng& r = b.rng; Plan& p = b.p;
  p.nthreads = r.chance(1, 4) ? 1 : threads(r);
  int nt = r.chance(1, 2) ? 0 : number_type(r);
  RuleKey pool[3]; for (auto& k : pool) { k = rule_key(r, nt, true); if (k.dim == 0) { k.dim = 1; k.id = 0; } }
  auto unservable = [&](int t) { RuleKey k = pool[r.below(3)]; k.qt = r.chance(1, 2) ? k.qt : (int)r.below(7); add_unservable(b, t, k); };
  bool deep = r.chance(1, 6);
  for (int t = 1; t <= p.nthreads; ++t) {
    int n = r.range(2, 5);
    for (int i = 0; i < n; ++i) {
      int x = r.range(0, 99);
      if (x < 15 && i) b.add(t, K("reread"), {(std::int64_t)r.below(64)});
      else if (x < 45) add_rule(b, t, pool[r.below(3)], r.chance(1, 2));
      else if (x < 49) b.add(t, K("norule"), {nt, (std::int64_t)r.below(4), (std::int64_t)r.below(4), (std::int64_t)r.below(8), (std::int64_t)r.below(7)});
      else if (x < 54) b.add(t, K("refine"), {r.chance(1, 3), 3, (std::int64_t)r.below(8), (std::int64_t)r.below(8), 1, (std::int64_t)r.below(4)});
      else if (deep && x < 64) b.add(t, K("deepvol"), {r.chance(1, 4), r.chance(1, 2), r.chance(1, 3) ? r.range(3, 30) : r.range(60, 66) + (r.chance(1, 3) ? 1000 : 0)});
      else unservable(t);
    }
  }
  if (r.chance(1, 3)) { faultBudget = r.range(1, 3); faultKinds = 7; retry_some(b); }
}

// ------------------------------------------------------------------ refinements
static Op& add_refine(PlanBuilder& b, int t) {
  Rng& r = b.rng;
  static const int few[4] = {0, 8, 5, 3}, many[4] = {0, 64, 16, 8};
  const int* n = r.chance(1, 10) ? many : few;
  int dim = r.range(1, 3);
  if (r.chance(1, 4)) { static const int m[4] = {1, 1, 3, 5}; return b.add(t, K("srefine"), {0, dim, (std::int64_t)r.below(m[dim]), 0, r.range(1, n[dim]), (std::int64_t)r.below(4), r.chance(1, 3)}); }
  static const int ty[6][3] = {{1, 0, 0}, {2, 0, 0}, {2, 3, 3}, {2, 3, 0}, {3, 0, 0}, {3, 7, 7}};
  int id, co, x = r.range(0, 8);
  if (x < 6) { dim = ty[x][0]; id = ty[x][1]; co = ty[x][2]; } else { dim = 3; id = x == 6 ? 7 : x == 7 ? 5 : 3; co = 0; }
  if (r.chance(1, 3)) id ^= 1;
  if (r.chance(1, 3)) co ^= 1;
  if (r.chance(1, 25)) co = (int)r.below(1 << dim);
  return b.add(t, K("refine"), {r.chance(1, 4), dim, id, co, r.range(1, n[dim]), (std::int64_t)r.below(4), r.chance(1, 3)});
}
static void gen_c10(PlanBuilder& b) {
  Rng& r = b.rng; Plan& p = b.p;
  p.nthreads = threads(r);
  static const int cur[] = {42, 43, 44, 45, 46, 47};
  int ty[4]; int ncur = r.chance(1, 3) ? choose_types(r, cur, ty, 2) : 0;
  if (ncur) value_mix(b, ty, ncur, 1, 4, r.range(1, 2), 20, 25, 20);
  int a0[NARG]; bool have = false; int kind = 0;
  for (int t = 1; t <= p.nthreads; ++t) {
    int n = r.range(1, 3);
    for (int i = 0; i < n; ++i) {
      if (have && r.chance(1, 2)) { Op& o = b.add(t, kind, {}); for (int k = 0; k < NARG; ++k) o.a[k] = a0[k]; if (r.chance(1, 2)) o.a[5] = (std::int64_t)r.below(4); continue; }
      Op& o = add_refine(b, t);
      if (!have) { have = true; kind = o.kind; for (int k = 0; k < NARG; ++k) a0[k] = (int)o.a[k]; }
    }
  }
  if (r.chance(1, 3)) { retry_some(b); faultBudget = r.range(1, 3); faultKinds = 3; }
  p.shutdown = r.chance(1, 8);
}

// ------------------------------------------------------------------ singletons
static void gen_c12(PlanBuilder& b) {
  Rng& r = b.rng; Plan& p = b.p;
  p.nthreads = r.chance(1, 2) ? 1 : r.range(2, 3);
  int w = (int)r.below(4), per = p.nthreads == 1 ? 16 : 7, keys = r.chance(1, 2) ? 2 : r.chance(9, 10) ? 4 : 40;
  if (keys > 4) per = p.nthreads == 1 ? 60 : 24;
  for (int t = 1; t <= p.nthreads; ++t) {
    int n = r.range(2, per);
    for (int i = 0; i < n; ++i) b.add(t, K("single"), {r.chance(3, 4) ? w : (std::int64_t)r.below(4), (std::int64_t)r.below(8), (std::int64_t)r.below(keys), (std::int64_t)r.below(3), r.chance(1, 2) ? 0 : r.range(1, 4)});
  }
  retry_some(b);
  faultBudget = r.range(0, 6); faultKinds = 5 | (r.chance(1, 4) ? 8 : 0);
  p.shutdown = r.chance(1, 3);
}

// ------------------------------------------------------------------ everything together
static void mixed(PlanBuilder& b, int minOps, int maxOps, bool slots) {
  Rng& r = b.rng; Plan& p = b.p;
  int ty[4]; int n = r.chance(1, 2) ? choose_types(r, gUser, ty, 2) : choose_types(r, gGeo, ty, 2);
  if (r.chance(1, 3)) ty[n++] = pick(r, gOther);
  int nt = number_type(r);
  RuleKey k0 = rule_key(r, nt, true); RefKey e0 = refel_key(r, refel_type(r));
  for (int t = 1; t <= p.nthreads; ++t) {
    int m = r.range(minOps, maxOps), own = 4 + 4 * (t - 1);
    for (int i = 0; i < m; ++i) {
      int x = r.range(0, 99);
      if (x < 28) add_rule(b, t, r.chance(1, 2) ? k0 : rule_key(r, r.chance(1, 2) ? nt : number_type(r), true), r.chance(1, 4));
      else if (x < 50) add_refel(b, t, r.chance(1, 2) ? e0 : refel_key(r, refel_type(r)), r.chance(1, 4));
      else if (x < 53 && !r.chance(1, 2)) add_refused(b, t, rule_key(r, nt, true));
      else if (x < 60) { if (r.chance(1, 40)) add_sweep(b, t, nt); else add_refine(b, t); }
      else if (x < 64) b.add(t, K("single"), {(std::int64_t)r.below(4), (std::int64_t)r.below(8), (std::int64_t)r.below(3), (std::int64_t)r.below(3), r.chance(1, 2) ? 0 : r.range(1, 3)});
      else if (slots && x < 68 && i) b.add(t, K("reread"), {(std::int64_t)r.below(64)});
      else { VSpec v = vspec(r, ty[r.below(n)]); int s = own + (int)r.below(3); add_vnew(b, t, v, s); int q = r.range(1, 3); while (q--) add_vq(b, t, s); if (r.chance(1, 3)) b.add(t, K("vcopy"), {own + (std::int64_t)r.below(3), s, r.chance(1, 4)}); }
    }
  }
}
static void gen_c13(PlanBuilder& b) {
  b.p.nthreads = threads(b.rng); mixed(b, 1, 3, false);
  if (b.rng.chance(1, 2)) retry_some(b);
  faultBudget = b.rng.range(0, 5); faultKinds = b.rng.chance(1, 3) ? 8 : 15;
}
static void gen_c14(PlanBuilder& b) {
  b.p.nthreads = b.rng.chance(1, 2) ? 1 : b.rng.range(2, 3); mixed(b, 1, 4, true);
  if (b.rng.chance(1, 2)) retry_some(b);
  faultBudget = b.rng.range(0, 6); faultKinds = 7;
  b.p.repeat = b.rng.chance(1, 2);
}

// ------------------------------------------------------------------ the smaller facilities
static void gen_c15(PlanBuilder& b) {
  Rng& r = b.rng; Plan& p = b.p;
  p.nthreads = threads(r);
  static const int small[] = {48, 49, 50, 51, 52, 53, 54, 55, 56};
  int ty[4]; int n = choose_types(r, small, ty, 3);
  if (r.chance(4, 5)) value_mix(b, ty, n, 1, 4, r.range(0, 3), 35, 12, 8);
  int dim0 = r.range(0, 4);
  for (int t = 1; t <= p.nthreads; ++t) {
    int m = r.range(1, 3);
    for (int i = 0; i < m; ++i) {
      int x = r.range(0, 99);
      if (x < 45) { Op& o = add_refine(b, t); if (o.kind != K("srefine")) { static const int q[4] = {1, 1, 3, 5}; int d = (int)o.a[1]; o.kind = K("srefine"); o.a[0] = 0; o.a[2] = (std::int64_t)r.below(q[d]); o.a[3] = 0; } }
      else if (x < 90) { int d = r.chance(1, 2) ? dim0 : r.range(0, 4); bool none = r.chance(1, 8); b.add(t, K("types"), {d, none ? 0 : (std::int64_t)r.below(1 << d), none}); }
      else add_rule(b, t, rule_key(r, number_type(r), true), false);
    }
  }
}

// ------------------------------------------------------------------ threads and the process end
static void gen_c16(PlanBuilder& b) {
  Rng& r = b.rng; Plan& p = b.p;
  p.nthreads = threads(r);
  int ty[4]; int n = r.chance(1, 2) ? choose_types(r, gUser, ty, 2) : choose_types(r, gGeo, ty, 2);
  if (r.chance(1, 4)) ty[n++] = pick(r, gOther);
  int nt = number_type(r);
  RuleKey k0 = rule_key(r, nt, r.chance(3, 4)); RefKey e0 = refel_key(r, refel_type(r));
  for (int s = 0; s < 3; ++s) if (r.chance(1, 3)) add_vnew(b, 0, vspec(r, ty[r.below(n)]), s);
  for (int t = 1; t <= p.nthreads; ++t) {
    // some threads are gone early, others read what those obtained and built
    int m = r.chance(1, 2) ? r.range(1, 2) : r.range(3, 6), own = 4 + 4 * (t - 1);
    for (int i = 0; i < m; ++i) {
      int x = r.range(0, 99);
      if (x < 22) add_rule(b, t, r.chance(1, 2) ? k0 : rule_key(r, r.chance(1, 2) ? nt : number_type(r), r.chance(3, 4)), r.chance(3, 4));
      else if (x < 38) add_refel(b, t, r.chance(1, 2) ? e0 : refel_key(r, refel_type(r)), r.chance(3, 4));
      else if (x < 46) add_refine(b, t);
      else if (x < 62) b.add(t, K("reread"), {(std::int64_t)r.below(64)});
      else if (x < 75) { int s = (int)r.below(3); if (r.chance(1, 3)) b.add(t, K("vassign"), {s, r.chance(1, 2) ? own : (std::int64_t)r.below(3), r.chance(1, 4)}); add_vq(b, t, s); }
      else { VSpec v = vspec(r, ty[r.below(n)]); int s = r.chance(1, 3) ? (int)r.below(3) : own + (int)r.below(3); add_vnew(b, t, v, s); int q = r.range(1, 2); while (q--) add_vq(b, t, s); }
    }
  }
  if (r.chance(1, 3)) { retry_some(b); faultBudget = r.range(1, 3); faultKinds = 7; }
  p.shutdown = r.chance(3, 4);
  // static objects of the user, created in between
  if (p.shutdown) for (int t = 1; t <= p.nthreads; ++t) if (r.chance(1, 2) && b.uid < MAXOPS) {
    const int at = r.range(1, p.nops[t]);
    b.add(t, K("mark"));
    Op o = p.ops[t][p.nops[t] - 1];
    for (int i = p.nops[t] - 1; i > at; --i) p.ops[t][i] = p.ops[t][i - 1];
    p.ops[t][at] = o;
  }
}

struct Gen { const char* prop; void (*fn)(PlanBuilder&); };
static const Gen gens[] = {
  {"C01", gen_c01}, {"C02", gen_c02}, {"C03", gen_c03},
  {"C05", gen_c05}, {"C06", gen_c06},
  {"C07", gen_c07}, {"C08", gen_c08}, {"C09", gen_c09}, {"C11", gen_c11},
  {"C04", gen_c04}, {"C10", gen_c10}, {"C12", gen_c12}, {"C13", gen_c13}, {"C14", gen_c14}, {"C15", gen_c15}, {"C16", gen_c16},
};

bool known_property(const char* prop) { for (const Gen& g : gens) if (!std::strcmp(g.prop, prop)) return true; return false; }

static std::uint64_t faultSeed;
void gen_plan(Plan& p, const char* prop, std::uint64_t seed) {
  Switch* sw = p.sw;
  std::memset(&p, 0, sizeof p);
  p.sw = sw;
  std::strncpy(p.prop, prop, sizeof p.prop - 1);
  p.seed = seed;
  PlanBuilder b(p, seed);
  strategy(b);
  faultBudget = 0; faultKinds = 0; stormFirst = 0; stormLast = -1;
  for (const Gen& g : gens) if (!std::strcmp(g.prop, prop)) g.fn(b);
  if (faultBudget > 0 && b.rng.chance(1, 10)) storm(b);
  faultSeed = b.rng.next();
}

// Expected length of the run, from the single reference runs.
void estimate_steps(Plan& p) {
  std::uint64_t est = 0;
  for (int t = 1; t <= p.nthreads; ++t) for (int i = 0; i < p.nops[t]; ++i) {
    const Op& o = p.ops[t][i];
    const Ref* f = op_def(o.kind).nref ? find_ref(o.kind, o.a) : nullptr;
    est += f ? f->steps : 200;
  }
  p.estSteps = (std::uint32_t)(est ? est : 1);
}
bool wants_rehearsal(const Plan& p) {
  if (faultBudget > 0) return true;
  if (p.strategy != S_PCT) return false;
  for (int t = 1; t <= p.nthreads; ++t) for (int i = 0; i < p.nops[t]; ++i) if (op_def(p.ops[t][i].kind).flags & OP_SLOT) return true;
  return false;
}
// `seen`: the same plan executed without faults, or null
void gen_faults(Plan& p, const Result* seen) {
  Rng r(faultSeed);
  const Op* all[MAXOPS]; int n = 0;
  std::uint64_t steps = 0;
  for (int t = 1; t <= p.nthreads; ++t) for (int i = 0; i < p.nops[t]; ++i) {
    const Op& o = p.ops[t][i];
    all[n++] = &o;
    if (seen) steps += seen->opSteps[o.uid];
  }
  if (steps) p.estSteps = (std::uint32_t)steps;
  for (int j = 0; j < faultBudget && n; ++j) {
    // mostly at a point the run without faults passes; sometimes at one that only
    // another fault would bring about
    const bool exact = seen && r.chance(3, 4);
    const Op* po = nullptr;
    std::uint32_t cnt[F_NKIND];
    int kinds[F_NKIND], nk = 0;
    bool guess = false;
    for (int tries = 0; tries < (exact ? 12 : 1) && !nk; ++tries) {
      const Op& o = *(po = all[r.below(n)]);
      const bool slotOp = op_def(o.kind).flags & OP_SLOT;
      const Ref* f = op_def(o.kind).nref && !slotOp ? find_ref(o.kind, o.a) : nullptr;
      std::uint32_t A = 16, N = 512, C = 128;
      if (exact) { A = seen->opAllocs[o.uid]; N = seen->opNums[o.uid]; C = seen->opCalls[o.uid]; }
      else if (f) { A = f->allocs; N = f->nums; C = f->calls; }
      guess = !exact && !f;
      cnt[F_ALLOC] = A; cnt[F_NUM] = N; cnt[F_CALL] = C; cnt[F_REENTER] = guess ? C : N + C;
      for (int k = 0; k < F_NKIND; ++k) if ((faultKinds >> k & 1) && cnt[k]) kinds[nk++] = k;
    }
    if (!nk || p.nfaults >= MAXFAULT) continue;
    Fault& ft = p.faults[p.nfaults++];
    ft.uid = po->uid; ft.kind = kinds[r.below(nk)];
    std::uint32_t c = cnt[ft.kind];
    if (guess) { std::uint32_t m = 2; while (m < c && r.chance(3, 4)) m *= 2; ft.k = 1 + r.below(m); }
    else if (r.chance(1, 2)) ft.k = 1 + r.below(c);
    else { std::uint32_t m = 1; while (m < c && r.chance(2, 3)) m *= 2; ft.k = 1 + r.below(m > c ? c : m); }
    ft.sticky = ft.kind != F_REENTER && r.chance(1, 6);
  }
  if (stormLast < stormFirst || !seen) return;
  std::uint32_t most[F_NKIND] = {};
  auto up = [](std::uint32_t& a, std::uint32_t x) { if (x > a) a = x; };
  for (int u = stormFirst; u <= stormLast; ++u) { up(most[F_ALLOC], seen->opAllocs[u]); up(most[F_NUM], seen->opNums[u]); up(most[F_CALL], seen->opCalls[u]); }
  // something kept by the first of them would hide what it does
  for (int i = 0; i < n; ++i) if (all[i]->uid == stormFirst && op_def(all[i]->kind).nref && !(op_def(all[i]->kind).flags & OP_SLOT))
    if (const Ref* f = find_ref(all[i]->kind, all[i]->a)) { up(most[F_ALLOC], f->allocs); up(most[F_NUM], f->nums); up(most[F_CALL], f->calls); }
  int kinds[F_NKIND], nk = 0;
  for (int k = 0; k < F_NKIND; ++k) if (k != F_REENTER && (faultKinds >> k & 1) && most[k]) kinds[nk++] = k;
  if (!nk) return;
  const int kind = kinds[r.below(nk)]; const bool same = r.chance(1, 2);
  std::uint32_t at = 1 + r.below(most[kind]);
  for (int u = stormFirst; u <= stormLast && p.nfaults < MAXFAULT; ++u) {
    Fault& ft = p.faults[p.nfaults++];
    ft.uid = u; ft.kind = kind; ft.k = same ? at : 1 + r.below(most[kind]); ft.sticky = false;
  }
}
} // namespace sim
