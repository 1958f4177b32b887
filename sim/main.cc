// Driver: batches of seeded runs, minimisation, replay. Not instrumented.
#include "plans.hh"
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace sim {

// driver tables live in an address range the leak check knows not to be roots
static void* table(std::size_t n, int flags) {
  static std::uint64_t top = 0x160000000000ull;
  n = (n + 0xffff) & ~0xffffull;
  void* p = mmap((void*)top, n, PROT_READ | PROT_WRITE, flags | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(2); }
  top += n;
  return p;
}
template<class T> static T* shared(std::size_t n = 1) { return (T*)table(sizeof(T) * n, MAP_SHARED); }
template<class T> static T* priv(std::size_t n = 1) { return (T*)table(sizeof(T) * n, MAP_PRIVATE); }
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

// ------------------------------------------------------------------ expected results
// one table filled by all workers; when it is full each worker has a small one of its own
static const int NREF = 1 << 15, NOWN = 1 << 11;
enum RefState { R_EMPTY = 0, R_BUSY = 1, R_READY = 2, R_FAILED = 3 };
static Ref *refs, *own; static int *refState, *refCount, nown;
static void alloc_refs() { refs = shared<Ref>(NREF); refState = shared<int>(NREF); refCount = shared<int>(); own = priv<Ref>(NOWN); nown = 0; }
static unsigned ref_hash(std::uint64_t key) { return (unsigned)((key * 0x9e3779b97f4a7c15ull) >> 40); }
// index of the slot in the common table; mine: the caller has to fill it
static int ref_slot(std::uint64_t key, bool claim, bool* mine) {
  *mine = false;
  for (unsigned h = ref_hash(key) & (NREF - 1);; h = (h + 1) & (NREF - 1)) {
    std::uint64_t k = __atomic_load_n(&refs[h].key, __ATOMIC_ACQUIRE);
    if (!k) {
      if (!claim || __atomic_load_n(refCount, __ATOMIC_RELAXED) > NREF * 3 / 4) return -1;
      if (__atomic_compare_exchange_n(&refs[h].key, &k, key, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) { __atomic_add_fetch(refCount, 1, __ATOMIC_RELAXED); *mine = true; return (int)h; }
    }
    if (k == key) return (int)h;
  }
}
static Ref* own_slot(std::uint64_t key) {
  unsigned h = ref_hash(key) & (NOWN - 1);
  while (own[h].key && own[h].key != key) h = (h + 1) & (NOWN - 1);
  return &own[h];
}
const Ref* find_ref(int kind, const std::int64_t* a) {
  std::uint64_t key = ref_key(kind, a); bool mine;
  int i = ref_slot(key, false, &mine);
  if (i >= 0 && __atomic_load_n(&refState[i], __ATOMIC_ACQUIRE) == R_READY) return &refs[i];
  Ref* r = own_slot(key);
  return r->key ? r : nullptr;
}

static void clear(Result* r) { std::memset(r, 0, offsetof(Result, sw)); }

// run a plan in a fresh process; returns 1 ok, 2 violation, 0 simulator error
static int run_plan(const Plan& p, Result* r) {
  clear(r);
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(2); }
  if (pid == 0) { alarm(200); execute(p, r); }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (r->status == 0) {
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { snprintf(r->cls, sizeof r->cls, "simulator"); snprintf(r->msg, sizeof r->msg, "run did not end within the wall-clock limit"); return 0; }
    r->status = 2;
    snprintf(r->cls, sizeof r->cls, "crash");
    r->hash = st;
    if (WIFSIGNALED(st)) snprintf(r->msg, sizeof r->msg, "process killed by signal %d", WTERMSIG(st));
    else snprintf(r->msg, sizeof r->msg, "process ended by itself with status %d", WEXITSTATUS(st));
  }
  if (r->status == 2 && !std::strcmp(r->cls, "simulator")) return 0;
  return r->status;
}

static Plan* refPlan; static Result* refResult; static std::uint64_t refRuns;
// make sure the expected results of all ops are known; 1 ok, 2 violation in *refResult for *refPlan
static int need_refs(const Plan& p) {
  for (int t = 0; t <= p.nthreads; ++t)
    for (int i = 0; i < p.nops[t]; ++i) {
      const Op& o = p.ops[t][i];
      if (!op_def(o.kind).nref) continue;
      std::uint64_t key = ref_key(o.kind, o.a);
      bool mine; int slot = ref_slot(key, true, &mine);
      if (slot >= 0 && !mine) {
        int state;
        double end = now() + 250;
        while ((state = __atomic_load_n(&refState[slot], __ATOMIC_ACQUIRE)) < R_READY && now() < end) usleep(100);
        if (state == R_READY) continue;
        slot = -1;
      }
      Ref* s = slot >= 0 ? &refs[slot] : own_slot(key);
      if (slot < 0) {
        if (s->key) continue;
        if (nown > NOWN * 3 / 4) { std::memset(own, 0, sizeof(Ref) * NOWN); nown = 0; return need_refs(p); }
      }
      Plan& q = *refPlan;
      Switch* sw = q.sw; std::memset(&q, 0, sizeof q); q.sw = sw;
      std::memcpy(q.prop, p.prop, sizeof q.prop); q.seed = p.seed; q.refmode = 1; q.nops[0] = 1;
      q.ops[0][0] = o; q.ops[0][0].uid = 0;
      for (int k = op_def(o.kind).nref; k < NARG; ++k) q.ops[0][0].a[k] = 0;    // the same whichever operation asks first
      ++refRuns;
      int st = run_plan(q, refResult);
      if (st != 1) { if (slot >= 0) __atomic_store_n(&refState[slot], R_FAILED, __ATOMIC_RELEASE); return st; }
      if (slot < 0) { s->key = key; ++nown; }
      s->outcome = refResult->refOutcome; s->n = refResult->nsig; s->hash = refResult->sigHash;
      s->steps = refResult->opSteps[0]; s->allocs = refResult->opAllocs[0]; s->nums = refResult->opNums[0]; s->calls = refResult->opCalls[0];
      std::memcpy(s->v, refResult->sig, sizeof(double) * (s->n < MAXVAL ? s->n : MAXVAL));
      if (slot >= 0) __atomic_store_n(&refState[slot], R_READY, __ATOMIC_RELEASE);
    }
  return 1;
}

// Draw the faults of a plan.  A run of the same plan without faults tells where they
// can strike; should that run fail already, it is the finding and gets no faults.
static Result* rehearsal; static std::uint64_t rehearsals;
static void draw_faults(Plan& p) {
  estimate_steps(p);
  if (!wants_rehearsal(p)) { gen_faults(p, nullptr); return; }
  if (!rehearsal) rehearsal = shared<Result>();
  ++rehearsals;
  if (run_plan(p, rehearsal) == 1) gen_faults(p, rehearsal);
}

static std::uint64_t run_seed(std::uint64_t base, const char* prop, std::uint64_t i) {
  std::uint64_t h = mix(base, 0xd57);
  for (const char* c = prop; *c; ++c) h = mix(h, *c);
  return mix(h, i);
}

// ------------------------------------------------------------------ statistics
static const std::uint64_t NSET = 1ull << 22;
struct Stats {
  std::uint64_t runs, refRuns, rehearsals, steps, accesses, syncops, allocs, switches, preemptions, blocked, ops, opsOk, opsFailed, opsRefused;
  std::uint64_t planned[F_NKIND], fired[F_NKIND], faultRuns, faultFreeRuns, threadsHist[MAXT], strat[S_NSTRAT], probes[NPROBE], probeRuns[NPROBE];
  std::uint64_t distinctSched, distinctLog, nontrivial, logHash, maxSteps, opKinds[64];
  double wall;
};
struct Shared {
  volatile long long violIndex;
  volatile int error;
  Stats st[64];
};
static Shared* S;
static std::uint64_t *setSched, *setLog;
static bool insert(std::uint64_t* set, std::uint64_t h) {
  if (!h) h = 1;
  std::uint64_t i = (h * 0x9e3779b97f4a7c15ull) >> 42;
  for (std::uint64_t n = 0; n < 64; ++n, i = (i + 1) & (NSET - 1)) {
    std::uint64_t cur = __atomic_load_n(&set[i], __ATOMIC_RELAXED);
    if (cur == h) return false;
    if (!cur) { std::uint64_t z = 0; if (__atomic_compare_exchange_n(&set[i], &z, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) return true; if (z == h) return false; }
  }
  return false;      // table crowded: do not count
}

static void account(Stats& s, const Plan& p, const Result& r, std::uint64_t index) {
  ++s.runs; s.steps += r.steps; s.accesses += r.accesses; s.syncops += r.syncops; s.allocs += r.allocs;
  s.switches += r.switches; s.preemptions += r.preemptions; s.blocked += r.blocked;
  if (r.steps > s.maxSteps) s.maxSteps = r.steps;
  for (int t = 0; t <= p.nthreads; ++t) for (int i = 0; i < p.nops[t]; ++i) {
    ++s.ops; ++s.opKinds[p.ops[t][i].kind & 63]; int o = r.opOutcome[p.ops[t][i].uid];
    if (o == O_OK) ++s.opsOk; else if (o == O_REFUSED) ++s.opsRefused; else ++s.opsFailed;
  }
  bool any = false;
  for (int i = 0; i < p.nfaults; ++i) ++s.planned[p.faults[i].kind];
  for (int k = 0; k < F_NKIND; ++k) { s.fired[k] += r.fired[k]; any |= r.fired[k] > 0; }
  if (any) ++s.faultRuns; else ++s.faultFreeRuns;
  ++s.threadsHist[p.nthreads]; ++s.strat[p.strategy];
  for (int k = 0; k < NPROBE; ++k) { s.probes[k] += r.probe[k]; s.probeRuns[k] += r.probe[k] > 0; }
  bool nontriv = r.preemptions > 0 || r.blocked > 0 || any;
  std::uint64_t opsHash = 5;
  for (int t = 0; t <= p.nthreads; ++t) for (int i = 0; i < p.nops[t]; ++i) { opsHash = mix(opsHash, p.ops[t][i].kind * 8 + t); for (int k = 0; k < NARG; ++k) opsHash = mix(opsHash, p.ops[t][i].a[k]); }
  if (nontriv && insert(setSched, mix(opsHash, r.schedHash ^ (any ? r.hash : 0)))) ++s.distinctSched;
  if (insert(setLog, r.hash)) ++s.distinctLog;
  if (nontriv) ++s.nontrivial;
  s.logHash += mix(index, r.hash);
}

// ------------------------------------------------------------------ replay files
static void write_plan(FILE* f, const Plan& p) {
  fprintf(f, "prop %s\nseed %llu\nthreads %d\nrefmode %d\nshutdown %d\nrepeat %d\n", p.prop, (unsigned long long)p.seed, p.nthreads, p.refmode, p.shutdown, p.repeat);
  for (int t = 0; t <= p.nthreads; ++t)
    for (int i = 0; i < p.nops[t]; ++i) {
      const Op& o = p.ops[t][i];
      fprintf(f, "op %d %d %s", t, o.uid, op_def(o.kind).name);
      for (int k = 0; k < NARG; ++k) fprintf(f, " %lld", (long long)o.a[k]);
      fprintf(f, "\n");
    }
  static const char* fk[] = {"alloc", "number", "call", "reenter"};
  for (int i = 0; i < p.nfaults; ++i) fprintf(f, "fault %d %s %u %d\n", p.faults[i].uid, fk[p.faults[i].kind], p.faults[i].k, p.faults[i].sticky);
  for (int i = 0; i < p.nsw; ++i) fprintf(f, "switch %d %d %d %u\n", p.sw[i].uid, p.sw[i].from, p.sw[i].to, p.sw[i].step);
}
static bool read_plan(const char* file, Plan& p, char* cls, std::uint64_t* hash) {
  FILE* f = fopen(file, "r"); if (!f) return false;
  Switch* sw = p.sw; std::memset(&p, 0, sizeof p); p.sw = sw; p.strategy = S_EXPLICIT;
  char line[2048]; cls[0] = 0; *hash = 0;
  while (fgets(line, sizeof line, f)) {
    unsigned long long u; int a, b, c; unsigned d; char w[64];
    if (sscanf(line, "prop %7s", p.prop) == 1) continue;
    if (sscanf(line, "seed %llu", &u) == 1) { p.seed = u; continue; }
    if (sscanf(line, "threads %d", &a) == 1) { p.nthreads = a; continue; }
    if (sscanf(line, "refmode %d", &a) == 1) { p.refmode = a; continue; }
    if (sscanf(line, "shutdown %d", &a) == 1) { p.shutdown = a; continue; }
    if (sscanf(line, "repeat %d", &a) == 1) { p.repeat = a; continue; }
    if (sscanf(line, "class %23s", cls) == 1) continue;
    if (sscanf(line, "hash %llx", &u) == 1) { *hash = u; continue; }
    if (sscanf(line, "switch %d %d %d %u", &a, &b, &c, &d) == 4) { if (p.nsw < MAXSW) { Switch& s = p.sw[p.nsw++]; s.uid = a; s.from = b; s.to = c; s.step = d; } continue; }
    if (sscanf(line, "fault %d %63s %u %d", &a, w, &d, &b) == 4) {
      Fault& ft = p.faults[p.nfaults++]; ft.uid = a; ft.k = d; ft.sticky = b;
      ft.kind = !std::strcmp(w, "alloc") ? F_ALLOC : !std::strcmp(w, "number") ? F_NUM : !std::strcmp(w, "call") ? F_CALL : F_REENTER; continue; }
    if (sscanf(line, "op %d %d %63s", &a, &b, w) == 3) {
      Op& o = p.ops[a][p.nops[a]++]; o.uid = b; int k = op_kind(w); if (k < 0) { fprintf(stderr, "unknown op %s\n", w); return false; } o.kind = k;
      char* q = std::strstr(line, w) + std::strlen(w);
      for (int i = 0; i < NARG; ++i) o.a[i] = strtoll(q, &q, 10);
      continue;
    }
  }
  fclose(f);
  return true;
}

// ------------------------------------------------------------------ minimisation
static Result* tr; static int attempts; static double shrinkEnd;
static char wantCls[24];
// does the plan (explicit schedule) still fail the same way?
static bool fails(Plan& p) {
  ++attempts;
  if (!p.refmode && need_refs(p) != 1) return false;
  return run_plan(p, tr) == 2 && !std::strcmp(tr->cls, wantCls);
}
static void adopt_schedule(Plan& p) {     // take over the schedule of the last run
  p.strategy = S_EXPLICIT; p.nsw = tr->nsw; std::memcpy(p.sw, tr->sw, sizeof(Switch) * tr->nsw);
}
static void copy_plan(Plan& d, const Plan& s) { Switch* sw = d.sw; d = s; d.sw = sw; if (s.nsw) std::memcpy(d.sw, s.sw, sizeof(Switch) * s.nsw); }
static bool budget() { return attempts < 1500 && now() < shrinkEnd; }

// the candidate, with its own schedule or with one found by a short seeded search
static bool fails_somehow(Plan& c, std::uint64_t salt, int tries) {
  if (fails(c)) return true;
  if (c.refmode || c.nthreads == 0) return false;
  int st = c.strategy; std::uint32_t pa = c.param; int ns = c.nsw;
  for (int i = 0; i < tries && budget(); ++i) {
    Rng r(mix(salt, i));
    int x = r.range(0, 3);
    c.strategy = x == 0 ? S_RANDOM : x == 1 ? S_SYNC : x == 2 ? S_PCT : S_SERIAL;
    c.param = x == 0 ? (int)(1 << r.range(2, 9)) : x == 1 ? r.range(10, 60) : r.range(1, 3);
    c.schedSeed = r.next(); c.nsw = 0;
    if (c.estSteps == 0) c.estSteps = 2000;
    if (fails(c)) { adopt_schedule(c); return true; }
  }
  c.strategy = st; c.param = pa; c.nsw = ns;
  return false;
}

static void minimise(Plan& p) {
  static Plan* c = nullptr; if (!c) { c = priv<Plan>(); c->sw = priv<Switch>(MAXSW); }
  // whole threads, then single operations
  for (bool again = true; again && budget();) {
    again = false;
    for (int t = p.nthreads; t >= 0 && budget(); --t) {
      if (p.nops[t] == 0) continue;
      if (p.nops[t] > 1 || t == 0) {
        copy_plan(*c, p); c->nops[t] = 0;
        if (fails_somehow(*c, p.seed + t, 12)) { adopt_schedule(*c); copy_plan(p, *c); again = true; continue; }
      }
      for (int i = p.nops[t] - 1; i >= 0 && budget(); --i) {
        copy_plan(*c, p);
        for (int k = i; k + 1 < c->nops[t]; ++k) c->ops[t][k] = c->ops[t][k + 1];
        --c->nops[t];
        if (fails_somehow(*c, p.seed + t * 100 + i, 12)) { adopt_schedule(*c); copy_plan(p, *c); again = true; }
      }
    }
  }
  // faults
  for (int i = p.nfaults - 1; i >= 0 && budget(); --i) {
    copy_plan(*c, p);
    for (int k = i; k + 1 < c->nfaults; ++k) c->faults[k] = c->faults[k + 1];
    --c->nfaults;
    if (fails_somehow(*c, p.seed + 7000 + i, 4)) { adopt_schedule(*c); copy_plan(p, *c); }
  }
  for (int i = 0; i < p.nfaults && budget(); ++i) if (p.faults[i].sticky) { copy_plan(*c, p); c->faults[i].sticky = 0; if (fails(*c)) copy_plan(p, *c); }
  if (p.shutdown) { copy_plan(*c, p); c->shutdown = 0; if (fails(*c)) copy_plan(p, *c); }
  if (p.repeat) { copy_plan(*c, p); c->repeat = 0; if (fails(*c)) copy_plan(p, *c); }
  // trailing empty threads
  while (p.nthreads > 0 && p.nops[p.nthreads] == 0 && budget()) {
    copy_plan(*c, p); --c->nthreads;
    if (!fails_somehow(*c, p.seed + 8000, 4)) break;
    adopt_schedule(*c); copy_plan(p, *c);
  }
  // context switches
  for (int chunk = p.nsw / 2; chunk >= 1 && budget(); chunk /= 2) {
    for (int i = 0; i < p.nsw && budget();) {
      copy_plan(*c, p);
      int n = chunk < p.nsw - i ? chunk : p.nsw - i;
      std::memmove(c->sw + i, c->sw + i + n, sizeof(Switch) * (p.nsw - i - n));
      c->nsw -= n;
      if (fails(*c)) {
        // forced switches reappear in the log; keep the shorter description
        copy_plan(p, *c);
      } else i += n;
    }
  }
}

static void jstr(FILE* f, const char* s) { fputc('"', f); for (; *s; ++s) { if (*s == '"' || *s == '\\') fputc('\\', f); if ((unsigned char)*s >= 32) fputc(*s, f); } fputc('"', f); }

// ------------------------------------------------------------------ batch
static int batch(const char* prop, std::uint64_t seed, long long from, long long to, int W, double limit, const char* out, bool hashes) {
  S = shared<Shared>(); S->violIndex = -1;
  setSched = shared<std::uint64_t>(NSET); setLog = shared<std::uint64_t>(NSET);
  alloc_refs();
  double t0 = now();
  pid_t pid[64];
  for (int w = 0; w < W; ++w) {
    fflush(stdout);
    pid[w] = fork();
    if (pid[w] == 0) {
      Plan* p = priv<Plan>(); p->sw = nullptr;
      Result* r = shared<Result>();
      refPlan = priv<Plan>(); refResult = shared<Result>();
      Stats& st = S->st[w];
      for (long long i = from + w; i < to; i += W) {
        long long v = S->violIndex;
        if (v >= 0 && i > v) break;
        if (now() - t0 > limit) break;
        gen_plan(*p, prop, run_seed(seed, prop, i));
        int rc = need_refs(*p);
        st.refRuns = refRuns;
        if (rc == 1) {
          draw_faults(*p);
          st.rehearsals = rehearsals;
          rc = run_plan(*p, r);
          account(st, *p, *r, i);
          if (hashes) { printf("%lld %016llx %d\n", i, (unsigned long long)r->hash, r->status); fflush(stdout); }
        }
        if (rc == 0) { fprintf(stderr, "simulator error in run %lld: %s\n", i, rc == 0 && r->msg[0] ? r->msg : refResult->msg); S->error = 1; break; }
        if (rc == 2) {
          long long cur = S->violIndex;
          while ((cur < 0 || i < cur) && !__sync_bool_compare_and_swap(&S->violIndex, cur, i)) cur = S->violIndex;
          break;
        }
      }
      _exit(0);
    }
  }
  for (int w = 0; w < W; ++w) { int s; waitpid(pid[w], &s, 0); if (!WIFEXITED(s) || WEXITSTATUS(s)) S->error = 1; }
  double wall = now() - t0;
  Stats T; std::memset(&T, 0, sizeof T);
  for (int w = 0; w < W; ++w) {
    const Stats& s = S->st[w];
    const std::uint64_t* a = (const std::uint64_t*)&s; std::uint64_t* b = (std::uint64_t*)&T;
    std::uint64_t mx = T.maxSteps > s.maxSteps ? T.maxSteps : s.maxSteps;
    for (std::size_t k = 0; k < offsetof(Stats, wall) / 8; ++k) b[k] += a[k];
    T.maxSteps = mx;
  }
  FILE* f = out ? fopen(out, "w") : stdout;
  if (!f) { perror(out); return 2; }
  fprintf(f, "{\"prop\":\"%s\",\"seed\":%llu,\"wall\":%.3f,\"workers\":%d,\"error\":%d,\"violIndex\":%lld,\"runs\":%llu,\"refRuns\":%llu,\"rehearsals\":%llu,\"steps\":%llu,\"accesses\":%llu,\"syncops\":%llu,\"allocs\":%llu,\"switches\":%llu,\"preemptions\":%llu,\"blocked\":%llu,\"ops\":%llu,\"opsOk\":%llu,\"opsFailed\":%llu,\"opsRefused\":%llu,\"faultRuns\":%llu,\"faultFreeRuns\":%llu,\"distinctSched\":%llu,\"distinctLog\":%llu,\"nontrivial\":%llu,\"maxSteps\":%llu,\"logHash\":\"%016llx\"",
          prop, (unsigned long long)seed, wall, W, S->error, S->violIndex,
#define U(x) (unsigned long long)T.x
          U(runs), U(refRuns), U(rehearsals), U(steps), U(accesses), U(syncops), U(allocs), U(switches), U(preemptions), U(blocked), U(ops), U(opsOk), U(opsFailed), U(opsRefused), U(faultRuns), U(faultFreeRuns), U(distinctSched), U(distinctLog), U(nontrivial), U(maxSteps), U(logHash));
  auto arr = [&](const char* n, const std::uint64_t* a, int k) { fprintf(f, ",\"%s\":[", n); for (int i = 0; i < k; ++i) fprintf(f, i ? ",%llu" : "%llu", (unsigned long long)a[i]); fprintf(f, "]"); };
  arr("planned", T.planned, F_NKIND); arr("fired", T.fired, F_NKIND); arr("threads", T.threadsHist, MAXT); arr("strategies", T.strat, S_NSTRAT);
  arr("probes", T.probes, NPROBE); arr("probeRuns", T.probeRuns, NPROBE);
  fprintf(f, ",\"opKinds\":{"); bool first = true;
  for (int k = 0; k < op_count(); ++k) if (T.opKinds[k]) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", op_def(k).name, (unsigned long long)T.opKinds[k]); first = false; }
  fprintf(f, "}");
  // a few plans, as examples of what was run
  fprintf(f, ",\"samples\":[");
  Plan* p = priv<Plan>();
  for (int i = 0; i < 5; ++i) {
    gen_plan(*p, prop, run_seed(seed, prop, from + i));
    fprintf(f, "%s{\"run\":%lld,\"threads\":%d,\"strategy\":%d,\"ops\":[", i ? "," : "", from + i, p->nthreads, p->strategy);
    bool c = false;
    for (int t = 0; t <= p->nthreads; ++t) for (int k = 0; k < p->nops[t] && k < 3; ++k) {
      char b[200]; int o = snprintf(b, sizeof b, "T%d %s", t, op_def(p->ops[t][k].kind).name);
      for (int q = 0; q < NARG; ++q) o += snprintf(b + o, sizeof b - o, " %lld", (long long)p->ops[t][k].a[q]);
      fprintf(f, c ? "," : ""); jstr(f, b); c = true;
    }
    fprintf(f, "]}");
  }
  fprintf(f, "]}\n");
  if (out) fclose(f);
  return S->violIndex >= 0 ? 1 : S->error ? 2 : 0;
}

static void alloc_tables() {
  alloc_refs(); refPlan = priv<Plan>(); refPlan->sw = nullptr; refResult = shared<Result>(); tr = shared<Result>();
}

// reproduce run `index`, check it repeats exactly, minimise, write the replay file
static int shrink(const char* prop, std::uint64_t seed, long long index, const char* file, double secs) {
  alloc_tables();
  Plan* p = priv<Plan>(); p->sw = priv<Switch>(MAXSW);
  gen_plan(*p, prop, run_seed(seed, prop, index));
  int rc = need_refs(*p);
  if (rc == 2) { copy_plan(*p, *refPlan); p->sw = p->sw; p->nsw = 0; p->strategy = S_EXPLICIT; }
  else if (rc == 1) draw_faults(*p);
  else { fprintf(stderr, "simulator error: %s\n", refResult->msg); return 2; }
  Result* r1 = shared<Result>();
  if (run_plan(*p, r1) != 2) { fprintf(stderr, "run %lld does not fail when repeated\n", index); return 2; }
  std::uint64_t h1 = r1->hash; snprintf(wantCls, sizeof wantCls, "%s", r1->cls);
  printf("found class=%s: %s\n", r1->cls, r1->msg);
  if (run_plan(*p, tr) != 2 || tr->hash != h1 || std::strcmp(tr->cls, wantCls)) { fprintf(stderr, "run %lld is not deterministic\n", index); return 2; }
  if (!p->refmode) adopt_schedule(*p);
  if (!fails(*p) || tr->hash != h1) {
    // explicit schedule must repeat the seeded one exactly
    fprintf(stderr, "explicit schedule of run %lld differs (%s %s, hash %016llx vs %016llx)\n", index, tr->status == 2 ? tr->cls : "no violation", tr->msg, (unsigned long long)tr->hash, (unsigned long long)h1);
    return 2;
  }
  int ops0 = 0, sw0 = p->nsw, f0 = p->nfaults; for (int t = 0; t <= p->nthreads; ++t) ops0 += p->nops[t];
  shrinkEnd = now() + secs; attempts = 0;
  minimise(*p);
  if (!fails(*p)) { fprintf(stderr, "minimised run does not fail\n"); return 2; }
  std::uint64_t h2 = tr->hash;
  if (!fails(*p) || tr->hash != h2) { fprintf(stderr, "minimised run is not deterministic\n"); return 2; }
  int ops1 = 0; for (int t = 0; t <= p->nthreads; ++t) ops1 += p->nops[t];
  FILE* f = fopen(file, "w"); if (!f) { perror(file); return 2; }
  fprintf(f, "simreplay 1\n# found by seed %llu run %lld; minimised from %d ops, %d faults, %d context switches to %d, %d, %d in %d attempts\n",
          (unsigned long long)seed, index, ops0, f0, sw0, ops1, p->nfaults, p->nsw, attempts);
  write_plan(f, *p);
  fprintf(f, "class %s\nhash %016llx\nmessage %s\n", tr->cls, (unsigned long long)tr->hash, tr->msg);
  fclose(f);
  printf("minimised class=%s ops=%d faults=%d switches=%d attempts=%d: %s\n", tr->cls, ops1, p->nfaults, p->nsw, attempts, tr->msg);
  return 1;
}

static int replay(const char* file, bool quiet) {
  alloc_tables();
  Plan* p = priv<Plan>(); p->sw = priv<Switch>(MAXSW);
  char cls[64]; std::uint64_t hash;
  if (!read_plan(file, *p, cls, &hash)) { fprintf(stderr, "cannot read %s\n", file); return 2; }
  if (!p->refmode) {
    int rc = need_refs(*p);
    if (rc != 1) { printf("REPLAY reference class=%s %s\n", refResult->cls, refResult->msg); return rc == 2 ? 1 : 2; }
  }
  int rc = run_plan(*p, tr);
  if (rc == 0) { fprintf(stderr, "simulator error: %s\n", tr->msg); return 2; }
  if (rc == 1) { printf("REPLAY ok hash=%016llx steps=%llu\n", (unsigned long long)tr->hash, (unsigned long long)tr->steps); return 0; }
  bool same = !std::strcmp(tr->cls, cls) && (!hash || tr->hash == hash);
  printf("REPLAY violation class=%s hash=%016llx %s\n%s\n", tr->cls, (unsigned long long)tr->hash, same ? "exact" : "DIFFERS", tr->msg);
  (void)quiet;
  return same ? 1 : 3;
}

static int one(const char* prop, std::uint64_t seed, long long index) {
  alloc_tables();
  Plan* p = priv<Plan>(); p->sw = priv<Switch>(MAXSW);
  gen_plan(*p, prop, run_seed(seed, prop, index));
  int rc = need_refs(*p);
  if (rc != 1) { printf("reference: class=%s %s\n", refResult->cls, refResult->msg); write_plan(stdout, *refPlan); return 1; }
  draw_faults(*p);
  write_plan(stdout, *p);
  double t = now();
  rc = run_plan(*p, tr);
  printf("strategy %d/%u status %d class=%s msg=%s hash=%016llx steps=%llu switches=%llu blocked=%llu fired=%u,%u,%u,%u wall=%.4f\n", p->strategy, p->param, rc, tr->cls, tr->msg,
         (unsigned long long)tr->hash, (unsigned long long)tr->steps, (unsigned long long)tr->switches, (unsigned long long)tr->blocked, tr->fired[0], tr->fired[1], tr->fired[2], tr->fired[3], now() - t);
  for (int i = 0; i < MAXOPS; ++i) if (tr->opOutcome[i]) printf("  op %d outcome %d steps %u allocs %u nums %u calls %u\n", i, tr->opOutcome[i], tr->opSteps[i], tr->opAllocs[i], tr->opNums[i], tr->opCalls[i]);
  return rc == 1 ? 0 : rc == 2 ? 1 : 2;
}

} // namespace sim

int main(int argc, char** argv) {
  using namespace sim;
  init_process(argc, argv);
  auto opt = [&](const char* n, const char* d) -> const char* { for (int i = 2; i + 1 < argc; ++i) if (!strcmp(argv[i], n)) return argv[i + 1]; return d; };
  const char* mode = argc > 1 ? argv[1] : "";
  const char* prop = opt("--prop", "C01");
  std::uint64_t seed = strtoull(opt("--seed", "1"), nullptr, 10);
  if (strcmp(mode, "replay") && !known_property(prop)) { fprintf(stderr, "unknown property %s\n", prop); return 2; }
  if (!strcmp(mode, "batch")) return batch(prop, seed, atoll(opt("--from", "0")), atoll(opt("--to", "1000")), atoi(opt("--workers", "8")), atof(opt("--limit", "60")), opt("--out", nullptr), !strcmp(opt("--hashes", "0"), "1"));
  if (!strcmp(mode, "shrink")) return shrink(prop, seed, atoll(opt("--index", "0")), opt("--file", "/dev/null"), atof(opt("--secs", "60")));
  if (!strcmp(mode, "replay")) return replay(argc > 2 ? argv[2] : "", false);
  if (!strcmp(mode, "one")) return one(prop, seed, atoll(opt("--index", "0")));
  fprintf(stderr, "usage: simrun batch|shrink|replay|one ...\n");
  return 2;
}
