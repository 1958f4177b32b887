// The simulator runtime. Compiled WITHOUT instrumentation.
//
// Instrumented code (the library and the harness) reports every memory access
// and atomic operation through the thread-sanitizer callbacks defined at the
// end of this file; locks, once-flags, static guards and the allocator are
// replaced as well. Exactly one simulated thread runs at any time, and the
// choice of which one is made here, from the plan alone.
#include "sim.hh"

#include <cerrno>
#include <climits>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <initializer_list>
#include <new>
#include <link.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <unistd.h>

// The C library's own versions of what is wrapped for the instrumented code.
extern "C" {
std::size_t __real_strlen(const char*);
int __real_strcmp(const char*, const char*);
int __real_memcmp(const void*, const void*, std::size_t);
int __real_snprintf(char*, std::size_t, const char*, ...) __attribute__((format(printf, 3, 4)));
int __real_vsnprintf(char*, std::size_t, const char*, va_list);
}
#define strlen __real_strlen
#define strcmp __real_strcmp
#define memcmp __real_memcmp
#define snprintf __real_snprintf
#define vsnprintf __real_vsnprintf

namespace sim {

typedef std::uint64_t u64; typedef std::uint32_t u32; typedef std::uint8_t u8; typedef std::int16_t i16;

// ------------------------------------------------------------------ layout
static const u64 ARENA = 0x100000000000ull, ARENA_SZ = 2ull << 30;
static const u64 SHADOW = 0x110000000000ull;                 // 64 bytes per 8
static const u64 PCSHADOW = 0x118000000000ull;               // 64 bytes per 8
static const u64 BYTEMAP = 0x120000000000ull;                // 1 byte per 8
static const u64 BLOCKS = 0x130000000000ull;
static const u64 STACKS = 0x140000000000ull, STACK_SZ = 8ull << 20;
static const u64 TABLES = 0x150000000000ull;

static void* map_at(u64 addr, u64 size) {
  void* p = mmap((void*)addr, size, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void*)addr) { const char m[] = "sim: cannot map fixed region\n"; (void)!write(2, m, sizeof m - 1); _exit(99); }
  return p;
}

// ------------------------------------------------------------------ state
struct Blk { u64 addr, size; u32 seq; i16 uid; char kind; u8 live : 1, lib : 1, mark : 1, t : 4; };

struct Thread {
  int id;
  int paused;            // >0: harness bookkeeping
  bool inrt;
  int go;                // futex word
  int state;             // 0 runnable, 1 blocked, 2 finished
  const void* waitOn;
  u64 deadline; bool expired;   // timed waits, in simulated nanoseconds
  u32 opsteps, stopAt;
  int uid;
  int swpos;             // explicit schedules: next entry
  u32 allocs, nums, calls, firedOp;
  bool nofault; int quiet;
  int prio;
  u64 stkLo, stkHi;
  int opIndex;
};

static bool arenaReady = false;
static u64 arenaTop;
static u32 nblk;
static Blk* const blk = (Blk*)BLOCKS;
static u8* const bytemap = (u8*)BYTEMAP;

static __thread Thread* self __attribute__((tls_model("initial-exec")));
static Thread thr[MAXT];
static u32 VC[MAXT][MAXT];
static u32 fenceRel[MAXT][MAXT]; static bool fenceRelSet[MAXT];
static u32 acqPend[MAXT][MAXT];
static Plan* P;
static Result* R;
static bool simOn = false;       // between set-up and finish
static bool concurrent = false;  // worker threads are running
static u64 gsteps, ghash, schash;
static u64 countdown;            // steps to the next voluntary decision
static u64 runLength;
static Rng srng(1);
static u64 pctPoints[8]; static int npct, pctNext; static int lowPrio;
static bool diag = false;
static u64 dataLo, dataHi;
static pthread_key_t exitKey;
static u64 libLive, libBytes;
static const u64 STEP_CAP = 12000000ull;
static const int CPU_CAP = 15;        // seconds of processor time; runs need milliseconds

extern "C" char __data_start, _end, __executable_start, etext;

bool in_sim() { return self && !self->paused; }
int tid() { return self ? self->id : 0; }
void pause() { if (self) ++self->paused; }
void resume() { if (self) --self->paused; }
const Plan& plan() { return *P; }
Result& result() { return *R; }
void probe(int id) { if (R) ++R->probe[id]; }
void faults_off(bool off) { if (self) self->nofault = off; }
int fault_fired_in_op() { return self ? (int)self->firedOp : 0; }

// ------------------------------------------------------------------ violations
static void finish_result(int status) {
  R->hash = ghash; R->schedHash = schash; R->steps = gsteps;
  for (int i = 0; i < MAXT; ++i) R->curUid[i] = thr[i].uid;
  __atomic_store_n(&R->status, status, __ATOMIC_SEQ_CST);
}
void violate(const char* cls, const char* fmt, ...) {
  if (self) ++self->paused;
  if (!R) { char b[512]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    dprintf(2, "sim: violation outside a run: %s: %s\n", cls, b); _exit(98); }
  snprintf(R->cls, sizeof R->cls, "%s", cls);
  va_list ap; va_start(ap, fmt);
  vsnprintf(R->msg, sizeof R->msg, fmt, ap);
  va_end(ap);
  finish_result(2);
  _exit(3);
}

// ------------------------------------------------------------------ hashing
static inline void ev(u64 a, u64 b) {
  ghash = (ghash ^ (a * 0x9e3779b97f4a7c15ull + b)) * 0xff51afd7ed558ccdull;
  ghash ^= ghash >> 29;
}
void log_value(u64 v) { ev(0x77, v); }

// ------------------------------------------------------------------ baton
// the kernel itself, past the seam below
static long kernel(long n, long a, long b, long c, long d, long e, long f) {
  register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
  long r;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
static void fwait(int* w) {
  while (__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0)
    kernel(SYS_futex, (long)w, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
  __atomic_store_n(w, 0, __ATOMIC_RELEASE);
}
static void fwake(int* w) {
  __atomic_store_n(w, 1, __ATOMIC_RELEASE);
  kernel(SYS_futex, (long)w, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

// Simulated time: one microsecond per step, and a jump to the next deadline when every thread waits.
static u64 skipped;
static u64 sim_time() { return 1000000000000ull + gsteps * 1000 + skipped; }
static void sim_until(u64 when) { if (sim_time() < when) skipped += when - sim_time(); }
static int expire() {
  int k = -1;
  for (int i = 1; i <= P->nthreads; ++i)
    if (thr[i].state == 1 && thr[i].deadline && (k < 0 || thr[i].deadline < thr[k].deadline)) k = i;
  if (k >= 0) { sim_until(thr[k].deadline); thr[k].state = 0; thr[k].expired = true; ev(0xdead, k); }
  return k;
}
static int runnable_list(int* out, int except) {
  int n = 0;
  for (int i = 1; i <= P->nthreads; ++i) {
    if (thr[i].state == 1 && thr[i].deadline && sim_time() >= thr[i].deadline) { thr[i].state = 0; thr[i].expired = true; }
    if (i != except && thr[i].state == 0) out[n++] = i;
  }
  return n;
}

// a decision about the environment (early expiry, spurious wake-up) at this point of this operation
static bool chance(Thread* t, u64 salt, u64 n) {
  return concurrent && Rng(P->seed * 0x9e3779b97f4a7c15ull ^ ((u64)(t->uid + 16) << 40) ^ ((u64)t->opsteps << 8) ^ salt).next() % n == 0;
}

static void record_switch(Thread* t, int to, bool forced) {
  ++R->switches; if (!forced) ++R->preemptions;
  schash = (schash ^ (((u64)(t->uid & 0xffff) << 40) ^ ((u64)t->opsteps << 8) ^ ((u64)t->id << 4) ^ (u64)to)) * 0xc4ceb9fe1a85ec53ull;
  schash ^= schash >> 31;
  ev(0x51 + (u64)t->id * 256 + to, t->opsteps);
  if (R->nsw < MAXSW) { Switch& s = R->sw[R->nsw++]; s.uid = (i16)t->uid; s.from = t->id; s.to = to; s.step = t->opsteps; }
  else violate("simulator", "context-switch log full");
}

static u64 geom(u32 mean) {
  if (mean <= 1) return 1;
  double u = srng.unit();
  u64 k = 1 + (u64)(-__builtin_log(1.0 - u) * mean);
  return k;
}

// A run that has used half of its switch log only switches when a thread waits or after long stretches.
static const u64 QUANTUM = 20000;
static inline bool coarse() { return R->nsw > MAXSW / 2 && P->strategy != S_EXPLICIT; }

static void arm_countdown() {
  if (coarse()) { countdown = QUANTUM; return; }
  switch (P->strategy) {
    case S_RANDOM: countdown = geom(P->param); break;
    case S_LOCKSTEP: countdown = P->param ? P->param : 1; break;
    case S_PCT: countdown = pctNext < npct && pctPoints[pctNext] > gsteps ? pctPoints[pctNext] - gsteps : (pctNext < npct ? 1 : ~0ull); break;
    default: countdown = ~0ull;
  }
}

// next explicit entry for this thread in its current op
static void arm_explicit(Thread* t) {
  t->stopAt = ~0u;
  while (t->swpos < P->nsw) {
    const Switch& s = P->sw[t->swpos];
    if (s.from != t->id) { ++t->swpos; continue; }
    if (s.uid == t->uid) {
      if (s.step > t->opsteps) { t->stopAt = s.step; return; }
      ++t->swpos; continue;            // already passed
    }
    // an entry of another op: skip it if that op lies behind us (or is gone)
    int pos = -1;
    for (int i = 0; i < P->nops[t->id]; ++i) if (P->ops[t->id][i].uid == s.uid) pos = i;
    if (s.uid == -2) pos = P->nops[t->id];
    if (pos < 0 || pos < t->opIndex) { ++t->swpos; continue; }
    return;
  }
}

static int pick_next(Thread* t, bool forced) {
  int c[MAXT]; int n = runnable_list(c, t->id);
  if (n == 0) return t->state ? expire() : -1;
  switch (P->strategy) {
    case S_EXPLICIT: {
      // consume the entry for exactly this point, if there is one
      while (t->swpos < P->nsw) {
        const Switch& s = P->sw[t->swpos];
        if (s.from == t->id && s.uid == t->uid && s.step == t->opsteps) {
          ++t->swpos; arm_explicit(t);
          for (int i = 0; i < n; ++i) if (c[i] == s.to) return s.to;
          break;
        }
        break;
      }
      return forced ? c[0] : -1;
    }
    case S_PCT: {
      int best = -1;
      for (int i = 0; i < n; ++i) if (best < 0 || thr[c[i]].prio > thr[best].prio) best = c[i];
      if (!forced && thr[best].prio < t->prio) return -1;
      return best;
    }
    case S_LOCKSTEP: {
      for (int d = 1; d <= P->nthreads; ++d) {
        int k = (t->id - 1 + d) % P->nthreads + 1;
        for (int i = 0; i < n; ++i) if (c[i] == k) return k;
      }
      return c[0];
    }
    case S_SERIAL: return forced ? c[0] : -1;
    default: return c[srng.below(n)];
  }
}

static void switch_to(Thread* t, int next) {
  runLength = 0;
  arm_countdown();
  fwake(&thr[next].go);
  fwait(&t->go);
}

// voluntary scheduling decision
static void __attribute__((noinline)) decide(Thread* t, bool sync) {
  (void)sync;
  if (P->strategy == S_PCT && pctNext < npct && gsteps >= pctPoints[pctNext]) { ++pctNext; t->prio = --lowPrio; }
  if (runLength > 400000 && P->strategy != S_EXPLICIT) { if (P->strategy == S_PCT) t->prio = --lowPrio; }
  int next = -1;
  if (runLength > 400000 && P->strategy == S_SERIAL) { int c[MAXT]; int n = runnable_list(c, t->id); if (n) next = c[srng.below(n)]; }
  else next = pick_next(t, false);
  arm_countdown();
  if (P->strategy == S_EXPLICIT) arm_explicit(t);
  if (next < 0) { runLength = 0; return; }
  record_switch(t, next, false);
  switch_to(t, next);
}

static inline void step(Thread* t, u64 kind, u64 info) {
  ++t->opsteps; ++gsteps;
  ev(kind ^ ((u64)t->id << 56), info);
  if (!concurrent) {
    if (gsteps > STEP_CAP) violate("livelock", "no end after %llu steps outside the concurrent phase", (unsigned long long)gsteps);
    return;
  }
  ++runLength;
  if (--countdown == 0 || t->opsteps == t->stopAt || runLength > 400000) decide(t, false);
  if (gsteps > STEP_CAP) violate("livelock", "requests did not complete within %llu steps", (unsigned long long)STEP_CAP);
}

static inline void sync_step(Thread* t, u64 kind, u64 info) {
  ++R->syncops;
  step(t, kind, info);
  if (!concurrent) return;
  ++t->opsteps;                 // the decision point after a synchronisation has a step number of its own
  if (coarse()) return;
  bool d = false;
  switch (P->strategy) {
    case S_SYNC: d = srng.below(100) < P->param; break;
    case S_RANDOM: d = srng.below(8) == 0; break;
    case S_PCT: for (int i = 1; i <= P->nthreads; ++i) if (i != t->id && thr[i].state == 0 && thr[i].prio > t->prio) d = true; break;
    case S_EXPLICIT: d = t->opsteps == t->stopAt; break;
    default: break;
  }
  if (d) decide(t, true);
}

static void describe_deadlock(char* b, size_t n) {
  size_t o = 0;
  for (int i = 1; i <= P->nthreads; ++i)
    o += snprintf(b + o, n - o, " T%d:%s(op %d)", i, thr[i].state == 2 ? "done" : thr[i].state == 1 ? "waiting" : "ready", thr[i].uid);
}

// returns true if the deadline passed before the thread was woken
static bool block(Thread* t, const void* obj, u64 deadline = 0) {
  ++t->opsteps; ++gsteps; ++R->blocked;
  ev(0xb10c, t->id);
  if (gsteps > STEP_CAP) violate("livelock", "requests did not complete within %llu steps", (unsigned long long)STEP_CAP);
  if (!concurrent && deadline) { sim_until(deadline); return true; }
  if (!concurrent) violate("deadlock", "a thread waits for something only it could finish (op %d)", t->uid);
  t->state = 1; t->waitOn = obj; t->deadline = deadline; t->expired = false;
  int next = pick_next(t, true);
  if (next < 0) {
    char b[400]; describe_deadlock(b, sizeof b);
    violate("deadlock", "no thread can proceed:%s", b);
  }
  if (P->strategy == S_EXPLICIT) arm_explicit(t);
  if (next != t->id) {
    record_switch(t, next, true);
    switch_to(t, next);
  }
  t->waitOn = nullptr; t->deadline = 0;
  return t->expired;
}
static void wake_all(const void* obj) {
  for (int i = 1; i < MAXT; ++i) if (thr[i].state == 1 && thr[i].waitOn == obj) thr[i].state = 0;
}
static bool wake_one(const void* obj) {
  for (int i = 1; i < MAXT; ++i) if (thr[i].state == 1 && thr[i].waitOn == obj) { thr[i].state = 0; return true; }
  return false;
}
void yield_point() { if (in_sim()) step(self, 0x41, 0); }

// ------------------------------------------------------------------ happens-before
static inline void vjoin(u32* a, const u32* b) { for (int i = 0; i < MAXT; ++i) if (b[i] > a[i]) a[i] = b[i]; }

struct Sync { u64 key; u32 clk[MAXT]; int owner; int count; int readers; u32 seq; };
static const u32 NSYNC = 1 << 16;
static Sync* const syncs = (Sync*)TABLES;
static Sync* get_sync(const void* p) {
  u64 k = (u64)p; u32 h = (u32)((k * 0x9e3779b97f4a7c15ull) >> 40) & (NSYNC - 1);
  for (u32 n = 0; n < NSYNC; ++n, h = (h + 1) & (NSYNC - 1)) {
    if (syncs[h].key == k) return &syncs[h];
    if (!syncs[h].key) { syncs[h].key = k; return &syncs[h]; }
  }
  violate("simulator", "synchronisation table full");
}
static inline void release(Thread* t, Sync* s) { vjoin(s->clk, VC[t->id]); ++VC[t->id][t->id]; }
static inline void acquire(Thread* t, Sync* s) { vjoin(VC[t->id], s->clk); }
static u64 userTok[256];
void user_release(int slot) { Thread* t = self; if (t && simOn) release(t, get_sync(&userTok[slot & 255])); }
void user_acquire(int slot) { Thread* t = self; if (t && simOn) acquire(t, get_sync(&userTok[slot & 255])); }

// internal locks of the C and C++ runtimes order their own data only
static inline bool from_program(void* ra) { return (u64)ra >= (u64)&__executable_start && (u64)ra < (u64)&etext; }

struct Cell { u32 w[MAXT], r[MAXT]; u8 wm[MAXT], rm[MAXT]; u8 watom, ratom; u8 pad[2]; };
static_assert(sizeof(Cell) == 64, "cell");
struct GCell { u64 key; Cell c; u64 pad[7]; };
static const u32 NG = 1 << 15;
static GCell* const gcells = (GCell*)(TABLES + 0x10000000ull);
static Cell* global_cell(u64 g) {
  u32 h = (u32)((g * 0x9e3779b97f4a7c15ull) >> 42) & (NG - 1);
  for (u32 n = 0; n < NG; ++n, h = (h + 1) & (NG - 1)) {
    if (gcells[h].key == g) return &gcells[h].c;
    if (!gcells[h].key) { gcells[h].key = g; return &gcells[h].c; }
  }
  violate("simulator", "global shadow full");
}

static inline bool in_arena(u64 a) { return a - ARENA < ARENA_SZ; }

static Blk* find_block(u64 a) {
  // blocks are in address order
  u32 lo = 0, hi = nblk;
  while (lo < hi) { u32 m = (lo + hi) / 2; if (blk[m].addr <= a) lo = m + 1; else hi = m; }
  return lo ? &blk[lo - 1] : nullptr;
}

static void __attribute__((noinline)) bad_access(u64 a, u64 n, bool w, void* pc) {
  Blk* b = find_block(a);
  const char* what = "outside any allocation";
  if (b && a >= b->addr && a < b->addr + b->size && !b->live) what = "in released memory";
  else if (b && b->live) what = "past the end of an allocation";
  violate("memory", "%s of %llu bytes %s (block of %llu bytes from op %d, offset %lld) at pc %p in op %d of T%d",
          w ? "write" : "read", (unsigned long long)n, what, b ? (unsigned long long)b->size : 0ull, b ? b->uid : -9,
          b ? (long long)(a - b->addr) : 0ll, pc, self ? self->uid : -9, tid());
}
static inline bool heap_ok(u64 a, u64 n) {
  // every byte valid?
  u64 g = (a - ARENA) >> 3, ge = (a + n - 1 - ARENA) >> 3;
  for (u64 i = g; i <= ge; ++i) {
    u8 v = bytemap[i];
    if (v == 8) continue;
    if (v == 0 || v > 8) return false;
    u64 base = ARENA + (i << 3);
    u64 endInCell = a + n - base; if (endInCell > 8) endInCell = 8;
    if (endInCell > v) return false;
  }
  return true;
}

static void __attribute__((noinline)) race(Thread* t, u64 a, bool w, int u, bool uw, void* pc, u64 g, bool arena) {
  u32* pcs = arena ? (u32*)(PCSHADOW + ((g * 8 - ARENA) >> 3) * 64) : nullptr;
  u32 opc = diag && pcs ? pcs[(uw ? 0 : MAXT) + u] : 0;
  Blk* b = arena ? find_block(a) : nullptr;
  violate("race", "%s at pc %p by T%d (op %d) races with an unordered %s by T%d%s%x [%s]", w ? "write" : "read", pc, t->id, t->uid,
          uw ? "write" : "read", u, opc ? " at pc 0x" : " ", opc,
          arena ? (b && !b->live ? "released memory" : "heap") : "static storage");
}

static inline void check_cell(Thread* t, Cell* c, u8 m, bool w, bool atomic, u64 a, void* pc, u64 g, bool arena) {
  const int id = t->id; const u32* v = VC[id];
  for (int u = 0; u < MAXT; ++u) {
    if (u == id) continue;
    if ((c->wm[u] & m) && c->w[u] > v[u] && !(atomic && (c->watom >> u & 1))) race(t, a, w, u, true, pc, g, arena);
    if (w && (c->rm[u] & m) && c->r[u] > v[u] && !(atomic && (c->ratom >> u & 1))) race(t, a, w, u, false, pc, g, arena);
  }
  const u32 now = v[id];
  if (w) {
    if (c->w[id] == now && c->wm[id]) { c->wm[id] |= m; if (!atomic) c->watom &= ~(1 << id); }
    else { c->w[id] = now; c->wm[id] = m; if (atomic) c->watom |= 1 << id; else c->watom &= ~(1 << id); }
  } else {
    if (c->r[id] == now && c->rm[id]) { c->rm[id] |= m; if (!atomic) c->ratom &= ~(1 << id); }
    else { c->r[id] = now; c->rm[id] = m; if (atomic) c->ratom |= 1 << id; else c->ratom &= ~(1 << id); }
  }
  if (diag && arena) { u32* pcs = (u32*)(PCSHADOW + ((g * 8 - ARENA) >> 3) * 64); pcs[(w ? 0 : MAXT) + id] = (u32)(u64)pc; }
}

static inline void race_range(Thread* t, u64 a, u64 n, bool w, bool atomic, void* pc) {
  bool arena = in_arena(a);
  u64 g = a >> 3, ge = (a + n - 1) >> 3;
  for (u64 i = g; i <= ge; ++i) {
    u8 m = 0xff;
    if (i == g) m &= (u8)(0xff << (a & 7));
    if (i == ge) { unsigned e = (a + n - 1) & 7; m &= (u8)(0xff >> (7 - e)); }
    Cell* c = arena ? (Cell*)(SHADOW + (((i << 3) - ARENA) >> 3) * 64) : global_cell(i);
    check_cell(t, c, m, w, atomic, a, pc, i, arena);
  }
}

static inline bool tracked(Thread* t, u64 a) {
  if (in_arena(a)) return true;
  if (a >= dataLo && a < dataHi) return true;
  if (a - STACKS < STACK_SZ * MAXT && !(a >= t->stkLo && a < t->stkHi)) return true;   // another thread's stack
  return false;
}

static inline void access(const void* p, u64 n, bool w, void* pc) {
  Thread* t = self;
  if (!t || t->paused || n == 0) return;
  u64 a = (u64)p;
  if (!tracked(t, a)) return;
  ++R->accesses;
  step(t, w ? 2 : 1, (a - (in_arena(a) ? ARENA : 0)) * 32 + n);
  if (in_arena(a) && !heap_ok(a, n)) bad_access(a, n, w, pc);
  if (concurrent) race_range(t, a, n, w, false, pc);
}

// ------------------------------------------------------------------ heap
static void arena_init() {
  map_at(ARENA, ARENA_SZ); map_at(BYTEMAP, ARENA_SZ / 8); map_at(BLOCKS, (u64)sizeof(Blk) << 24);
  arenaTop = ARENA + 64; nblk = 0; arenaReady = true;
}

static void* raw_alloc(u64 size, u64 align, char kind) {
  if (!arenaReady) arena_init();
  if (align < 16) align = 16;
  u64 p = (arenaTop + 32 + align - 1) & ~(align - 1);
  u64 end = p + size;
  if (size > ARENA_SZ || end + 64 > ARENA + ARENA_SZ) return nullptr;
  arenaTop = (end + 15) & ~15ull;
  u32 id = nblk++;
  Blk& b = blk[id];
  b.addr = p; b.size = size; b.kind = kind; b.live = 1; b.mark = 0; b.seq = id;
  bool lib = self && !self->paused && simOn;
  b.lib = lib; b.uid = self ? (i16)self->uid : -9; b.t = self ? self->id : 0;
  if (lib) { ++libLive; libBytes += size; }
  *(u32*)(p - 8) = id; *(u32*)(p - 4) = 0x51a110c8u;
  u64 g = (p - ARENA) >> 3, full = size >> 3;
  memset(bytemap + g, 8, full);
  if (size & 7) bytemap[g + full] = size & 7;
  if (kind != 'm') memset((void*)p, 0xcb, size);   // nobody may rely on fresh memory being zero
  return (void*)p;
}

static void raw_free(void* q, char kind, u64 sized, void* pc) {
  if (!q) return;
  u64 p = (u64)q;
  bool active = self && !self->paused;
  if (!in_arena(p)) {                // memory of the dynamic loader
    if (active && kind != 'm') violate("memory", "release of memory that is not from the heap (pc %p, op %d)", pc, self->uid);
    return;
  }
  if (*(u32*)(p - 4) != 0x51a110c8u || *(u32*)(p - 8) >= nblk || blk[*(u32*)(p - 8)].addr != p)
    violate("memory", "release of an address that was never allocated (pc %p, op %d)", pc, self ? self->uid : -9);
  Blk& b = blk[*(u32*)(p - 8)];
  if (!b.live) violate("memory", "memory released twice (block of %llu bytes from op %d, pc %p, op %d of T%d)",
                       (unsigned long long)b.size, b.uid, pc, self ? self->uid : -9, tid());
  if (b.kind != kind) violate("memory", "memory obtained with '%c' released with '%c' (pc %p)", b.kind, kind, pc);
  if (sized != ~0ull && sized != b.size) violate("memory", "sized release with wrong size (%llu, allocated %llu, pc %p)",
                       (unsigned long long)sized, (unsigned long long)b.size, pc);
  if (active) {
    step(self, 5, p - ARENA);
    if (concurrent && b.size) race_range(self, p, b.size, true, false, pc);
  }
  b.live = 0;
  if (b.lib) { --libLive; libBytes -= b.size; }
  u64 g = (p - ARENA) >> 3;
  memset(bytemap + g, 0xfd, (b.size + 7) >> 3);
}

static bool fault_here(Thread* t, int kind, u32 count) {
  if (t->nofault) return false;
  for (int i = 0; i < P->nfaults; ++i) {
    const Fault& f = P->faults[i];
    if (f.uid != t->uid || f.kind != kind) continue;
    if (count == f.k || (f.sticky && count > f.k)) {
      ++R->fired[kind];
      if (kind != F_REENTER) { ++t->firedOp; if (t->uid >= 0 && t->uid < MAXOPS) R->opFired[t->uid] = 1; }
      ev(0xfa17 + kind, count);
      return true;
    }
  }
  return false;
}
int num_point() {
  Thread* t = self; if (!t || t->paused) return 0;
  step(t, 0x42, 0);
  if (t->quiet) return 0;
  ++t->nums;
  if (fault_here(t, F_NUM, t->nums)) return 1000 * (1 + t->nums % 8) + t->uid;
  return fault_here(t, F_REENTER, t->nums + t->calls) ? -1 : 0;
}
int call_point() {
  Thread* t = self; if (!t || t->paused) return 0;
  sync_step(t, 0x43, 0);
  if (t->quiet) return 0;
  ++t->calls;
  if (fault_here(t, F_CALL, t->calls)) return 1000 * (1 + t->calls % 8) + t->uid;
  return fault_here(t, F_REENTER, t->nums + t->calls) ? -1 - (int)(t->calls % 64) : 0;
}

static void* lib_alloc(u64 size, u64 align, char kind, bool nothrow) {
  Thread* t = self;
  if (t && !t->paused) {
    ++R->allocs;
    sync_step(t, 4, size);
    if (!t->quiet && (++t->allocs, true) && fault_here(t, F_ALLOC, t->allocs)) { if (nothrow) return nullptr; throw std::bad_alloc(); }
  }
  void* p = raw_alloc(size, align, kind);
  if (!p && !nothrow) throw std::bad_alloc();
  return p;
}
HeapMark heap_live() { return HeapMark{libLive, libBytes}; }
bool heap_is_live(const void* p) { Blk* b = find_block((u64)p); return b && b->live && (u64)p < b->addr + b->size; }

// ------------------------------------------------------------------ leaks: conservative reachability
static u32 markq_n; static u32* const markq = (u32*)(TABLES + 0x20000000ull);
static void mark_word(u64 v) {
  if (!in_arena(v)) return;
  Blk* b = find_block(v);
  if (!b || !b->live || b->mark || v > b->addr + b->size) return;
  b->mark = 1; markq[markq_n++] = (u32)(b - blk);
}
static void mark_range(u64 lo, u64 hi) {
  lo = (lo + 7) & ~7ull;
  for (u64 a = lo; a + 8 <= hi; a += 8) mark_word(*(u64*)a);
}
static void leak_check() __attribute__((noinline));
static void leak_check() {
  bool any = false;
  for (u32 i = 0; i < nblk; ++i) { blk[i].mark = 0; if (blk[i].live && blk[i].lib) any = true; }
  if (!any) return;
  markq_n = 0;
  // roots: every writable mapping that is not part of the simulator
  int fd = (int)kernel(SYS_open, (long)"/proc/self/maps", 0, 0, 0, 0, 0);
  static char buf[1 << 16]; size_t n = 0; ssize_t k;
  while (n < sizeof buf - 1 && (k = read(fd, buf + n, sizeof buf - 1 - n)) > 0) n += k;
  close(fd); buf[n] = 0;
  u64 sp = (u64)__builtin_frame_address(0);
  for (char* l = buf; *l;) {
    char* e = strchr(l, '\n'); if (!e) break; *e = 0;
    unsigned long long lo, hi; char pr[8];
    if (sscanf(l, "%llx-%llx %7s", &lo, &hi, pr) == 3 && pr[0] == 'r' && pr[1] == 'w' && pr[3] == 'p') {
      bool own = lo >= ARENA && lo < 0x170000000000ull;   // simulator and driver tables
      if (!own && hi - lo < (64ull << 20)) {
        if (sp >= lo && sp < hi) lo = sp;            // live part of the main stack
        mark_range(lo, hi);
      }
    }
    l = e + 1;
  }
  for (u32 q = 0; q < markq_n; ++q) { Blk& b = blk[markq[q]]; mark_range(b.addr, b.addr + b.size); }
  u64 cnt = 0, bytes = 0; int uid = -9; u64 first = 0;
  for (u32 i = 0; i < nblk; ++i)
    if (blk[i].live && blk[i].lib && !blk[i].mark) { if (!cnt) { uid = blk[i].uid; first = blk[i].size; } ++cnt; bytes += blk[i].size; }
  if (cnt) violate("leak", "%llu blocks (%llu bytes) allocated by the library are unreachable; first: %llu bytes from op %d",
                   (unsigned long long)cnt, (unsigned long long)bytes, (unsigned long long)first, uid);
}

// ------------------------------------------------------------------ threads
static void begin_op(Thread* t, int uid, int index) {
  t->uid = uid; t->opIndex = index; t->opsteps = 0; t->allocs = t->nums = t->calls = 0; t->firedOp = 0;
  if (P->strategy == S_EXPLICIT && concurrent) arm_explicit(t);
  ev(0x0b, uid);
}
static void end_op(Thread* t) {
  if (t->uid >= 0 && t->uid < MAXOPS) {
    R->opAllocs[t->uid] = t->allocs; R->opNums[t->uid] = t->nums; R->opCalls[t->uid] = t->calls; R->opSteps[t->uid] = t->opsteps;
  }
}

static void thread_exit_hook(void* v) {
  Thread* t = (Thread*)v;
  ++t->paused;
  t->state = 2;
  ++t->opsteps;
  ev(0xe0, t->id);
  vjoin(VC[0], VC[t->id]);
  if (P->strategy == S_EXPLICIT) { /* exit entries are looked up below */ }
  int next = pick_next(t, true);
  if (next < 0) {
    for (int i = 1; i <= P->nthreads; ++i)
      if (thr[i].state == 1) { char b[400]; describe_deadlock(b, sizeof b); violate("deadlock", "a waiting thread is never woken:%s", b); }
    concurrent = false;
    fwake(&thr[0].go);
    return;
  }
  record_switch(t, next, true);
  runLength = 0; arm_countdown();
  fwake(&thr[next].go);
}

static void* thread_main(void* v) {
  Thread* t = (Thread*)v;
  self = t;
  fwait(&t->go);
  pthread_setspecific(exitKey, t);
  for (int i = 0; i < P->nops[t->id]; ++i) {
    const Op& op = P->ops[t->id][i];
    begin_op(t, op.uid, i);
    step(t, 0x40, op.kind);
    harness_run_op(op, false);
    end_op(t);
  }
  begin_op(t, -2, P->nops[t->id]);
  --t->paused;            // destructors of thread-local objects run as library code
  return nullptr;
}

[[noreturn]] static void on_terminate() {
  const char* w = "";
  char b[300] = "";
  if (std::exception_ptr e = std::current_exception()) {
    try { std::rethrow_exception(e); } catch (const std::exception& x) { snprintf(b, sizeof b, "%s", x.what()); w = b; } catch (...) { w = "unknown exception"; }
  }
  violate("terminate", "std::terminate in op %d of T%d (%s)", self ? self->uid : -9, tid(), w);
}
static void on_signal(int sig, siginfo_t* si, void*) {
  if (sig == SIGXCPU) { ghash = 0x4a46; schash = 0; gsteps = 0; violate("hang", "the run does not end (%d s of processor time used)", CPU_CAP); }
  violate("crash", "signal %d (address %p) in op %d of T%d", sig, si ? si->si_addr : nullptr, self ? self->uid : -9, tid());
}

void init_process(int, char** argv) {
  bool redo = false;
  if (!getenv("OPENBLAS_NUM_THREADS")) { setenv("OPENBLAS_NUM_THREADS", "1", 1); redo = true; }
  int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOASLR")) {
    if (personality(pers | ADDR_NO_RANDOMIZE) != -1) { setenv("SIM_NOASLR", "1", 1); redo = true; }
  }
  if (redo) { execv("/proc/self/exe", argv); }
  diag = getenv("SIM_DIAG") != nullptr;
}

void execute(const Plan& plan, Result* res) {
  static Plan planCopy;       // stable address
  planCopy = plan; P = &planCopy; R = res;
  map_at(SHADOW, ARENA_SZ * 8); if (diag) map_at(PCSHADOW, ARENA_SZ * 8);
  map_at(TABLES, 0x40000000ull);
  map_at(STACKS, STACK_SZ * MAXT);
  dataLo = (u64)&__data_start; dataHi = (u64)&_end;
  std::set_terminate(on_terminate);
  static char alt[1 << 16]; stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGXCPU}) {
    struct sigaction sa{}; sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK; sigaction(s, &sa, nullptr);
  }
  rlimit rl{(rlim_t)CPU_CAP, (rlim_t)CPU_CAP + 4}; setrlimit(RLIMIT_CPU, &rl);
  rlimit rc{0, 0}; setrlimit(RLIMIT_CORE, &rc);

  memset(thr, 0, sizeof thr);
  for (int i = 0; i < MAXT; ++i) { thr[i].id = i; thr[i].paused = 1; thr[i].uid = -1; thr[i].stopAt = ~0u; thr[i].state = i ? 2 : 0; VC[i][i] = 1; }
  srng = Rng(P->schedSeed);
  ghash = 0x1234; schash = 0x4321; gsteps = 0; countdown = ~0ull; runLength = 0;
  self = &thr[0];
  // same addresses whatever the parent allocated before
  if (!arenaReady) arena_init();
  if (arenaTop > ARENA + (64ull << 20)) violate("simulator", "parent used too much memory");
  arenaTop = ARENA + (64ull << 20);
  simOn = true;
  harness_setup();
  for (int i = 0; i < P->nops[0]; ++i) {
    begin_op(self, P->ops[0][i].uid, i);
    harness_run_op(P->ops[0][i], false);
    end_op(self);
  }
  if (P->nthreads > 0) {
    pthread_key_create(&exitKey, thread_exit_hook);
    ++VC[0][0];
    pthread_t h[MAXT];
    if (P->strategy == S_PCT) {
      for (int i = 1; i <= P->nthreads; ++i) thr[i].prio = 1000 + (int)srng.below(1000) * 8 + i;
      npct = P->param > 8 ? 8 : P->param; pctNext = 0; lowPrio = 1000;
      for (int i = 0; i < npct; ++i) pctPoints[i] = gsteps + 1 + srng.below(P->estSteps ? P->estSteps : 1);
      for (int i = 0; i < npct; ++i) for (int j = i + 1; j < npct; ++j) if (pctPoints[j] < pctPoints[i]) { u64 x = pctPoints[i]; pctPoints[i] = pctPoints[j]; pctPoints[j] = x; }
    }
    for (int i = 1; i <= P->nthreads; ++i) {
      thr[i].state = 0;
      thr[i].stkLo = STACKS + STACK_SZ * i; thr[i].stkHi = thr[i].stkLo + STACK_SZ;
      memcpy(VC[i], VC[0], sizeof VC[0]); VC[i][0] = VC[0][0] - 1; VC[i][i] = 1;
      pthread_attr_t at; pthread_attr_init(&at);
      pthread_attr_setstack(&at, (void*)thr[i].stkLo, STACK_SZ);
      if (pthread_create(&h[i], &at, thread_main, &thr[i])) violate("simulator", "pthread_create failed");
      pthread_attr_destroy(&at);
    }
    concurrent = true;
    int first;
    if (P->strategy == S_EXPLICIT) {
      first = 1;
      if (P->nsw > 0 && P->sw[0].uid == -3) { first = P->sw[0].to; if (first < 1 || first > P->nthreads) first = 1; }
      for (int i = 1; i <= P->nthreads; ++i) thr[i].swpos = 0;
    } else if (P->strategy == S_SERIAL) first = 1;
    else if (P->strategy == S_PCT) { first = 1; for (int i = 2; i <= P->nthreads; ++i) if (thr[i].prio > thr[first].prio) first = i; }
    else first = 1 + (int)srng.below(P->nthreads);
    { Switch& s = R->sw[R->nsw++]; s.uid = -3; s.from = 0; s.to = first; s.step = 0; }
    schash ^= first * 0x9e37ull;
    arm_countdown();
    fwake(&thr[first].go);
    fwait(&thr[0].go);
    concurrent = false;
    for (int i = 1; i <= P->nthreads; ++i) pthread_join(h[i], nullptr);
  }
  self->paused = 1;
  begin_op(self, -4, 0);
  harness_recover();
  begin_op(self, -5, 0);
  harness_finish();
  if (cares_about_leaks()) leak_check();
  if (P->shutdown) {
    begin_op(self, -6, 0);
    // static destructors, as library code; finish in a handler registered first
    self->paused = 0;
    exit(0);          // see shutdown_done
  }
  finish_result(1);
  _exit(0);
}

// registered before main, hence run after every destructor registered later
static void shutdown_done() {
  if (!R || !P || !simOn) return;
  if (self) self->paused = 1;
  finish_result(1);
  _exit(0);
}
__attribute__((constructor(101))) static void early() { atexit(shutdown_done); }

} // namespace sim

using namespace sim;

// ------------------------------------------------------------------ allocation functions
#define RA __builtin_return_address(0)
void sim_quiet_enter() { if (self) ++self->quiet; }
void sim_quiet_leave() { if (self) --self->quiet; }
void* operator new(std::size_t n) { return lib_alloc(n, 16, 'n', false); }
void* operator new[](std::size_t n) { return lib_alloc(n, 16, 'a', false); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return lib_alloc(n, 16, 'n', true); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return lib_alloc(n, 16, 'a', true); }
void* operator new(std::size_t n, std::align_val_t a) { return lib_alloc(n, (std::size_t)a, 'n', false); }
void* operator new[](std::size_t n, std::align_val_t a) { return lib_alloc(n, (std::size_t)a, 'a', false); }
void* operator new(std::size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return lib_alloc(n, (std::size_t)a, 'n', true); }
void* operator new[](std::size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return lib_alloc(n, (std::size_t)a, 'a', true); }
void operator delete(void* p) noexcept { raw_free(p, 'n', ~0ull, RA); }
void operator delete[](void* p) noexcept { raw_free(p, 'a', ~0ull, RA); }
void operator delete(void* p, std::size_t n) noexcept { raw_free(p, 'n', n, RA); }
void operator delete[](void* p, std::size_t) noexcept { raw_free(p, 'a', ~0ull, RA); }
void operator delete(void* p, const std::nothrow_t&) noexcept { raw_free(p, 'n', ~0ull, RA); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { raw_free(p, 'a', ~0ull, RA); }
void operator delete(void* p, std::align_val_t) noexcept { raw_free(p, 'n', ~0ull, RA); }
void operator delete[](void* p, std::align_val_t) noexcept { raw_free(p, 'a', ~0ull, RA); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { raw_free(p, 'n', ~0ull, RA); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { raw_free(p, 'a', ~0ull, RA); }

#define SIM_NAME(real) __asm__(#real)
#define EXPORT extern "C" __attribute__((visibility("default"), used))

EXPORT void* sim_malloc(std::size_t) SIM_NAME(malloc);
EXPORT void sim_free(void*) SIM_NAME(free);
EXPORT void* sim_calloc(std::size_t, std::size_t) SIM_NAME(calloc);
EXPORT void* sim_realloc(void*, std::size_t) SIM_NAME(realloc);
EXPORT void* sim_memalign(std::size_t, std::size_t) SIM_NAME(memalign);
EXPORT void* sim_aligned_alloc(std::size_t, std::size_t) SIM_NAME(aligned_alloc);
EXPORT int sim_posix_memalign(void**, std::size_t, std::size_t) SIM_NAME(posix_memalign);
EXPORT std::size_t sim_usable(void*) SIM_NAME(malloc_usable_size);
EXPORT void sim_free(void* p) { if (!arenaReady) return; raw_free(p, 'm', ~0ull, RA); }
// malloc is used by the language runtime (exception objects); it does not fail here
static void* c_alloc(std::size_t n, std::size_t al) {
  void* p = raw_alloc(n, al, 'm');
  if (!p) errno = ENOMEM;
  else { Blk& b = blk[*(u32*)((u64)p - 8)]; if (b.lib) { b.lib = 0; --libLive; libBytes -= b.size; } }
  return p;
}
EXPORT void* sim_malloc(std::size_t n) { return c_alloc(n, 16); }
EXPORT void* sim_calloc(std::size_t a, std::size_t b) { return c_alloc(a * b, 16); }   // arena pages are zero and never reused
EXPORT void* sim_realloc(void* p, std::size_t n) {
  void* q = c_alloc(n, 16);
  if (p && q && in_arena((u64)p)) { u64 o = blk[*(u32*)((u64)p - 8)].size; memcpy(q, p, o < n ? o : n); raw_free(p, 'm', ~0ull, RA); }
  return q;
}
EXPORT void* sim_memalign(std::size_t a, std::size_t n) { return c_alloc(n, a); }
EXPORT void* sim_aligned_alloc(std::size_t a, std::size_t n) { return c_alloc(n, a); }
EXPORT int sim_posix_memalign(void** r, std::size_t a, std::size_t n) { *r = c_alloc(n, a); return *r ? 0 : ENOMEM; }
EXPORT std::size_t sim_usable(void* p) { return p && in_arena((u64)p) ? blk[*(u32*)((u64)p - 8)].size : 0; }

// ------------------------------------------------------------------ assertions
EXPORT [[noreturn]] void sim_assert_fail(const char*, const char*, unsigned, const char*) SIM_NAME(__assert_fail);
EXPORT void sim_assert_fail(const char* e, const char* f, unsigned l, const char* fn) {
  const char* s = strrchr(f, '/');
  violate("assert", "assertion '%s' failed at %s:%u (%s) in op %d", e, s ? s + 1 : f, l, fn ? fn : "", self ? self->uid : -9);
}
EXPORT [[noreturn]] void sim_pure() SIM_NAME(__cxa_pure_virtual);
EXPORT void sim_pure() { violate("crash", "pure virtual call in op %d", self ? self->uid : -9); }

// ------------------------------------------------------------------ locks
#define ACTIVE (self && simOn && !self->paused)
static bool too_late(Thread* t, u64 until) {
  if (until && chance(t, 2, 4)) sim_until(until);
  if (!until || sim_time() < until) return false;
  probe(22); return true;
}
static int lock_impl(void* m, bool recursiveOk, bool tryOnly, void* ra, u64 until = 0) {
  if (!ACTIVE) return 0;
  Thread* t = self; sync_step(t, 0x10, 0);
  Sync* s = get_sync(m);
  while (s->owner && s->owner != t->id + 1) {
    if (tryOnly) return EBUSY;
    if (too_late(t, until)) return ETIMEDOUT;
    block(t, m, until);
  }
  if (s->owner == t->id + 1) {
    if (!recursiveOk) { if (tryOnly) return EBUSY; violate("deadlock", "a thread locks a mutex it already holds (op %d)", t->uid); }
    ++s->count; return 0;
  }
  s->owner = t->id + 1; s->count = 1;
  if (from_program(ra)) acquire(t, s);
  return 0;
}
static int unlock_impl(void* m, void* ra) {
  if (!ACTIVE) return 0;
  Thread* t = self; Sync* s = get_sync(m);
  if (s->owner != t->id + 1) { if (from_program(ra)) violate("memory", "unlock of a mutex not held (op %d)", t->uid); return 0; }
  if (--s->count == 0) { if (from_program(ra)) release(t, s); s->owner = 0; wake_all(m); }
  sync_step(t, 0x11, 0);
  return 0;
}
EXPORT int sim_mlock(pthread_mutex_t*) SIM_NAME(pthread_mutex_lock);
EXPORT int sim_mtrylock(pthread_mutex_t*) SIM_NAME(pthread_mutex_trylock);
EXPORT int sim_mtimedlock(pthread_mutex_t*, const timespec*) SIM_NAME(pthread_mutex_timedlock);
EXPORT int sim_mclocklock(pthread_mutex_t*, int, const timespec*) SIM_NAME(pthread_mutex_clocklock);
EXPORT int sim_munlock(pthread_mutex_t*) SIM_NAME(pthread_mutex_unlock);
static bool rec(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }
EXPORT int sim_mlock(pthread_mutex_t* m) { return lock_impl(m, rec(m), false, RA); }
EXPORT int sim_mtrylock(pthread_mutex_t* m) { return lock_impl(m, rec(m), true, RA); }
static u64 nanos(const timespec* ts) { return ts ? (u64)ts->tv_sec * 1000000000ull + (u64)ts->tv_nsec + 1 : 1; }
EXPORT int sim_mtimedlock(pthread_mutex_t* m, const timespec* ts) { return lock_impl(m, rec(m), false, RA, nanos(ts)); }
EXPORT int sim_mclocklock(pthread_mutex_t* m, int, const timespec* ts) { return lock_impl(m, rec(m), false, RA, nanos(ts)); }
EXPORT int sim_munlock(pthread_mutex_t* m) { return unlock_impl(m, RA); }
EXPORT int sim_slock(pthread_spinlock_t*) SIM_NAME(pthread_spin_lock);
EXPORT int sim_strylock(pthread_spinlock_t*) SIM_NAME(pthread_spin_trylock);
EXPORT int sim_sunlock(pthread_spinlock_t*) SIM_NAME(pthread_spin_unlock);
EXPORT int sim_slock(pthread_spinlock_t* m) { return lock_impl((void*)m, false, false, RA); }
EXPORT int sim_strylock(pthread_spinlock_t* m) { return lock_impl((void*)m, false, true, RA); }
EXPORT int sim_sunlock(pthread_spinlock_t* m) { return unlock_impl((void*)m, RA); }

// reader/writer locks: readers tracked as a bit mask
static int rd_impl(void* m, bool tryOnly, void* ra, u64 until = 0) {
  if (!ACTIVE) return 0;
  Thread* t = self; sync_step(t, 0x12, 0); Sync* s = get_sync(m);
  while (s->owner) { if (tryOnly) return EBUSY; if (s->owner == t->id + 1) violate("deadlock", "read lock while holding the write lock (op %d)", t->uid);
    if (too_late(t, until)) return ETIMEDOUT;
    block(t, m, until); }
  s->readers |= 1 << t->id; ++s->count;
  if (from_program(ra)) acquire(t, s);
  return 0;
}
static int wr_impl(void* m, bool tryOnly, void* ra, u64 until = 0) {
  if (!ACTIVE) return 0;
  Thread* t = self; sync_step(t, 0x13, 0); Sync* s = get_sync(m);
  while (s->owner || s->count) { if (tryOnly) return EBUSY;
    if (s->owner == t->id + 1 || (s->count && s->readers == 1 << t->id)) violate("deadlock", "write lock requested by a holder (op %d)", t->uid);
    if (too_late(t, until)) return ETIMEDOUT;
    block(t, m, until); }
  s->owner = t->id + 1;
  if (from_program(ra)) acquire(t, s);
  return 0;
}
static int rwun_impl(void* m, void* ra) {
  if (!ACTIVE) return 0;
  Thread* t = self; Sync* s = get_sync(m);
  if (from_program(ra)) release(t, s);
  if (s->owner == t->id + 1) s->owner = 0;
  else if (s->count > 0) { if (--s->count == 0) s->readers = 0; }
  wake_all(m);
  sync_step(t, 0x14, 0);
  return 0;
}
EXPORT int sim_rd(pthread_rwlock_t*) SIM_NAME(pthread_rwlock_rdlock);
EXPORT int sim_tryrd(pthread_rwlock_t*) SIM_NAME(pthread_rwlock_tryrdlock);
EXPORT int sim_wr(pthread_rwlock_t*) SIM_NAME(pthread_rwlock_wrlock);
EXPORT int sim_trywr(pthread_rwlock_t*) SIM_NAME(pthread_rwlock_trywrlock);
EXPORT int sim_rwun(pthread_rwlock_t*) SIM_NAME(pthread_rwlock_unlock);
EXPORT int sim_trd(pthread_rwlock_t*, const timespec*) SIM_NAME(pthread_rwlock_timedrdlock);
EXPORT int sim_twr(pthread_rwlock_t*, const timespec*) SIM_NAME(pthread_rwlock_timedwrlock);
EXPORT int sim_crd(pthread_rwlock_t*, int, const timespec*) SIM_NAME(pthread_rwlock_clockrdlock);
EXPORT int sim_cwr(pthread_rwlock_t*, int, const timespec*) SIM_NAME(pthread_rwlock_clockwrlock);
EXPORT int sim_trd(pthread_rwlock_t* m, const timespec* ts) { return rd_impl(m, false, RA, nanos(ts)); }
EXPORT int sim_twr(pthread_rwlock_t* m, const timespec* ts) { return wr_impl(m, false, RA, nanos(ts)); }
EXPORT int sim_crd(pthread_rwlock_t* m, int, const timespec* ts) { return rd_impl(m, false, RA, nanos(ts)); }
EXPORT int sim_cwr(pthread_rwlock_t* m, int, const timespec* ts) { return wr_impl(m, false, RA, nanos(ts)); }
EXPORT int sim_rd(pthread_rwlock_t* m) { return rd_impl(m, false, RA); }
EXPORT int sim_tryrd(pthread_rwlock_t* m) { return rd_impl(m, true, RA); }
EXPORT int sim_wr(pthread_rwlock_t* m) { return wr_impl(m, false, RA); }
EXPORT int sim_trywr(pthread_rwlock_t* m) { return wr_impl(m, true, RA); }
EXPORT int sim_rwun(pthread_rwlock_t* m) { return rwun_impl(m, RA); }

EXPORT int sim_cwait(pthread_cond_t*, pthread_mutex_t*) SIM_NAME(pthread_cond_wait);
EXPORT int sim_ctwait(pthread_cond_t*, pthread_mutex_t*, const timespec*) SIM_NAME(pthread_cond_timedwait);
EXPORT int sim_ccwait(pthread_cond_t*, pthread_mutex_t*, int, const timespec*) SIM_NAME(pthread_cond_clockwait);
EXPORT int sim_csig(pthread_cond_t*) SIM_NAME(pthread_cond_signal);
EXPORT int sim_cbc(pthread_cond_t*) SIM_NAME(pthread_cond_broadcast);
static void give_way();
static int cond_impl(pthread_cond_t* c, pthread_mutex_t* m, u64 until) {
  if (!ACTIVE) return until ? ETIMEDOUT : 0;
  Thread* t = self; Sync* s = get_sync(m);
  release(t, s); int n = s->count; s->owner = 0; s->count = 0; wake_all(m);
  bool late = false;
  if (chance(t, 3, 6)) { probe(21); give_way(); }   // a wake-up without a reason, which the standard allows
  else if (too_late(t, until)) { late = true; give_way(); }
  else if (block(t, c, until)) { late = true; probe(22); }
  while (s->owner) block(t, m);
  s->owner = t->id + 1; s->count = n; acquire(t, s);
  return late ? ETIMEDOUT : 0;
}
EXPORT int sim_cwait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_impl(c, m, 0); }
EXPORT int sim_ctwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts) { return cond_impl(c, m, nanos(ts)); }
EXPORT int sim_ccwait(pthread_cond_t* c, pthread_mutex_t* m, int, const timespec* ts) { return cond_impl(c, m, nanos(ts)); }
EXPORT int sim_csig(pthread_cond_t* c) { if (ACTIVE) { wake_one(c); sync_step(self, 0x15, 0); } return 0; }
EXPORT int sim_cbc(pthread_cond_t* c) { if (ACTIVE) { wake_all(c); sync_step(self, 0x16, 0); } return 0; }

static void give_way() {
  if (!ACTIVE) return;
  Thread* t = self; sync_step(t, 0x17, 0);
  if (!concurrent) return;
  if (P->strategy == S_PCT) t->prio = --lowPrio;
  ++t->opsteps;
  if (coarse() && runLength < QUANTUM) return;
  int next = pick_next(t, !(P->strategy == S_EXPLICIT && P->nsw > MAXSW / 2));
  if (next >= 0) { record_switch(t, next, false); switch_to(t, next); }
}
EXPORT int sim_sched_yield() SIM_NAME(sched_yield);
EXPORT int sim_sched_yield() { give_way(); return 0; }
static int nap(u64 until) {
  if (!ACTIVE) return 0;
  Thread* t = self; sync_step(t, 0x1a, 0);
  if (sim_time() < until) { if (chance(t, 4, 4)) { sim_until(until); give_way(); } else block(t, &t->deadline, until); }
  return 0;
}
EXPORT int sim_nanosleep(const timespec*, timespec*) SIM_NAME(nanosleep);
EXPORT int sim_nanosleep(const timespec* ts, timespec*) { return nap(sim_time() + nanos(ts)); }
EXPORT int sim_cnanosleep(int, int, const timespec*, timespec*) SIM_NAME(clock_nanosleep);
EXPORT int sim_cnanosleep(int, int flags, const timespec* ts, timespec*) { return nap((flags ? 0 : sim_time()) + nanos(ts)); }
EXPORT int sim_usleep(unsigned) SIM_NAME(usleep);
EXPORT int sim_usleep(unsigned us) { if (!ACTIVE) { timespec ts{us / 1000000, long(us % 1000000) * 1000}; kernel(SYS_nanosleep, (long)&ts, 0, 0, 0, 0, 0); return 0; } return nap(sim_time() + us * 1000ull); }
EXPORT unsigned sim_sleep(unsigned) SIM_NAME(sleep);
EXPORT unsigned sim_sleep(unsigned s) { return (unsigned)nap(sim_time() + s * 1000000000ull); }
EXPORT int sim_clock(int, timespec*) SIM_NAME(clock_gettime);
EXPORT int sim_clock(int id, timespec* ts) {
  if (!ACTIVE) return (int)kernel(SYS_clock_gettime, id, (long)ts, 0, 0, 0, 0);
  step(self, 0x1b, 0);
  const u64 now = sim_time(); ts->tv_sec = now / 1000000000ull; ts->tv_nsec = now % 1000000000ull;
  return 0;
}
EXPORT int sim_tod(timeval*, void*) SIM_NAME(gettimeofday);
EXPORT int sim_tod(timeval* tv, void*) {
  timespec ts; sim_clock(CLOCK_REALTIME, &ts);
  if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
  return 0;
}
EXPORT time_t sim_timef(time_t*) SIM_NAME(time);
EXPORT time_t sim_timef(time_t* out) { timespec ts; sim_clock(CLOCK_REALTIME, &ts); if (out) *out = ts.tv_sec; return ts.tv_sec; }

// futexes, as used by std::atomic::wait, semaphores, latches and barriers
EXPORT long sim_syscall(long, long, long, long, long, long, long) SIM_NAME(syscall);
EXPORT long sim_syscall(long n, long a, long b, long c, long d, long e, long f) {
  if (n == SYS_futex && ACTIVE) {
    Thread* t = self;
    const int cmd = (int)b & FUTEX_CMD_MASK;
    sync_step(t, 0x18, (u64)cmd);
    if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
      if (in_arena((u64)a) && !heap_ok((u64)a, 4)) bad_access((u64)a, 4, false, RA);
      if (__atomic_load_n((int*)a, 5) != (int)c) { errno = EAGAIN; return -1; }
      u64 until = 0;
      if (d) until = nanos((const timespec*)d) + (cmd == FUTEX_WAIT ? sim_time() : 0);   // absolute with a bit set
      if (chance(t, 5, 6)) { probe(21); give_way(); return 0; }
      if (too_late(t, until)) { give_way(); errno = ETIMEDOUT; return -1; }
      if (block(t, (void*)a, until)) { probe(22); errno = ETIMEDOUT; return -1; }
      return 0;
    }
    if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
      long k = 0;
      while (k < (int)c && wake_one((void*)a)) ++k;
      sync_step(t, 0x19, (u64)k);
      return k;
    }
  }
  long r = kernel(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}

// ------------------------------------------------------------------ once flags and static guards
// probes: 0 waited for a running initialisation, 1 initialisation aborted by an exception,
//         2 a waiter took over after an abort, 3 nested initialisation (depth >= 2), 4 depth >= 3
static __thread int initDepth;
struct InitScope {
  InitScope() { if (++initDepth == 2) probe(3); else if (initDepth == 3) probe(4); }
  ~InitScope() { --initDepth; }
};
EXPORT int sim_once(int*, void (*)()) SIM_NAME(pthread_once);
EXPORT int sim_once(int* ctl, void (*fn)()) {
  if (!ACTIVE) {
    if (*ctl == 2) return 0;
    *ctl = 1; try { fn(); } catch (...) { *ctl = 0; throw; } *ctl = 2;
    if (self && simOn) release(self, get_sync(ctl));
    return 0;
  }
  Thread* t = self; void* ra = RA; (void)ra;
  if (in_arena((u64)ctl) && !heap_ok((u64)ctl, 4)) bad_access((u64)ctl, 4, false, RA);
  sync_step(t, 0x20, 0);
  Sync* s = get_sync(ctl);
  bool waited = false; u32 seq0 = s->seq;
  for (;;) {
    if (*ctl == 2) { acquire(t, s); return 0; }
    if (*ctl == 0) break;
    if (s->owner == t->id + 1) violate("deadlock", "a thread re-enters its own one-time initialisation (op %d)", t->uid);
    waited = true; probe(0);
    block(t, ctl);
  }
  if (waited && s->seq != seq0) probe(2);
  acquire(t, s);
  *ctl = 1; s->owner = t->id + 1;
  bool ok = false;
  struct Done { int* ctl; Sync* s; Thread* t; bool& ok;
    ~Done() { release(t, s); s->owner = 0; *ctl = ok ? 2 : 0; if (!ok) { ++s->seq; probe(1); } wake_all(ctl); } };
  { Done d{ctl, s, t, ok}; InitScope i; fn(); ok = true; }
  sync_step(t, 0x21, 0);
  return 0;
}

EXPORT int sim_ga(u64*) SIM_NAME(__cxa_guard_acquire);
EXPORT void sim_gr(u64*) SIM_NAME(__cxa_guard_release);
EXPORT void sim_gx(u64*) SIM_NAME(__cxa_guard_abort);
EXPORT int sim_ga(u64* g) {
  u8* b = (u8*)g;
  if (!ACTIVE) { if (b[0]) return 0; b[1] = 1; return 1; }
  Thread* t = self; sync_step(t, 0x22, 0);
  Sync* s = get_sync(g);
  bool waited = false; u32 seq0 = s->seq;
  for (;;) {
    if (b[0]) { acquire(t, s); return 0; }
    if (!b[1]) break;
    if (s->owner == t->id + 1) violate("deadlock", "recursive initialisation of a function-local static (op %d)", t->uid);
    waited = true; probe(0);
    block(t, g);
  }
  if (waited && s->seq != seq0) probe(2);
  acquire(t, s);
  b[1] = 1; s->owner = t->id + 1;
  if (++initDepth == 2) probe(3); else if (initDepth == 3) probe(4);
  return 1;
}
EXPORT void sim_gr(u64* g) {
  u8* b = (u8*)g;
  if (self && simOn) {
    Thread* t = self; Sync* s = get_sync(g); release(t, s); s->owner = 0;
    if (initDepth > 0) --initDepth;
    b[1] = 0; b[0] = 1; wake_all(g);
    if (ACTIVE) sync_step(t, 0x23, 0);
    return;
  }
  b[1] = 0; b[0] = 1;
}
EXPORT void sim_gx(u64* g) {
  u8* b = (u8*)g; b[1] = 0;
  if (self && simOn) {
    Thread* t = self; Sync* s = get_sync(g); release(t, s); s->owner = 0; ++s->seq; probe(1);
    if (initDepth > 0) --initDepth;
    wake_all(g);
    if (ACTIVE) sync_step(t, 0x24, 0);
  }
}

// ------------------------------------------------------------------ compiler callbacks: plain accesses
#define RDWR(n) \
  EXPORT void __tsan_read##n(void* p) { access(p, n, false, RA); } \
  EXPORT void __tsan_write##n(void* p) { access(p, n, true, RA); } \
  EXPORT void __tsan_read_write##n(void* p) { access(p, n, false, RA); access(p, n, true, RA); } \
  EXPORT void __tsan_volatile_read##n(void* p) { access(p, n, false, RA); } \
  EXPORT void __tsan_volatile_write##n(void* p) { access(p, n, true, RA); } \
  EXPORT void __tsan_unaligned_volatile_read##n(void* p) { access(p, n, false, RA); } \
  EXPORT void __tsan_unaligned_volatile_write##n(void* p) { access(p, n, true, RA); } \
  EXPORT void __tsan_unaligned_read##n(void* p) { access(p, n, false, RA); } \
  EXPORT void __tsan_unaligned_write##n(void* p) { access(p, n, true, RA); } \
  EXPORT void __tsan_unaligned_read_write##n(void* p) { access(p, n, false, RA); access(p, n, true, RA); }
RDWR(1) RDWR(2) RDWR(4) RDWR(8) RDWR(16)
EXPORT void __tsan_init() {}
EXPORT void __tsan_func_entry(void*) {}
EXPORT void __tsan_func_exit() {}
EXPORT void __tsan_ignore_thread_begin() {}
EXPORT void __tsan_ignore_thread_end() {}
EXPORT void __tsan_vptr_read(void** p) { access(p, 8, false, RA); }
EXPORT void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, true, RA); }
EXPORT void __tsan_read_range(void* p, unsigned long n) { access(p, n, false, RA); }
EXPORT void __tsan_write_range(void* p, unsigned long n) { access(p, n, true, RA); }
EXPORT void* __tsan_memcpy(void* d, const void* s, unsigned long n) { access(s, n, false, RA); access(d, n, true, RA); return memcpy(d, s, n); }
EXPORT void* __tsan_memmove(void* d, const void* s, unsigned long n) { access(s, n, false, RA); access(d, n, true, RA); return memmove(d, s, n); }
EXPORT void* __tsan_memset(void* d, int c, unsigned long n) { access(d, n, true, RA); return memset(d, c, n); }

// ------------------------------------------------------------------ C library functions on caller memory (linked with --wrap)
EXPORT std::size_t __wrap_strlen(const char* s) { std::size_t n = __real_strlen(s); access(s, n + 1, false, RA); return n; }
EXPORT int __wrap_strcmp(const char* a, const char* b) {
  u64 n = 0; while (a[n] && a[n] == b[n]) ++n;
  access(a, n + 1, false, RA); access(b, n + 1, false, RA);
  return (int)(u8)a[n] - (int)(u8)b[n];
}
EXPORT int __wrap_memcmp(const void* a, const void* b, std::size_t n) { access(a, n, false, RA); access(b, n, false, RA); return __real_memcmp(a, b, n); }
EXPORT int __wrap_bcmp(const void* a, const void* b, std::size_t n) { access(a, n, false, RA); access(b, n, false, RA); return __real_memcmp(a, b, n); }
EXPORT char* __wrap_strcpy(char* d, const char* s) { u64 n = __real_strlen(s) + 1; access(s, n, false, RA); access(d, n, true, RA); return (char*)memmove(d, s, n); }
static int print_to(char* d, std::size_t n, const char* f, va_list ap, void* pc) {
  int r = __real_vsnprintf(d, n, f, ap);
  if (r >= 0 && n) access(d, (u64)r < n ? r + 1 : n, true, pc);
  return r;
}
EXPORT int __wrap_vsnprintf(char* d, std::size_t n, const char* f, va_list ap) { return print_to(d, n, f, ap, RA); }
EXPORT int __wrap_snprintf(char* d, std::size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = print_to(d, n, f, ap, RA); va_end(ap); return r; }
EXPORT int __wrap_sprintf(char* d, const char* f, ...) { va_list ap; va_start(ap, f); int r = print_to(d, 1 << 20, f, ap, RA); va_end(ap); return r; }

// ------------------------------------------------------------------ compiler callbacks: atomics
// locks that the standard library announces, as in std::atomic<std::shared_ptr>
extern "C" {
EXPORT void __tsan_mutex_create(void*, unsigned) {}
EXPORT void __tsan_mutex_destroy(void*, unsigned) {}
EXPORT void __tsan_mutex_pre_lock(void*, unsigned) {}
EXPORT void __tsan_mutex_post_lock(void* m, unsigned flags, int) {
  if (ACTIVE && !(flags & 32)) acquire(self, get_sync(m));   // 32: the attempt failed
}
EXPORT int __tsan_mutex_pre_unlock(void* m, unsigned) { if (ACTIVE) release(self, get_sync(m)); return 0; }
EXPORT void __tsan_mutex_post_unlock(void*, unsigned) {}
EXPORT void __tsan_mutex_pre_signal(void*, unsigned) {}
EXPORT void __tsan_mutex_post_signal(void*, unsigned) {}
EXPORT void __tsan_mutex_pre_divert(void*, unsigned) {}
EXPORT void __tsan_mutex_post_divert(void*, unsigned) {}
EXPORT void __tsan_acquire(void* m) { if (ACTIVE) acquire(self, get_sync(m)); }
EXPORT void __tsan_release(void* m) { if (ACTIVE) release(self, get_sync(m)); }
}

// memory orders: 0 relaxed, 1 consume, 2 acquire, 3 release, 4 acq_rel, 5 seq_cst
static inline bool acq(int o) { return o == 1 || o == 2 || o == 4 || o == 5; }
static inline bool rel(int o) { return o == 3 || o == 4 || o == 5; }
static bool at_begin(const volatile void* p, u64 n, bool w, void* pc) {
  if (!ACTIVE) return false;
  Thread* t = self; u64 a = (u64)p;
  sync_step(t, 0x30 + w, n);
  if (in_arena(a) && !heap_ok(a, n)) bad_access(a, n, w, pc);
  if (concurrent && tracked(t, a)) race_range(t, a, n, w, true, pc);
  return true;
}
static void at_load(const volatile void* p, int o) {
  Thread* t = self; Sync* s = get_sync((void*)p);
  if (acq(o)) acquire(t, s); else vjoin(acqPend[t->id], s->clk);
}
static void at_store(const volatile void* p, int o, bool rmw) {
  Thread* t = self; Sync* s = get_sync((void*)p);
  if (!rmw) memset(s->clk, 0, sizeof s->clk);
  if (rel(o)) release(t, s);
  else if (fenceRelSet[t->id]) vjoin(s->clk, fenceRel[t->id]);
}
#define ATOMIC(bits, T, n) \
  EXPORT T __tsan_atomic##bits##_load(const volatile T* p, int o) { bool a = at_begin(p, n, false, RA); T v = __atomic_load_n(p, 5); if (a) at_load(p, o); return v; } \
  EXPORT void __tsan_atomic##bits##_store(volatile T* p, T v, int o) { bool a = at_begin(p, n, true, RA); if (a) at_store(p, o, false); __atomic_store_n(p, v, 5); } \
  EXPORT T __tsan_atomic##bits##_exchange(volatile T* p, T v, int o) { bool a = at_begin(p, n, true, RA); if (a) { at_load(p, o); at_store(p, o, true); } return __atomic_exchange_n(p, v, 5); } \
  EXPORT T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int o) { bool a = at_begin(p, n, true, RA); if (a) { at_load(p, o); at_store(p, o, true); } return __atomic_fetch_add(p, v, 5); } \
  EXPORT T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int o) { bool a = at_begin(p, n, true, RA); if (a) { at_load(p, o); at_store(p, o, true); } return __atomic_fetch_sub(p, v, 5); } \
  EXPORT T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int o) { bool a = at_begin(p, n, true, RA); if (a) { at_load(p, o); at_store(p, o, true); } return __atomic_fetch_and(p, v, 5); } \
  EXPORT T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int o) { bool a = at_begin(p, n, true, RA); if (a) { at_load(p, o); at_store(p, o, true); } return __atomic_fetch_or(p, v, 5); } \
  EXPORT T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int o) { bool a = at_begin(p, n, true, RA); if (a) { at_load(p, o); at_store(p, o, true); } return __atomic_fetch_xor(p, v, 5); } \
  EXPORT T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int o) { bool a = at_begin(p, n, true, RA); if (a) { at_load(p, o); at_store(p, o, true); } return __atomic_fetch_nand(p, v, 5); } \
  EXPORT int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int o, int fo) { \
    bool a = at_begin(p, n, true, RA); T want = *e; bool ok = __atomic_compare_exchange_n(p, &want, v, false, 5, 5); \
    if (a) { at_load(p, ok ? o : fo); if (ok) at_store(p, o, true); } *e = want; return ok; } \
  EXPORT int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int o, int fo) { \
    if (ACTIVE && chance(self, 6, 8)) { probe(23); *e = __tsan_atomic##bits##_load(p, fo); return 0; } \
    return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, o, fo); } \
  EXPORT T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int o, int fo) { __tsan_atomic##bits##_compare_exchange_strong(p, &e, v, o, fo); return e; }
ATOMIC(8, u8, 1) ATOMIC(16, std::uint16_t, 2) ATOMIC(32, u32, 4) ATOMIC(64, u64, 8)
EXPORT void __tsan_atomic_thread_fence(int o) {
  if (!ACTIVE) return;
  Thread* t = self; sync_step(t, 0x38, o);
  if (acq(o)) vjoin(VC[t->id], acqPend[t->id]);
  if (rel(o)) { memcpy(fenceRel[t->id], VC[t->id], sizeof VC[0]); fenceRelSet[t->id] = true; ++VC[t->id][t->id]; }
}
EXPORT void __tsan_atomic_signal_fence(int) {}
