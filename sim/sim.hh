// Deterministic simulator: interface between the runtime (scheduler, heap,
// happens-before, fault injection) and the harness that drives the library.
#ifndef VERIF_SIM_HH
#define VERIF_SIM_HH
#include <cstddef>
#include <cstdint>

namespace sim {

constexpr int MAXT = 6;          // thread 0 is the setup/recovery thread
constexpr int MAXOPS = 96;       // operations per run, all threads
constexpr int NARG = 8;
constexpr int MAXSW = 1 << 18;   // recorded context switches per run
constexpr int MAXFAULT = 32;
constexpr int NPROBE = 48;
constexpr int MAXVAL = 768;        // values a reference run can report

// ---------------------------------------------------------------- PRNG
struct Rng {
  std::uint64_t s;
  explicit Rng(std::uint64_t seed = 1) : s(seed) { next(); next(); }
  std::uint64_t next() {
    std::uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  std::uint64_t below(std::uint64_t n) { return n ? next() % n : 0; }
  bool chance(int num, int den) { return below(den) < (std::uint64_t)num; }
  int range(int a, int b) { return a + (int)below((std::uint64_t)(b - a + 1)); }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};
inline std::uint64_t mix(std::uint64_t a, std::uint64_t b) {
  Rng r(a * 0x9e3779b97f4a7c15ull ^ (b + 0x7f4a7c15ull));
  return r.next();
}

// ---------------------------------------------------------------- plan
struct Op { std::int16_t kind; std::int16_t uid; std::int64_t a[NARG]; };

enum FaultKind { F_ALLOC = 0, F_NUM = 1, F_CALL = 2, F_REENTER = 3, F_NKIND = 4 };
struct Fault { std::int16_t uid; std::uint8_t kind; std::uint8_t sticky; std::uint32_t k; };
struct Switch { std::int16_t uid; std::uint8_t from; std::uint8_t to; std::uint32_t step; };

enum Strategy { S_SERIAL = 0, S_RANDOM = 1, S_PCT = 2, S_SYNC = 3, S_LOCKSTEP = 4, S_EXPLICIT = 5, S_NSTRAT = 6 };

struct Plan {
  char prop[8];
  std::uint64_t seed;          // the run seed everything was derived from
  int nthreads;                // worker threads 1..nthreads
  int nops[MAXT];              // [0]: set-up operations run before the threads
  Op ops[MAXT][MAXOPS];
  int nfaults; Fault faults[MAXFAULT];
  int strategy; std::uint32_t param; std::uint32_t estSteps;
  std::uint64_t schedSeed;
  int refmode;                 // reference run: one op, fault-free, absolute oracles
  int shutdown;                // run static destructors under the simulator
  int repeat;                  // at the end, check that repeating requests holds no more memory
  int nsw; Switch* sw;         // S_EXPLICIT only
};

// ---------------------------------------------------------------- result
struct Result {
  int status;                  // 0 running, 1 ok, 2 violation
  char cls[24];
  char msg[1600];
  std::uint64_t hash;          // hash of the complete event log
  std::uint64_t schedHash;     // hash of the sequence of context switches
  std::uint64_t steps;
  std::uint64_t accesses, syncops, allocs, switches, preemptions, blocked;
  std::uint32_t fired[F_NKIND];
  std::uint32_t opAllocs[MAXOPS], opNums[MAXOPS], opCalls[MAXOPS], opSteps[MAXOPS];
  std::uint8_t opOutcome[MAXOPS];
  std::uint8_t opFired[MAXOPS];
  std::uint32_t probe[NPROBE];
  int curUid[MAXT];
  int nsw;
  // reference runs: the observable result of one operation
  int nsig; double sig[MAXVAL]; std::uint64_t sigHash; int refOutcome;
  Switch sw[MAXSW];
};

// ---------------------------------------------------------------- runtime
void init_process(int argc, char** argv);   // fixed layout, one BLAS thread
// Execute the plan in the calling (forked) process; never returns.
[[noreturn]] void execute(const Plan& plan, Result* res);

bool in_sim();                 // called on a thread whose steps are scheduled
int tid();
void pause();                  // harness bookkeeping: no steps, no faults, no race checks
void resume();
struct Paused { Paused() { pause(); } ~Paused() { resume(); } Paused(const Paused&) = delete; };

[[noreturn]] void violate(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void probe(int id);
void log_value(std::uint64_t v);    // add to the event log hash
void yield_point();                 // explicit scheduling point (user code)
// hand-over of data between simulated threads by the *user*, with the ordering
// any real hand-over has
void user_release(int slot);
void user_acquire(int slot);
// fault points of user code: >0 a fault with this id fires here, <0 user code
// makes nested lookups here, 0 nothing
int num_point();
int call_point();
void faults_off(bool off);      // for retries on the same thread
int fault_fired_in_op();        // number of faults fired in the current op on this thread
const Plan& plan();
Result& result();
// memory accounting
struct HeapMark { std::uint64_t live, bytes; };
HeapMark heap_live();           // live blocks allocated by library operations
bool heap_is_live(const void* p);

// ---------------------------------------------------------------- harness (implemented in ops*.cc)
// nref: the first nref arguments identify the expected result (0: none)
struct OpDef { const char* name; void (*run)(const Op&); int nref; int flags; };
enum OpFlags { OP_CAN_REFUSE = 1, OP_NO_RECOVER = 2, OP_SLOT = 4 };
struct Ref { std::uint64_t key; int outcome; int n; std::uint64_t hash; std::uint32_t steps, allocs, nums, calls; double v[MAXVAL]; };
std::uint64_t ref_key(int kind, const std::int64_t* a);
const Ref* find_ref(int kind, const std::int64_t* a);   // in main.cc
const OpDef& op_def(int kind);
int op_kind(const char* name);
int op_count();
// value types: number of variants (0: no such type), whether threads may read one object together
int vtype_variants(int type);
bool vtype_shared(int type);
int vtype_queries(int type);
bool cares_about_leaks();
void harness_setup();           // paused, thread 0, before anything else
// run one op on the current thread, handle its outcome
void harness_run_op(const Op& op, bool recovery);
void harness_recover();         // thread 0 after all threads have ended
void harness_finish();          // paused, thread 0: final oracles, drop all harness-held objects

enum Outcome { O_NONE = 0, O_OK = 1, O_BADALLOC = 2, O_NUM = 3, O_CALL = 4, O_REFUSED = 5, O_OTHER = 6 };

} // namespace sim
#endif
