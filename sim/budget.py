"""How much each check runs, and names for what it counts."""
# property: {tier: (runs, wall-clock cap in seconds)}
RUNS = {"C01": 30000, "C02": 30000, "C03": 30000, "C04": 24000, "C05": 20000, "C06": 16000, "C07": 36000, "C08": 30000,
        "C09": 36000, "C10": 24000, "C11": 36000, "C12": 48000, "C13": 16000, "C14": 20000, "C15": 24000, "C16": 16000}
BUDGET = {p: {"quick": (n, 300), "thorough": (1000000, 3600)} for p, n in RUNS.items()}

STRATEGIES = ["serial", "random", "priorities with change points", "at synchronisation", "lock step", "explicit"]
FAULTS = ["allocation fails", "number type throws", "user function throws", "user code looks up tables"]
PROBES = {0: "waited for a running initialisation", 1: "initialisation ended by exception", 2: "waiter took over after a failed initialisation",
          3: "initialisation inside initialisation", 4: "three initialisations nested", 5: "same object seen again", 6: "object read on another thread",
          7: "tables looked up by user code", 8: "operation ended by a fault", 9: "operation repeated at once after a fault",
          10: "object busy, caller turned away", 11: "object read by several threads at once", 12: "query refused", 13: "query ended by a library error",
          14: "object copied", 15: "object moved", 16: "object assigned", 17: "object assigned to itself", 18: "object in an unspecified state at the end",
          19: "requests repeated to look for growth", 20: "tables used while the process ends",
          21: "waits that returned without a reason", 22: "timed waits that expired", 23: "weak exchanges that failed without a reason",
          24: "objects constructed where another one was",
          25: "tables used by static objects created in between", 26: "geometries evaluated inside user code"}
RULE = ("one evaluation is one simulated run in its own cold process: operations, arguments, threads, schedule and fault positions are drawn from the run seed. "
        "A run is non-trivial if a thread was preempted or blocked or a fault fired; runs are distinct if the hash of their operations together with the "
        "sequence of context switches (and, if a fault fired, the whole event log) differs.")
REAL = ["all library headers used and the library source files (with strings and streams of libstdc++), from the current working tree", "libstdc++ containers, exceptions and std::call_once",
        "dune-common (installed; copies of two headers only tell the simulator when arithmetic declared noexcept runs, so that no error is injected there)", "LAPACK (installed, for Gauss-Jacobi rules)"]
STUB = ["thread scheduling (one thread at a time, chosen by the seeded scheduler)", "operator new/delete and malloc (checked arena)",
        "mutexes, condition variables, futexes, pthread_once and static-initialisation guards (modelled)", "clocks and sleeps (simulated time, one microsecond per step)", "user code: number types, corner storage, mappings, bases, interpolations, creators (harness)"]
