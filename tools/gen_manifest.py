#!/usr/bin/env python3
"""Write MANIFEST.json from the list of checks (sim/budget.py) and the reasons below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "sim"))
sys.dont_write_bytecode = True
from budget import BUDGET

PURE = "No concurrency, time, I/O, allocation failure or multi-party history enters: "
NA = {
    "C20": PURE + "the exactness of a finished rule is a fixed numerical fact about each table entry. (That every served rule is exact is additionally asserted inside C01.)",
    "C21": PURE + "positions and weights of a finished rule are fixed data.",
    "C22": PURE + "subentity numbering is a pure function of the topology id. (Concurrent set-up of that data is C05/C06.)",
    "C23": PURE + "embeddings and normals are a pure function of the topology id.",
    "C24": PURE + "the relation between derivative queries is a per-call numerical identity.",
    "C25": PURE + "inversion is a per-call numerical question over real-valued inputs.",
    "C26": PURE + "volume and centre are per-call numerical values.",
    "C27": PURE + "the partition property is a fixed geometric fact per type and level. (Complete enumeration under concurrency is C10.)",
    "C28": PURE + "type indices and comparisons are constexpr functions of two integers.",
    "C29": PURE + "the round trip is a compile-time function.",
    "C30": PURE + "vertex order reduction is a pure function of an id sequence. (Failing allocations in it are C11.)",
    "C31": PURE + "the type is a pure function of two small integers.",
    "C32": "The Python views are pure functions of the C++ object under the interpreter lock; the interpreter cannot be run inside the simulator (it brings its own allocator, threads and loader), and no fault or schedule changes what the property states.",
}
NOTE = ("Seeded sample of schedules and fault sequences, each run repeatable from its seed; silence means none of the sampled runs broke the property. "
        "Trusted: the simulator's scheduler, heap and happens-before model, clang's instrumentation, installed dune-common, libstdc++ and LAPACK. "
        "Execution is sequentially consistent between scheduling points; data races are reported as such instead of exploring weak-memory outcomes.")
m = {
    "version": 1,
    "setup_cmd": "python3 sim/build.py",
    "hooks": {"guard": "none", "enable": "no hooks in /repo: the checks compile its sources with -fsanitize=thread instrumentation against sim/runtime.cc", "source_commits": []},
    "checks": [{"property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                "evidence_file": "evidence/%s.json" % p,
                "technique": "deterministic simulation with fault injection: seeded search over schedules and fault sequences",
                "level": "exploration", "level_note": NOTE} for p in sorted(BUDGET)],
    "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items())],
    "notes": "One simulator decides all claimed properties; see DESIGN.md. check.py rebuilds from /repo's working tree on every call.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
