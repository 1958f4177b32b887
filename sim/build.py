#!/usr/bin/env python3
"""Build the simulator from /repo's current working tree.

Objects are cached in /verif/build by a hash of the compiler command and of the
contents of every file the compiler read, so an unchanged tree costs nothing and
a changed header rebuilds exactly the units that include it.
"""
import concurrent.futures, hashlib, json, os, re, subprocess, sys

SIM = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(SIM)
REPO = os.environ.get("VERIF_REPO", "/repo")
DUNE = os.environ.get("VERIF_DUNE", "/opt/dune/venv")
OUT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
CXX = "clang++"

PLAIN = ["-std=c++20", "-O2", "-g1", "-fno-builtin-malloc", "-I" + SIM]
INSTR = ["-std=c++20", "-O1", "-g1", "-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-I" + SIM, "-I" + OUT + "/overlay", "-I" + REPO, "-I" + DUNE + "/include",
         "-I" + SIM + "/config", "-include", "config.h", "-Wno-deprecated-declarations"]
# C library functions the instrumentation does not see into
WRAPPED = ["strlen", "strcmp", "memcmp", "bcmp", "strcpy", "snprintf", "sprintf", "vsnprintf"]
PLAIN_UNITS = ["runtime", "plans", "main"]


def units():
    u = [(n, os.path.join(SIM, n + ".cc"), PLAIN) for n in PLAIN_UNITS]
    for f in sorted(os.listdir(SIM)):
        n, e = os.path.splitext(f)
        if e == ".cc" and n not in PLAIN_UNITS:
            u.append((n, os.path.join(SIM, f), INSTR))
    for s in library_sources():
        u.append(("lib_" + s[:-3].replace("dune/geometry/", "").replace("/", "_"), os.path.join(REPO, s), INSTR))
    return u


def library_sources():
    """the source files the library itself is built from, as its build files list them"""
    res = []
    for d, sub, files in os.walk(os.path.join(REPO, "dune", "geometry")):
        if os.path.basename(d) == "test":
            sub[:] = []
            continue
        if "CMakeLists.txt" not in files:
            continue
        with open(os.path.join(d, "CMakeLists.txt")) as f:
            t = re.sub(r"#[^\n]*", "", f.read())
        for m in re.finditer(r"target_sources\s*\(\s*dunegeometry\b([^)]*)\)", t):
            res += [os.path.relpath(os.path.join(d, w), REPO) for w in m.group(1).split() if w.endswith((".cc", ".cpp", ".cxx"))]
    res = sorted({r for r in res if os.path.exists(os.path.join(REPO, r))})
    return res or ["dune/geometry/quadraturerules/quadraturerules.cc", "dune/geometry/referenceelementimplementation.cc"]


def overlay():
    """Copies of the two dune-common headers that declare arithmetic on user number types noexcept.

    An error thrown there ends the process before the library sees it, so the copies tell
    the simulator not to inject any while such a function runs; nothing else changes.
    """
    d = os.path.join(OUT, "overlay", "dune", "common")
    os.makedirs(d, exist_ok=True)
    for n in ("fvector.hh", "fmatrix.hh"):
        with open(os.path.join(DUNE, "include", "dune", "common", n)) as f:
            t = f.read()
        t = re.sub(r"(friend constexpr [^\n;{]*noexcept(?:\s*\n\s*requires[^\n]*)?\s*\n\s*\{\n)", r"\1      ::sim_quiet sim_quiet_here; (void)sim_quiet_here;\n", t)
        t = t.replace("_data{filledArray<SIZE>(value)}", "_data{[&]{ ::sim_quiet sim_quiet_here; (void)sim_quiet_here; return filledArray<SIZE>(value); }()}")
        t = '#include "quiet.hh"\n' + re.sub(r'#include "(\w+\.hh)"', r"#include <dune/common/\1>", t)
        p = os.path.join(d, n)
        if not os.path.exists(p) or open(p).read() != t:
            with open(p, "w") as f:
                f.write(t)


_fh = {}


def fhash(p):
    if p not in _fh:
        try:
            with open(p, "rb") as f:
                _fh[p] = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            _fh[p] = "missing"
    return _fh[p]


def deps_of(dfile):
    with open(dfile) as f:
        t = f.read().replace("\\\n", " ")
    return t.split(":", 1)[1].split()


def compile_unit(u):
    name, src, flags = u
    obj, dep, rec = (os.path.join(OUT, name + x) for x in (".o", ".d", ".json"))
    cmd = [CXX] + flags + ["-MD", "-MF", dep, "-c", src, "-o", obj]
    if os.path.exists(rec) and os.path.exists(obj):
        try:
            with open(rec) as f:
                r = json.load(f)
            if r["cmd"] == cmd and all(fhash(p) == h for p, h in r["deps"].items()):
                return name, False, ""
        except (ValueError, KeyError):
            pass
    if os.path.exists(rec):
        os.remove(rec)
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        return name, None, p.stdout
    with open(rec, "w") as f:
        json.dump({"cmd": cmd, "deps": {d: fhash(d) for d in deps_of(dep)}}, f)
    return name, True, ""


def build(verbose=False):
    os.makedirs(OUT, exist_ok=True)
    overlay()
    us = units()
    names = {n for n, _, _ in us}
    # slow units first
    big = ("quad_b", "geo", "refel", "refine", "quad")
    us.sort(key=lambda u: next((i for i, b in enumerate(big) if u[0].startswith(b)), 99))
    changed = False
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for name, st, msg in ex.map(compile_unit, us):
            if st is None:
                sys.stderr.write("compilation of %s failed\n%s\n" % (name, msg[-6000:]))
                return None
            changed |= st
            if verbose and st:
                print("compiled", name)
    exe = os.path.join(OUT, "simrun")
    objs = sorted(os.path.join(OUT, n + ".o") for n in names)
    stamp = os.path.join(OUT, "simrun.link")
    key = hashlib.sha256("\n".join(o + fhash(o) for o in objs).encode()).hexdigest()
    if not os.path.exists(exe) or not os.path.exists(stamp) or open(stamp).read() != key:
        blas = next((p for p in ("/usr/lib/x86_64-linux-gnu/libopenblas.so", "/usr/lib/x86_64-linux-gnu/libopenblas.so.0",
                                 "/usr/lib/x86_64-linux-gnu/liblapack.so") if os.path.exists(p)), "-llapack")
        cmd = [CXX, "-no-pie"] + ["-Wl,--wrap=" + f for f in WRAPPED] + objs + ["-o", exe, DUNE + "/lib/libdunecommon.a", blas, "-ltbb", "-lm", "-ldl", "-lpthread"]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            sys.stderr.write("link failed\n%s\n" % p.stdout[-6000:])
            return None
        with open(stamp, "w") as f:
            f.write(key)
    return exe


if __name__ == "__main__":
    e = build("-v" in sys.argv)
    if not e:
        sys.exit(2)
    print(e)
