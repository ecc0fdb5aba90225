#!/usr/bin/env python3
"""Builds the simulated system from /repo's current working tree.

Objects are keyed by content (source + every header it includes + flags), never
by mtime, so a stale object can not be used.  Output: /verif/build (git ignored).

  target 'mesio'   = configuration, basis, mpi, mesh, input, output, partitioner wrappers
  target 'espreso' = 'mesio' + analysis, feti, math, solver wrappers
Both become one shared object that the simulator loads once per simulated rank.
"""
import os, sys, hashlib, subprocess, json, glob, time, shutil, fcntl
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("SIM_REPO", "/repo")
OUT = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))

OMPI_INC = ["-I/usr/lib/x86_64-linux-gnu/openmpi/include", "-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi"]

BASE = ["-std=c++17", "-fopenmp", "-w", "-Wno-psabi", "-fPIC", "-fno-gnu-unique", "-O1", "-g0",
        "-ffp-contract=off",
        "-Desint=int", "-D__ESMODE__=RELEASE", "-DESPRESO_SIM=1", "-DOMPI_SKIP_MPICXX=1", "-I" + REPO + "/src", "-I/usr/include/mkl"] + OMPI_INC

WRAP = ["-DESPRESO_USE_WRAPPER_%s_MKL=1" % w for w in ("DNBLAS", "DNSOLVER", "LAPACK", "SPBLAS", "SPSOLVER", "SCSOLVER")]
MKL = ["-DHAVE_MKL=1", "-DMKL_INT=int", "-DMKL_Complex8=std::complex<float>", "-DMKL_Complex16=std::complex<double>"]
SUITE = ["-DHAVE_SUITESPARSE=1", "-I/usr/include/suitesparse"]

CHECKER = [("esinfo", ["-D__ESCOMMIT__=\"sim\"", "-D__ESCXX__=\"sim\"", "-D__ESBUILDPATH__=\"sim\"", "-D__ESCXXFLAGS__=\"sim\""]),
           ("config", []), ("basis", []), ("wrappers/exprtk", []), ("wrappers/backward-cpp", []),
           ("wrappers/mpi", []), ("wrappers/papi", [])]
MESIO = [("mesh", []), ("input", []), ("output", []), ("wrappers/pthread", ["-DHAVE_PTHREAD=1"]), ("wrappers/catalyst", []),
         ("wrappers/hdf5", []), ("wrappers/gmsh", []), ("wrappers/nglib", []), ("wrappers/metis", ["-DHAVE_METIS=1"]),
         ("wrappers/parmetis", ["-DHAVE_PARMETIS=1"]), ("wrappers/scotch", []), ("wrappers/ptscotch", []), ("wrappers/kahip", [])]
ESPRESO = [("analysis", []), ("morphing", []), ("math", WRAP + MKL + SUITE), ("autoopt", []), ("feti", []), ("gpu", WRAP),
           ("wrappers/blas", WRAP + MKL), ("wrappers/lapack", WRAP + MKL), ("wrappers/mkl", WRAP + MKL),
           ("wrappers/precice", []), ("wrappers/precice-dummy", []), ("wrappers/mklpdss", WRAP + MKL),
           ("wrappers/suitesparse", WRAP + MKL + SUITE), ("wrappers/mumps", WRAP), ("wrappers/pastix", WRAP),
           ("wrappers/strumpack", WRAP), ("wrappers/superlu_dist", WRAP), ("wrappers/openlb", []), ("wrappers/bem", []),
           ("wrappers/nvtx", []), ("wrappers/oneapi", WRAP), ("wrappers/rocm", WRAP)]

_hash = {}
def fhash(path):
    h = _hash.get(path)
    if h is None:
        try:
            with open(path, "rb") as f:
                h = hashlib.sha1(f.read()).hexdigest()
        except OSError:
            h = "-"
        _hash[path] = h
    return h

def sources(groups):
    for d, fl in groups:
        for root, dirs, files in os.walk(os.path.join(REPO, "src", d)):
            dirs.sort()
            for f in sorted(files):
                if f.endswith(".cpp"):
                    yield os.path.join(root, f), fl

def parse_dep(path):
    s = open(path).read().replace("\\\n", " ")
    s = s.split(":", 1)[1]
    return [x for x in s.split() if x]

def compile_one(job):
    src, obj, cmd = job
    rec = obj + ".json"
    try:
        r = json.load(open(rec))
        if r["cmd"] == cmd and os.path.exists(obj) and all(fhash(p) == h for p, h in r["deps"].items()):
            return (src, False, None)
    except Exception:
        pass
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    dep = obj + ".d"
    p = subprocess.run(cmd + ["-MMD", "-MF", dep, "-c", src, "-o", obj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        return (src, True, p.stdout.decode(errors="replace"))
    deps = {os.path.normpath(x): None for x in parse_dep(dep)}
    # system headers are fixed in this sandbox; -MMD lists user headers only
    json.dump({"cmd": cmd, "deps": {d: fhash(d) for d in deps}}, open(rec, "w"))
    return (src, True, None)

def build_objs(jobs):
    jobs = sorted(jobs, key=lambda j: -os.path.getsize(j[0]))
    heavy = ("analysis/assembler", "wrappers/exprtk")
    jobs.sort(key=lambda j: 0 if any(h in j[0] for h in heavy) else 1)
    n = 0
    with ThreadPoolExecutor(max_workers=int(os.environ.get("SIM_JOBS", os.cpu_count()))) as ex:
        for src, did, err in ex.map(compile_one, jobs):
            n += did
            if err:
                raise SystemExit("SIM-BUILD-ERROR: %s\n%s" % (src, err))
    return n

def repo_jobs(groups, flavor, extra):
    jobs = []
    for src, fl in sources(groups):
        obj = os.path.join(OUT, "obj-" + flavor, os.path.relpath(src, REPO) + ".o")
        jobs.append((src, obj, ["g++"] + BASE + extra + fl))
    return jobs

# third-party libraries with per-process state get one private copy per rank
def patch_lib(src, dst, repl):
    data = open(src, "rb").read()
    for a, b in repl:
        a = a.encode(); b = b.encode()
        assert len(b) <= len(a)
        data = data.replace(b"\0" + a + b"\0", b"\0" + b + b"\0" * (len(a) - len(b)) + b"\0")
    open(dst, "wb").write(data)

def link(cmd, out, ins):
    key = hashlib.sha1(json.dumps([cmd] + [[i, fhash_now(i)] for i in ins]).encode()).hexdigest()
    st = out + ".key"
    if os.path.exists(out) and os.path.exists(st) and open(st).read() == key:
        return False
    rsp = out + ".rsp"
    open(rsp, "w").write("\n".join(ins))
    p = subprocess.run(cmd + ["-o", out + ".tmp", "@" + rsp] , stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise SystemExit("SIM-BUILD-ERROR: link %s\n%s" % (out, p.stdout.decode(errors="replace")[-4000:]))
    os.rename(out + ".tmp", out)
    open(st, "w").write(key)
    return True

def fhash_now(p):
    with open(p, "rb") as f:
        return hashlib.sha1(f.read()).hexdigest()

def build(target, flavor="plain", verbose=True):
    t0 = time.time()
    os.makedirs(OUT, exist_ok=True)
    lock = open(os.path.join(OUT, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    extra = []
    groups = CHECKER + MESIO + (ESPRESO if target == "espreso" else [])
    jobs = repo_jobs(groups, flavor, extra)
    app = "espreso" if target == "espreso" else "mesio"
    appsrc = os.path.join(REPO, "src/app/%s.cpp" % app)
    jobs.append((appsrc, os.path.join(OUT, "obj-" + flavor, "app-" + app + ".o"), ["g++"] + BASE + extra + ["-Dmain=espreso_app_main"]))
    simjobs = []
    for s in sorted(glob.glob(HERE + "/lib/*.cpp")):      # probes, linked into the rank image
        if os.path.basename(s).startswith("espreso_") and target != "espreso":
            continue
        jobs.append((s, os.path.join(OUT, "obj-" + flavor, "probe", os.path.basename(s) + ".o"), ["g++"] + BASE + extra + ["-I" + HERE]))
    for s in sorted(glob.glob(HERE + "/core/*.cpp")):     # the simulator itself
        simjobs.append((s, os.path.join(OUT, "obj-core", os.path.basename(s) + ".o"),
                        ["g++", "-std=c++17", "-O2", "-g", "-w", "-fPIC", "-I" + HERE] + OMPI_INC))
    n = build_objs(jobs + simjobs)
    libs = os.path.join(OUT, "lib")
    os.makedirs(libs, exist_ok=True)
    # link-time view of metis/parmetis: rank 'Z' copies; each rank gets its own
    so = os.path.join(libs, "rank-%s-%s.so" % (target, flavor))
    ext = ["-L/opt/vp/lib", "-Wl,--no-as-needed", "-lmetis", "-l:libparmetis.so.4.0", "-lm"]
    if target == "espreso":
        ext += ["-lmkl_intel_lp64", "-lmkl_sequential", "-lmkl_core", "-lcholmod", "-lumfpack"]
    cmd = ["g++", "-shared", "-fPIC", "-Wl,-Bsymbolic", "-Wl,--unresolved-symbols=ignore-all", "-Wl,-O0", "-Wl,--hash-style=gnu"]
    objs = [j[1] for j in jobs]
    key_ext = ext
    relinked = link_with(cmd, so, objs, key_ext)
    exe = os.path.join(OUT, "simexe")
    link_with(["g++", "-rdynamic", "-no-pie"], exe, [j[1] for j in simjobs], ["-ldl"])
    if verbose:
        print("[build] target=%s compiled=%d total=%d relinked=%s %.1fs" % (target, n, len(jobs) + len(simjobs), relinked, time.time() - t0))
        sys.stdout.flush()
    return so, exe

def link_with(cmd, out, ins, tail):
    key = hashlib.sha1(json.dumps([cmd, tail] + [[i, fhash_now(i)] for i in ins]).encode()).hexdigest()
    st = out + ".key"
    if os.path.exists(out) and os.path.exists(st) and open(st).read() == key:
        return False
    rsp = out + ".rsp"
    open(rsp, "w").write("\n".join(ins))
    p = subprocess.run(cmd + ["-o", out + ".tmp", "@" + rsp] + tail, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise SystemExit("SIM-BUILD-ERROR: link %s\n%s" % (out, p.stdout.decode(errors="replace")[-4000:]))
    os.rename(out + ".tmp", out)
    open(st, "w").write(key)
    return True

if __name__ == "__main__":
    build(sys.argv[1] if len(sys.argv) > 1 else "espreso", sys.argv[2] if len(sys.argv) > 2 else "plain")
