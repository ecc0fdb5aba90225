"""Demonstrations of planted changes with the real binaries of the tree in the working directory."""
import os, sys, random, shutil, subprocess, tempfile, glob
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE]
REPO = os.getcwd()

def mpirun(binary, ranks, threads, cwd, args=(), timeout=100, env=None):
    e = dict(os.environ, LD_LIBRARY_PATH=REPO + "/build", OMP_NUM_THREADS=str(threads), OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
             OMPI_MCA_btl="self,vader", OMPI_MCA_pml="ob1", OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_plm_rsh_agent="", OMPI_MCA_mpi_yield_when_idle="1",
             OMP_WAIT_POLICY="passive", MKL_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", SOLVER_NUM_THREADS=str(threads), PAR_NUM_THREADS=str(threads), TMPDIR=cwd)
    e.update(env or {})
    try:
        p = subprocess.run(["timeout", "-k", "5", str(timeout), "/usr/bin/mpirun", "--oversubscribe", "--bind-to", "none", "-n", str(ranks), REPO + "/build/" + binary] + list(args),
                           cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout + 20)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return 124, "timeout"

class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="demo")
        return self.d
    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)

def convert(write, fmt, ranks, threads, loader="POSIX", decomposer="NONE", out="ENSIGHT", inp="", outp="", env=None):
    """write(dir) -> path, truth; converts the database and compares"""
    import formats
    with Scratch() as d:
        path, want = write(d)
        open(d + "/espreso.ecf", "w").write(
            "INPUT { FORMAT %s; PATH %s; LOADER %s; KEEP_MATERIAL_SETS FALSE; CONVERT_DATABASE TRUE; DECOMPOSITION { PARALLEL_DECOMPOSER %s; } %s }\nOUTPUT { FORMAT %s; %s }\n"
            % (fmt, os.path.relpath(path, d), loader, decomposer, inp, out, outp))
        rc, log = mpirun("mesio", ranks, threads, d, ["-c", "espreso.ecf"], env=env)
        if rc: return "exit code %d: %s" % (rc, log[-600:])
        if out != "ENSIGHT": return None
        g = glob.glob(d + "/results/last/**/*.geo", recursive=True)
        if len(g) != 1: return "no geometry"
        try:
            got = formats.canonical_parts(formats.read_ensight_geo(g[0]), 3)
        except formats.Bad as e:
            return "malformed: %s" % e
        for k in ("NAMELESS_ELEMENT_SET", "SURFACE"):
            if k not in want: got.pop(k, None)
        return formats.diff(got, want)

def finish(bad):
    for b in bad: print("FAILED:", b)
    if not bad: print("ok")
    sys.exit(1 if bad else 0)
