"""Client of simexe: run jobs, collect results."""
import os, subprocess, json, shutil, tempfile, itertools, threading

KINDS = ["sched","stall","rdv","delay","collsync","redorder","iprobe","poison","omporder","preempt","clock","open","read","write","close","mkdir","crash"]
KIDX = {k: i for i, k in enumerate(KINDS)}

def scratch_root():
    for d in ("/dev/shm", "/tmp"):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return "/tmp"

class Server:
    """one simexe process with `maxranks` rank images loaded"""
    def __init__(self, exe, so, maxranks, root):
        self.exe, self.so, self.maxranks, self.root = exe, so, maxranks, root
        self.proc = None
        self.n = 0
    def start(self):
        d = tempfile.mkdtemp(prefix="img", dir=self.root)
        env = dict(os.environ)
        for k in list(env):
            if k.startswith(("OMP_", "ESPRESO", "MKL_", "SIM_NOASLR", "MALLOC_", "GLIBC_")):
                del env[k]
        env["LC_ALL"] = "C"
        self.proc = subprocess.Popen([self.exe, self.so, str(self.maxranks), d], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, text=True, bufsize=1)
        l = self.proc.stdout.readline()
        if not l.startswith("ready"):
            raise RuntimeError("simexe did not start: " + l)
        shutil.rmtree(d, ignore_errors=True)
    def stop(self):
        if self.proc:
            try:
                self.proc.stdin.close(); self.proc.wait(10)
            except Exception:
                self.proc.kill()
            self.proc = None
    def run(self, job, rundir):
        """job: dict; rundir: prepared directory. returns result dict"""
        if self.proc is None:
            self.start()
        L = ["rundir " + rundir]
        for k in ("seed", "ranks", "threads", "ppn", "maxsteps", "perturb", "tagub", "quota", "clock", "skew", "crashrank", "crashstep", "grace", "cpu", "entry"):
            if k in job and job[k] is not None:
                L.append("%s %s" % (k, job[k]))
        for k, v in job.get("p", {}).items():
            if v: L.append("p %s %.17g" % (k, v))
        if "script" in job and job["script"] is not None:
            L.append("replay")
            f = os.path.join(rundir, ".sim.script")
            with open(f, "w") as o:
                for d in job["script"]:
                    o.write("%d %d %d %d\n" % tuple(d))
            L.append("scriptfile " + f)
        for e in job.get("env", {}).items(): L.append("env %s=%s" % e)
        for e in job.get("ioonly", []): L.append("ioonly " + e)
        for e in job["args"]: L.append("arg " + e)
        if job.get("journal"): L.append("journal")
        L.append("go\n")
        self.proc.stdin.write("\n".join(L)); self.proc.stdin.flush()
        l = self.proc.stdout.readline()
        rf = os.path.join(rundir, ".sim.result")
        if not l.startswith("done") or not os.path.exists(rf):
            err = ""
            try: err = open(os.path.join(rundir, "err.log")).read()[-500:]
            except OSError: pass
            return {"infra": "child ended with %r, %s" % (l.strip(), err)}
        return json.load(open(rf))
