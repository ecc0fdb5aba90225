#!/usr/bin/env python3
"""mut.py <property> <file with mutants>: quick experiments in /tmp/wr (a clone of /repo).
Mutants: blocks separated by lines '====': first line the path, then old text, a line '----', new text."""
import sys, os, subprocess
pid, f = sys.argv[1:3]
W, B = "/tmp/wr", "/tmp/simwr"
if not os.path.isdir(W): subprocess.check_call(["git", "clone", "-q", "/repo", W])
def clean():
    subprocess.check_call("git -C %s fetch -q /repo HEAD && git -C %s checkout -q -f --detach FETCH_HEAD" % (W, W), shell=True)
env = dict(os.environ, SIM_REPO=W, SIM_BUILD=B, VERIF_TIER="quick", VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
for k, m in enumerate(open(f).read().strip("\n").split("\n====\n")):
    path, body = m.split("\n", 1)
    old, new = body.split("\n----\n") if "\n----\n" in body else (body.rsplit("\n----", 1)[0], "")
    clean()
    p = os.path.join(W, path)
    s = open(p).read()
    n = s.count(old)
    if n < 1: print(k, "NOT APPLICABLE", path, repr(old[:60])); continue
    s = s.replace(old, new, 1)
    open(p, "w").write(s)
    r = subprocess.run([sys.executable, "/verif/checks/run.py", pid], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    v = [l for l in r.stdout.split("\n") if l.startswith("violation")] or [r.stdout[-300:]]
    print(k, {0: "MISSED", 1: "caught"}.get(r.returncode, "rc %d" % r.returncode), path, repr(old[:50]), "->", repr(new[:50]), "::", v[0][:160], flush=True)
clean()
