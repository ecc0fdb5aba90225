#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough] [--seed N]   |   run.py replay <file>"""
import os, sys
sys.path[:0] = [os.path.dirname(os.path.abspath(__file__))]
import framework

CHECKS = {"C11": "invariance", "C14": "contact", "C13": "crash", "C08": "faults", "C07": "history", "C12": "history", "C06": "outputs", "C09": "outputs", "C01": "comm", "C10": "solver", "C03": "imports", "C04": "imports", "C05": "imports"}

def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__); return 2
    if a[0] == "replay":
        return framework.replay(a[1])
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--tier" in a: tier = a[a.index("--tier") + 1]
    if "--seed" in a: seed = int(a[a.index("--seed") + 1])
    pid = a[0]
    return framework.main(CHECKS[pid], pid, tier, seed)

if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit as e:
        print(e); rc = 2 if not isinstance(e.code, int) else e.code
    sys.stdout.flush()
    sys.exit(rc)
