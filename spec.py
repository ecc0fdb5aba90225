#!/usr/bin/env python3
"""The list of properties; writes properties.jsonl and MANIFEST.json.  python3 spec.py"""
import json, os, subprocess
HERE = os.path.dirname(os.path.abspath(__file__))
TECH = "deterministic simulation with fault injection: seeded search over process/thread schedules, message delivery and I/O faults of the whole application in one process"
P = []
def prop(id, title, statement, over, text, why, files, mech, level="exploration", note="", na=None, **anch):
    assert len(title) <= 80, (id, len(title))
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **anch)), level, note, na))

exec(open(os.path.join(HERE, "spec_properties.py")).read())

def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p, *_ in P: f.write(json.dumps(p) + "\n")
    log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout.split("\n")
    m = {"version": 1, "setup_cmd": "python3 sim/build.py mesio && python3 sim/build.py espreso",
         "hooks": {"guard": "ESPRESO_SIM", "enable": "sim/build.py compiles /repo/src with -DESPRESO_SIM=1 into /verif/build (never into /repo)",
                   "source_commits": [l.split()[0] for l in log if " sim: " in l]},
         "checks": [], "not_applicable": [],
         "notes": "Every check compiles /repo's current working tree (content-hash incremental), loads one image per simulated process and searches seeds. Replay: python3 checks/run.py replay <file>."}
    for p, level, note, na in P:
        if na:
            m["not_applicable"].append({"property": p["id"], "reason": na})
        else:
            m["checks"].append({"property": p["id"], "quick_cmd": "python3 checks/run.py %s --tier quick" % p["id"], "thorough_cmd": "python3 checks/run.py %s --tier thorough" % p["id"],
                                "technique": TECH, "level": level, "level_note": note})
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
main()
