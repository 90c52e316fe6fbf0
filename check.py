#!/usr/bin/env python3
"""check.py <property>: run the rules of one property over the current source.

exit 0: every obligation discharged (or only listed known findings remain)
exit 1: a construct breaks a rule; prints VIOLATION property=<id> replay=<report>
exit 2: the analysis could not be carried out (an anchor vanished, a rule applied to nothing)
"""
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from engine.ir import AnalysisBroken, Explorer, Program
from rules.common import Check
from rules import registry


def known(pid):
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    for ln in open(p):
        ln = ln.strip()
        if not ln.startswith("known: "):
            continue
        head, _, desc = ln[len("known: "):].partition(" -- ")
        prop, _, key = head.partition(" ")
        if prop == "property=" + pid:
            out[key.strip()] = desc.strip()
    return out


def fmt(p):
    if isinstance(p, str):
        return p
    return " > ".join(p)


def short(p):
    return p if isinstance(p, str) else ("... > " if len(p) > 8 else "") + fmt(p[-8:])


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    rules = registry.PROPS[pid]
    prog = Program(cxx=pid in registry.CXX)
    c = Check(pid, prog)
    c.tier = tier
    broken = []
    Explorer.found_any = staticmethod(lambda: bool(c.viol))
    try:
        for r in rules:
            try:
                r(c)
            except AnalysisBroken as e:
                broken.append("%s: %s" % (r.__name__, e))
            except Exception as e:
                broken.append("%s: %s" % (r.__name__, "".join(traceback.format_exception(e)[-3:])))
    finally:
        prog.close()
    for n in c.rules:
        if not c.count.get(n):
            broken.append("rule %s applied to nothing" % n)

    kn = known(pid)
    viol, found = [], []
    for v in c.viol:
        (found if v.key() in kn else viol).append(v)
    evd = os.environ.get("A0_EVIDENCE") or os.path.join(HERE, "evidence")
    os.makedirs(evd, exist_ok=True)
    rep = os.path.join(evd, pid + ".report.txt")
    with open(rep, "w") as f:
        f.write("property %s, source %s\n\n" % (pid, os.environ.get("A0_REPO", "/repo")))
        for v in viol:
            f.write("VIOLATION rule=%s\n  rule: %s\n  at: %s in %s\n  %s\n" % (v.rule, c.rules.get(v.rule, ""), v.where, v.fn, v.msg))
            if v.path:
                f.write("  path: %s\n" % fmt(v.path))
            f.write("  key: property=%s %s\n" % (pid, v.key()))
        for v in found:
            f.write("KNOWN rule=%s at %s in %s: %s\n" % (v.rule, v.where, v.fn, v.msg))
        for b in broken:
            f.write("ANALYSIS-BROKEN %s\n" % b)
        f.write("\nrerun: python3 %s %s\n" % (os.path.join(HERE, "check.py"), pid))
    ev = {
        "property": pid,
        "tier": "thorough" if tier == "thorough" else "quick",
        "seed": seed,
        "level": "other",
        "coverage": {
            "explanation": "static analysis of the LLVM IR of the current source: each rule below was applied to every "
                           "instance found; no code was run",
            "rules": c.rules,
            "obligations": dict(c.count),
            "obligations_total": sum(c.count.values()),
            "functions": sorted(c.functions),
            "paths_states": c.states,
            "table_rows": c.rows,
            "analysis_broken": broken,
        },
        "wall_s": round(time.time() - t0, 3),
        "violations": [{"rule": v.rule, "at": v.where, "fn": v.fn, "what": v.msg} for v in viol],
        "assumptions": registry.ASSUME,
    }
    with open(os.path.join(evd, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    for v in found:
        print("KNOWN-FINDING: property=%s %s" % (pid, kn[v.key()]))
    for v in viol:
        print("%s: [%s] %s (%s)%s" % (v.where, v.rule, v.msg, v.fn, " -- " + short(v.path) if v.path else ""))
    for b in broken:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, b))
    if viol:
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    if broken:
        return 2
    print("property %s: %d obligations under %d rules held, %d functions" %
          (pid, sum(c.count.values()), len(c.rules), len(c.functions)))
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
