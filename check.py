#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property from the source in /repo."""
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sa"))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True


def known(pid):
    """{(clause, construct): text} of the recorded findings of this property"""
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("KNOWN-FINDING: property=%s " % pid):
                rest = line.strip().split(" ", 2)[2]
                key, _, text = rest.partition(" :: ")
                clause, _, construct = key.partition(" @ ")
                out[(clause.strip(), construct.strip())] = text.strip()
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    import engine
    import harness
    import rules
    if tier == "thorough":
        engine.CAP = 160
    fn, meta = harness.RULES[pid]
    try:
        ck = harness.Check(pid, tier)
        try:
            fn(ck)
        except (engine.Budget, RecursionError) as b:
            if engine.CAP < 400 and not ck.findings:
                engine.CAP = 400
                ck = harness.Check(pid, tier)
                try:
                    fn(ck)
                except (engine.Budget, RecursionError) as b2:
                    ck.incomplete.append(str(b2))
            else:
                ck.incomplete.append(str(b))
        ck.finish()
    except harness.AnalysisBroken as x:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, x))
        return 2
    kn = known(pid)
    viol = 0
    ev = os.path.join(HERE, "evidence")
    os.makedirs(os.path.join(ev, "replay"), exist_ok=True)
    for (clause, construct), (msg, trace) in ck.findings.items():
        if (clause, construct) in kn:
            print("KNOWN-FINDING: property=%s %s @ %s: %s" % (pid, clause, construct, kn[(clause, construct)]))
            continue
        viol += 1
        path = os.path.join(ev, "replay", "%s-%d.txt" % (pid, viol))
        with open(path, "w") as f:
            f.write("property %s\nrule: %s\nconstruct: %s\n%s\n\nabstract path (line: step):\n" % (pid, clause, construct, msg))
            f.write("\n".join("  " + t for t in trace) + "\n")
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  [%s] %s: %s" % (clause, construct, msg))
    for x in ck.incomplete:
        print("INCOMPLETE property=%s not explored completely: %s" % (pid, x))
    obl, bad = sum(ck.obl.values()), sum(ck.bad.values())
    out = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": {
            "explanation": "Abstract interpretation of the current source of /repo/request_parser; one obligation per abstract "
                           "path (or construct) and clause. " + meta.get("what", ""),
            "obligations": obl, "discharged": max(0, obl - bad),
            "clauses": {k: {"obligations": v, "failed": ck.bad.get(k, 0)} for k, v in sorted(ck.obl.items())},
            "functions_analysed": sorted(ck.analysed), "abstract_paths": ck.npaths, "call_sites_interpreted": ck.ncalls,
            "loops": ck.nloops, "steps": ck.nsteps, "incomplete": ck.incomplete, "notes": ck.notes,
            "known_findings": sum(1 for k in ck.findings if k in kn),
        },
        "assumptions": meta.get("assumes", []) + ck.assumptions,
        "wall_s": round(time.time() - t0, 3), "violations": viol,
    }
    with open(os.path.join(ev, pid + ".json"), "w") as f:
        json.dump(out, f, indent=1)
        f.write("\n")
    if not viol:
        print("OK property=%s obligations=%d functions=%d paths=%d %.1fs" % (pid, obl, len(ck.analysed), ck.npaths, time.time() - t0))
    return 1 if viol else 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % sys.argv[1])
        rc = 2
    sys.exit(rc)
