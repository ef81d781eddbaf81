#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property of /repo's current tree by static analysis.
exit 0: every obligation discharged; exit 1 + "VIOLATION property=<id> replay=<file>": a construct breaks it;
exit 2: the check itself could not do its work (no verdict)."""
import json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import ir, run, props

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    os.environ["VERIF_TIER"] = tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.environ["VERIF_SEED"] = str(seed)
    t0 = time.time()
    evdir = os.path.join(ir.VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    try:
        res = props.CHECKS[pid](tier)
    except (run.CheckError, ir.BuildError) as e:
        res = props.Result.last
        if res is None or not res.violations:
            print("check error (no verdict): %s" % e)
            return 2
        print("incomplete: %s" % e)
        res.coverage.setdefault("obligations", res.obl); res.coverage.setdefault("discharged", res.dis)
    except Exception:
        print("check error (no verdict): %s" % traceback.format_exc())
        return 2
    known = props.known_findings(pid)
    viol, kf = [], []
    for v in res.violations:
        (kf if any(props.matches(k, v) for k in known) else viol).append(v)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": res.level, "coverage": res.coverage, "wall_s": round(time.time() - t0, 2),
          "assumptions": res.assumptions, "violations": len(viol), "violation_list": viol[:50], "known_findings": kf}
    with open(os.path.join(evdir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    c = res.coverage
    print("%s: %s obligations, %s discharged, %.1f s" % (pid, c.get("obligations"), c.get("discharged"), time.time() - t0))
    for k in kf:
        print("KNOWN-FINDING: property=%s %s %s: %s" % (pid, k["where"], k.get("func", ""), k["msg"]))
    if viol:
        rp = os.path.join(evdir, pid + ".violation.json")
        with open(rp, "w") as f:
            json.dump({"property": pid, "command": "python3 check.py %s %s" % (pid, tier), "violations": viol}, f, indent=1)
        for v in viol[:20]:
            print("  %s (%s) [%s] %s" % (v["where"], v.get("func", "-"), v.get("config", "-"), v["msg"]))
        if len(viol) > 20:
            print("  ... %d more in %s" % (len(viol) - 20, rp))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0

if __name__ == "__main__":
    sys.exit(main())
