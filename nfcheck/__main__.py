"""python3 -m nfcheck <property> [--tier quick|thorough]"""
import json
import os
import sys
import time
import traceback

from . import core, registry

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def known_findings():
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: "):
                # known: property=P17 key=<rule|construct> :: what fails
                head, _, what = line[len("known: "):].partition(" :: ")
                prop, _, key = head.partition(" key=")
                out[(prop.replace("property=", "").strip(), key.strip())] = what.strip()
    return out


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    t0 = time.time()
    sys.setrecursionlimit(20000)
    chk = registry.CHECKS[prop]
    try:
        program = core.Program()
        res = core.Result(prop)
        try:
            chk["run"](program, res, tier)
        except (core.AnchorMissing, SyntaxError):
            raise
        except Exception as e:
            # a construct outside the model of the analysis: nothing is claimed about it
            tb = traceback.extract_tb(e.__traceback__)[-1]
            res.unknown("analysis", "%s:%d" % (os.path.basename(tb.filename), tb.lineno),
                        "%s: %s" % (type(e).__name__, e))
        floor = chk.get("min", 1)
        if res.obligations < 1:
            raise core.AnchorMissing("no obligation found for %s" % prop)
    except core.AnchorMissing as e:
        print("ANALYSIS-BROKEN property=%s anchor missing: %s" % (prop, e))
        return 2
    except SyntaxError as e:
        print("ANALYSIS-BROKEN property=%s source does not parse: %s" % (prop, e))
        return 2
    known = known_findings()
    viol, seen = [], []
    for f in res.findings:
        if (prop, f.key) in known:
            seen.append(f)
            print("KNOWN-FINDING: property=%s %s" % (prop, f))
        else:
            viol.append(f)
    for u in res.undecided:
        print("UNDECIDED property=%s %s" % (prop, u))
    wall = time.time() - t0
    cov = {
        "explanation": chk["explanation"],
        "rule": chk["rule"],
        "obligations": res.obligations,
        "discharged": res.discharged,
        "undecided": len(res.undecided),
        "obligations_by_rule": res.rules,
        "confirmed_minimum_on_the_reviewed_tree": floor,
        "modules_parsed": len(program.modules),
        "functions_parsed": sum(1 for _ in program.functions()),
        "source_digest": program.digest(),
        "samples": res.samples[:20] or ["none"],
        "undecided_list": res.undecided[:50],
        "known_findings": [str(f) for f in seen],
    }
    cov.update(res.info)
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": chk.get("level", "other"), "coverage": cov,
        "assumptions": chk.get("assumptions", []),
        "wall_s": round(wall, 3), "violations": len(viol),
    }
    ed = os.environ.get("NFCHECK_EVIDENCE", os.path.join(VERIF, "evidence"))
    os.makedirs(ed, exist_ok=True)
    path = os.path.join(ed, prop + ".json")
    with open(path, "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    if res.obligations < floor:
        print("NOTE property=%s only %d of the %d reviewed obligations were recognised" % (prop, res.obligations, floor))
    print("property=%s obligations=%d discharged=%d undecided=%d violations=%d wall=%.2fs"
          % (prop, res.obligations, res.discharged, len(res.undecided), len(viol), wall))
    if viol:
        rp = os.path.join(ed, prop + ".violations.txt")
        with open(rp, "w") as fh:
            for f in viol:
                fh.write("%s\n" % f)
        for f in viol[:20]:
            print("  %s" % f)
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
