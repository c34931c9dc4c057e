#!/usr/bin/env python3
"""check.py setup | ID quick|thorough | replay FILE

Exit 0: the property held on everything explored.  Exit 1 with a line
VIOLATION property=ID replay=PATH: it is broken.  Anything else: the check did not work."""
import json, os, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "vlib"))
import run                                                    # noqa: E402

EVID = os.path.join(ROOT, "evidence")
ASSUME = ["the rendering of rule records to table text (vlib/rules.py) is what the records mean",
          "tables and inputs outside the generated families behave alike"]


def checker(pid):
    import engine
    if pid in ("P01", "P02"):
        import session
        return session.check
    if pid == "P22":
        import roundtrip
        return roundtrip.check
    if pid in ("P23", "P24"):
        import files
        return files.check
    if pid in ("P26", "P27"):
        import yamlcheck
        return yamlcheck.check
    if pid == "P25":
        import operands
        return operands.check
    if pid == "P29":
        import cli
        return cli.check
    if pid == "P28":
        import meta
        return meta.check
    if pid in engine.PLANS:
        return engine.check
    raise SystemExit("unknown property " + pid)


def known():
    p = os.path.join(ROOT, "known-findings.txt")
    return [l.strip() for l in open(p)] if os.path.exists(p) else []


def main():
    if sys.argv[1] == "setup":
        run.build()
        run.build_cli()
        return 0
    if sys.argv[1] == "replay":
        import replay
        return replay.main(sys.argv[2])
    pid, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    res = {}

    def report(found, cov, assumptions=ASSUME, still=()):
        res.update(found=found, cov=cov, assumptions=assumptions, still=still)
    checker(pid)(pid, tier, seed, report)
    found = res["found"]
    if run.UNFINISHED:
        res["cov"]["unfinished_parts"] = len(run.UNFINISHED)
    os.makedirs(EVID, exist_ok=True)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": res["cov"],
          "assumptions": res["assumptions"], "wall_s": round(time.time() - t0, 1), "violations": len(found)}
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    for l in known():
        if l.startswith("finding: property=%s " % pid) and any("[%s]" % x in l for x in res["still"]):
            print("KNOWN-FINDING: " + l[len("finding: "):])
    print("%s %s: %s" % (pid, tier, ", ".join("%s %s" % (v, k) for k, v in res["cov"].items() if isinstance(v, int))))
    if not found:
        return 0
    path = os.path.join(EVID, "%s.replay.json" % pid)
    with open(path, "w") as f:
        json.dump({"property": pid, "violations": found[:20]}, f, indent=1, ensure_ascii=False)
    v = found[0]
    print("%d differences; the first: %s" % (len(found), json.dumps({k: v[k] for k in v if k not in ("case", "observed", "files")}, ensure_ascii=False)[:1500]))
    print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1


if __name__ == "__main__":
    try:
        sys.exit(main())
    except run.ToolError as e:
        print("ERROR: %s" % e)
        sys.exit(2)
