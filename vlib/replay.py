"""Observe the executions of a replay file again and judge them again."""
import json, sys, tempfile
import engine, run


def main(path):
    d = json.load(open(path))
    binary, _ = run.build()
    work = tempfile.mkdtemp(prefix="louis-replay")
    cases = []
    for v in d["violations"]:
        if "case" not in v:
            print(json.dumps(v, ensure_ascii=False, indent=1))
            continue
        c = dict(v["case"], id=len(cases) + 1, files=v.get("files") or {},
                 runs=[{"dir": v["direction"], "inp": v["input"], "spans": v.get("spans") or []}])
        if not c.get("tables"):
            c.pop("tables", None)
        cases.append(c)
    if not cases:
        return 0
    run.observe(binary, cases, work)
    cases = engine.collect(cases)
    if "rules" in cases[0]:
        _, bad = run.conform(cases, work)
    else:                # tables as text only: the specification reads them itself
        for c in cases:
            c.update(text=[ord(x) for x in c["src"]], cost=1)
        _, bad = run.shards(cases, ("id", "text", "runs"), work, "LouisText.tla", "LouisText.cfg")
    for i, j, w, detail in bad:
        c = [c for c in cases if c["id"] == i][0]
        print("-----\n%s\n%r: %s\n observed %s\n specified %s" % (c["src"], engine.show(c["runs"][j]), w, c["runs"][j]["obs"], detail))
    run.rmtree(work)
    return 1 if bad else 0
