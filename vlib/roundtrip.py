"""P22: forward and back, against LouisRound.tla."""
import json, random, tempfile, time
import engine, gen, run
from rules import dots_text, txt


def some(rng, n, binary, work):
    cases = list(gen.fam_round(rng, n))
    for i, c in enumerate(cases):
        c["id"] = i + 1
    run.observe(binary, cases, work)
    engine.confirm(binary, cases, work)
    back = []
    for c in cases:
        rs = [dict(r, mid=o) for r, o in zip(c["runs"], c["obs"]) if o["t"] != "skipped"]
        c["runs"] = rs
        back.append({"id": c["id"], "src": c["src"], "runs": [{"dir": "b", "inp": r["mid"].get("v", []), "spans": []} for r in rs]})
    run.observe(binary, back, work)
    engine.confirm(binary, back, work)
    for c, b in zip(cases, back):
        for r, o in zip(c["runs"], b["obs"]):
            r["obs"] = o
        c["runs"] = [r for r in c["runs"] if r["obs"]["t"] != "skipped"]
        c["cost"] = 20 + sum(2 * len(r["inp"]) + 4 for r in c["runs"]) * (5 + len(c["rules"]))
    stats, bad = run.shards(cases, ("id", "rules", "runs"), work, "LouisRound.tla", "LouisRound.cfg")
    return cases, stats, bad


def check(pid, tier, seed, report):
    t0 = time.time()
    binary, hook = run.build()
    work = tempfile.mkdtemp(prefix="louis-" + pid)
    st = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "tables": 0}
    found, samples, k = [], [], 0
    try:
        while True:
            rng = random.Random("%d.%d/%s" % (seed, k, pid))
            cases, stats, bad = some(rng, 600 if tier == "quick" else 400, binary, work)
            by = {c["id"]: c for c in cases}
            st["tables"] += len(cases)
            st["traces_validated_against_impl"] += sum(len(c["runs"]) for c in cases)
            for f in stats:
                st[f] += stats[f]
            if not samples:
                for c in rng.sample(cases, 3):
                    r = rng.choice(c["runs"])
                    samples.append({"table": c["src"], "text": txt(r["inp"]), "braille": txt(r["mid"].get("v", [])), "back": txt(r["obs"].get("v", []))})
            for i, j, what, detail in bad:
                r = by[i]["runs"][j]
                found.append({"table": by[i]["src"], "input": r["inp"], "input_text": txt(r["inp"]), "differs": what,
                              "braille": dots_text(r["mid"].get("v", [])), "observed": r["obs"], "specified": detail})
            k += 1
            if found or tier == "quick" or time.time() - t0 > engine.THOROUGH_S:
                break
    finally:
        run.rmtree(work)
    st.update(samples=samples, batches=k)
    found.sort(key=lambda f: len(f["input"]) + len(f["table"]) / 10)
    report(found, st)
