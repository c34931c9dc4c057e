"""Checks decided by the engine specification: conformance of recorded executions (LouisRun.tla)."""
import json, os, random, tempfile, time
import findings, gen, rules, run
from rules import dots_text, txt

# property -> [(family, share, keyword arguments)]
W = gen.WORDS
PLANS = {
    "P02": [("mixed", 3, {}), ("entries", 1, {"classes": True}), ("precedence", 1, {}), ("context", 1, {}), ("multipass", 1, {})],
    "P03": [("mixed", 5, {}), ("nocross", 1, {}), ("context", 2, {}), ("multipass", 3, {}), ("entries", 1, {}), ("caps", 1, {}), ("backward", 1, {}), ("undefined", 1, {})],
    "P04": [("longest", 7, {}), ("entries", 2, {}), ("match", 1, {}), ("context", 1, {}), ("mixed", 1, {}), ("nocross", 2, {}), ("nocross", 1, {"match": True})],
    "P05": [("precedence", 8, {}), ("longest", 1, {}), ("direction", 1, {}), ("entries", 1, {}), ("mixed", 1, {})],
    "P06": [("entries", 6, {"ops": W[:-1]}), ("entries", 2, {}), ("lettersign", 1, {}), ("numbers", 1, {}), ("case", 1, {}), ("mixed", 1, {"must": ("entries",)})],
    "P07": [("entries", 8, {"ops": gen.CLASSED, "classes": True}), ("entries", 2, {"classes": True}), ("mixed", 1, {"must": ("entries",)})],
    "P08": [("direction", 9, {}), ("backward", 1, {}), ("precedence", 1, {}), ("multipass", 1, {})],
    "P09": [("case", 8, {}), ("caps", 1, {}), ("mixed", 2, {"must": ("entries", "caps")})],
    "P10": [("numbers", 9, {}), ("mixed", 2, {"must": ("numbers",)}), ("lettersign", 1, {})],
    "P11": [("caps", 9, {}), ("mixed", 2, {"must": ("caps",)})],
    "P12": [("emphasis", 9, {}), ("mixed", 2, {"must": ("emph",)})],
    "P13": [("lettersign", 9, {}), ("mixed", 2, {"must": ("letsign",)})],
    "P14": [("compbrl", 9, {}), ("mixed", 2, {"must": ("comp",)})],
    "P15": [("nocross", 9, {}), ("mixed", 1, {})],
    "P16": [("punc", 9, {}), ("entries", 1, {"ops": ["prepunc", "postpunc", "always", "word"]}), ("mixed", 1, {"must": ("entries",)})],
    "P17": [("match", 9, {}), ("nocross", 2, {"match": True}), ("mixed", 2, {"must": ("match",)})],
    "P18": [("context", 9, {}), ("nocross", 1, {"match": True}), ("mixed", 2, {"must": ("context",)})],
    "P19": [("multipass", 9, {}), ("mixed", 2, {"must": ("correct", "pass2")})],
    "P20": [("undefined", 9, {}), ("mixed", 1, {"must": ("undefined",)})],
    "P21": [("backward", 9, {}), ("numbers", 1, {}), ("mixed", 1, {"must": ("caps", "numbers")})],
}
QUICK = 1300          # cases of the quick tier
BATCH = 1000         # cases of a batch of the thorough tier
THOROUGH_S = 600


def batch(pid, seed, n):
    """The cases of one batch; which ones depends on the seed only."""
    plan = PLANS[pid]
    total = sum(w for _, w, _ in plan)
    cases = []
    for k, (fam, w, kw) in enumerate(plan):
        rng = random.Random("%s/%s/%d/%s" % (seed, pid, k, fam))
        rules.MAP = {}
        cases += list(getattr(gen, "fam_" + fam)(rng, max(1, round(n * w / total)), **kw))
    rules.MAP = {}
    rng = random.Random("%s/%s/long" % (seed, pid))
    for i, c in enumerate(cases):
        c["id"] = i + 1
        if rng.random() < LONG:
            long_text(c, rng)
    return cases


LONG = 0.04           # share of the tables that get a long text


def repetitions(x, inside=0):
    """(how many repetitions a pattern has, how deep they are nested)"""
    if isinstance(x, list):
        found = [repetitions(y, inside) for y in x]
        return sum(n for n, _ in found), max([inside] + [m for _, m in found])
    if not isinstance(x, dict):
        return 0, inside
    here = x.get("k") in ("star", "plus", "range")
    n, m = repetitions(list(x.values()), inside + here)
    return n + here, m


def long_text(c, rng):
    """A text made of many of the other texts."""
    found = [repetitions([r.get(f) for f in ("pre", "post", "ts")]) for r in c["rules"]]
    if any(m > 1 for _, m in found):       # the patterns would be tried for too long
        return
    d = rng.choice("fffb")
    runs = [r for r in c["runs"] if r["dir"] == d and 0 < len(r["inp"]) < 40]
    if len(runs) < 3:
        return
    n = rng.choice([70, 70, 140, 280, 280, 540])
    if any(k > 1 for k, _ in found):
        n = min(n, 70)
    inp, spans = [], []
    some = rng.sample(runs, min(len(runs), rng.choice([2, 8, 60])))
    while len(inp) < n:
        r = rng.choice(some)
        spans += [dict(s, s=s["s"] + len(inp), e=s["e"] + len(inp)) for s in r["spans"]]
        inp = inp + r["inp"]
    c["runs"].append({"dir": d, "inp": inp, "spans": spans})


LARGE = 2500        # rows; translations that grow beyond it are not worth the time TLC needs for them


def large(o):
    return len(o.get("v") or ()) > 4 * LARGE or sum(len(s[1]) for s in o.get("tr") or ()) > LARGE


def collect(cases):
    """Attach the observations to the runs; runs that were not reached, or grow very large, are dropped."""
    out = []
    for c in cases:
        rs = []
        for r, o in zip(c["runs"], c["obs"]):
            if o["t"] != "skipped" and not large(o):
                r["obs"] = o
                rs.append(r)
        c["runs"] = rs
        if rs:
            out.append(c)
    return out


def confirm(binary, cases, work):
    """A hang or crash counts only if it happens again with the run on its own."""
    for c in cases:
        for i, o in enumerate(c["obs"]):
            if o["t"] in ("hang", "crash"):
                j = {k: c[k] for k in ("src", "tables", "files", "trace") if k in c}
                j.update(id=1, runs=[c["runs"][i]])
                run.observe(binary, [j], work, limit=60)
                c["obs"][i] = j["obs"][0]


def show(r):
    return dots_text(r["inp"]) if r["dir"] == "b" else txt(r["inp"])


def describe(c, i, what, detail):
    r = c["runs"][i]
    v = r["obs"].get("v")
    return {"table": c["src"], "files": {k: v if isinstance(v, str) else v.decode("utf-8", "replace") for k, v in c.get("files", {}).items()},
            "tables": c.get("tables"), "direction": r["dir"], "input": r["inp"], "input_text": show(r), "spans": r["spans"], "differs": what,
            "observed": r["obs"], "specified": detail, "case": {k: c[k] for k in ("rules", "hy", "src", "tables", "trace") if k in c}}


def some(pid, seed, n, binary, work, res):
    """One batch; found, samples and counts go to res."""
    cases = batch(pid, seed, n)
    run.observe(binary, cases, work)
    confirm(binary, cases, work)
    cases = collect(cases)
    st, bad = run.conform(cases, work)
    by = {c["id"]: c for c in cases}
    res.update(st, cases=cases, found=[describe(by[i], j, w, d) for i, j, w, d in bad],
               traces_validated_against_impl=sum(len(c["runs"]) for c in cases))


def check(pid, tier, seed, report):
    """report(violations, coverage): called once at the end."""
    t0 = time.time()
    binary, hook = run.build()
    work = tempfile.mkdtemp(prefix="louis-" + pid)
    stats = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "tables": 0, "backward_runs": 0, "rejected_tables": 0,
             "rows_compared": 0}
    samples, found = [], []
    n = QUICK if tier == "quick" else BATCH
    k = 0
    try:
        while True:
            res = {}
            some(pid, "%d.%d" % (seed, k), n, binary, work, res)
            cases = res["cases"]
            found += res["found"]
            for f in ("states", "transitions", "traces_validated_against_impl"):
                stats[f] += res[f]
            stats["tables"] += len(cases)
            for c in cases:
                stats["backward_runs"] += sum(r["dir"] == "b" for r in c["runs"])
                stats["rejected_tables"] += c["runs"][0]["obs"]["t"] == "err"
                stats["rows_compared"] += sum(len(s[1]) for r in c["runs"] for s in r["obs"].get("tr") or [])
            if not samples:
                rng = random.Random(seed)
                for c in rng.sample(cases, min(3, len(cases))):
                    r = rng.choice(c["runs"])
                    samples.append({"table": c["src"], "direction": r["dir"], "input": show(r), "observed": r["obs"]["t"],
                                    "output": "".join(map(chr, r["obs"].get("v", []))) if r["obs"]["t"] == "out" else None})
            k += 1
            if found or tier == "quick" or time.time() - t0 > THOROUGH_S:
                break
        still = findings.still(pid, binary, work)
    finally:
        run.rmtree(work)
    stats["samples"] = samples
    stats["hook"] = hook
    stats["batches"] = k
    found.sort(key=lambda f: len(f["input"]) + len(f["table"]) / 10)
    report(found, stats, still=still)
