"""P28: metadata queries, against LouisMeta.tla."""
import os, random, re, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import engine, run

KEYS = ["language", "grade", "type", "dots", "Type", "region", "k1", "2"]
VALS = ["en", "en-US", "2", "literary", "de", "EN", "6", "a:b", "x=y", "no", "\u00e9", "forward", "~", "!"]


def line(rng):
    k, v = rng.choice(KEYS[:4] if rng.random() < 0.7 else KEYS), rng.choice(VALS[:5] if rng.random() < 0.7 else VALS)
    x = rng.random()
    if x < 0.6:
        return "#+" + rng.choice(["", "", " ", "\t", "\u00a0", "\u3000"]) + k + rng.choice(["", "", " "]) + ":" + rng.choice(["", " ", "  ", "\t"]) + v + rng.choice(["", "", " ", "\t "])
    if x < 0.7:
        return rng.choice([" #+%s: %s", "#-%s: %s", "# +%s: %s", "#%s: %s", "#+%s %s", "#+%s=%s", "%s: %s", "++%s: %s", "#++%s: %s", "\ufeff#+%s: %s"]) % (k, v)
    if x < 0.8:
        return rng.choice(["#+%s:", "#+:%s", "#+%s: ", "#+ : %s", "#+%s-x: en", "#+%s x: en", "#+%s: en de", "#+%s: e\u00e9", "#+%s_y:en", "#+%s:\ten\tx",
                           "#+%s: a b", "#+%s.: a", "#+\u00e9%s: a", "#+%s:\x7f", "#+%s::en", "#+%s: :en"]) % rng.choice([k, v, k])
    return rng.choice(["", "# a comment", "sign a 1", "#+", "#", "include x", ":", "#+:", "letter + 23"])


def gen_case(rng):
    dirs, nf = [], 0
    large = rng.random() < 0.01
    same = rng.random() < 0.4        # the same names in several directories
    for d in range(rng.choice([1, 1, 1, 2, 3])):
        ent = []
        for i in range(rng.choice([0, 1, 2, 3, 4, 6]) if not large else rng.choice([6, 20, 90])):
            nf += 1
            k = rng.random()
            ls = [line(rng) for _ in range(rng.choice([0, 1, 2, 3, 4, 6]))]
            if large:
                ls = [y for x in ls for y in [x] + [rng.choice(["", "sign a 1", "# comment"])] * rng.choice([0, 0, 0, 120, 300])]
                ls += ["#+k%d: v%d" % (j, j % 3) for j in range(rng.choice([0, 0, 0, 0, 0, 0, 150]))]
            text = ""
            for l in ls:
                text += l + (rng.choice(["\n"] * 12 + ["\r\n", "\r\n", "\r"]))
            if rng.random() < 0.3:
                text = text.rstrip("\n")
            ent.append({"f": nf, "k": "dir" if k < 0.06 else "binary" if k < 0.12 else "text", "s": [ord(c) for c in text],
                        "n": rng.choice(["t%d.utb", "t%d.ctb", "t%d.tbl", "t%d", ".t%d.utb", "t%d.txt", "t%d x.utb"] if not same else ["t%d.utb"]) % (i if same else nf), "link": rng.random() < 0.06})
        dirs.append({"gone": False, "ent": ent})
    if rng.random() < 0.04:
        dirs.insert(rng.randint(0, len(dirs)), {"gone": True, "ent": []})
    said, each = [], []
    for d in dirs:
        for x in d["ent"]:
            each.append([])
            for l in "".join(map(chr, x["s"])).splitlines():
                m = re.match(r"#\+\s*(\w+)\s*:\s*(\S+)\s*$", l)
                if m and "," not in l:
                    said.append("%s=%s" % (m.group(1), m.group(2)))
                    each[-1].append(said[-1])
    qs = []
    for _ in range(rng.choice([3, 5, 8])):
        ps = []
        most = rng.choice(each) if each and rng.random() < 0.6 else []
        for _ in range(rng.choice([1, 1, 2, 2, 3, 3, 4, 6] if not large else [3, 12, 40])):
            x = rng.random()
            if x < 0.55 and most:       # several that one table has
                ps.append(rng.choice(most))
            elif x < 0.8 and said:
                ps.append(rng.choice(said))
            elif x < 0.9:
                ps.append("%s=%s" % (rng.choice(KEYS), rng.choice(VALS)))
            else:
                ps.append(rng.choice(["", "x", "=", "language=", "=en", " language=en", "language= en", "language=en ", "language==en", "language:en"]))
        qs.append({"q": [ord(c) for c in ",".join(ps)]})
    return {"dirs": dirs, "queries": qs, "how": rng.choice(["env"] * 5 + ["cwd", "rel"]), "twice": rng.random() < 0.05}


STR = re.compile(r'"((?:[^"\\]|\\.)*)"')


def observe(cli, c, top):
    os.makedirs(top)
    where = {}
    outside = os.path.join(top, "outside")
    os.makedirs(outside)
    for i, d in enumerate(c["dirs"]):
        p = os.path.join(top, "dir%d" % i)
        if d["gone"]:
            continue
        os.makedirs(p)
        for x in d["ent"]:
            f = os.path.join(p, x["n"])
            where[f] = x["f"]
            text = "".join(map(chr, x["s"])).encode()
            if x["k"] == "dir":
                os.makedirs(f)
                with open(os.path.join(f, "inner.utb"), "wb") as h:
                    h.write(text or b"#+language: en\n")
                continue
            if x["k"] == "binary":
                text += b"\n\xff\xfe\n"
            g = os.path.join(outside, "o%d" % x["f"]) if x["link"] else f
            with open(g, "wb") as h:
                h.write(text)
            if x["link"]:
                os.symlink(g, f)
    e = run.env()
    how = c["how"] if len(c["dirs"]) == 1 and not c["dirs"][0]["gone"] else "env"
    cwd = os.path.join(top, "dir0") if how == "cwd" else top
    if how != "cwd":
        ps = ["dir%d" % i if how == "rel" else os.path.join(top, "dir%d" % i) for i in range(len(c["dirs"]))]
        e["LOUIS_TABLE_PATH"] = ":".join(ps + (ps[:1] if c["twice"] else []))
    raws = []
    for q in c["queries"]:
        s = "".join(map(chr, q["q"]))
        try:
            p = subprocess.run([cli, "query", "--", s], cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        except subprocess.TimeoutExpired:
            q["obs"] = {"t": "hang", "f": []}
            continue
        so, se = p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
        raws.append([s, so, se])
        if p.returncode < 0 or "panicked" in se:
            q["obs"] = {"t": "crash", "f": []}
        elif se:
            q["obs"] = {"t": "both" if so.strip() else "noindex" if "index" in se else "invalid", "f": []}
        else:
            fs = [where.get(os.path.normpath(os.path.join(cwd, f.replace('\\"', '"'))), 0) for f in STR.findall(so)]
            q["obs"] = {"t": "ok", "f": fs}
    return raws


def some(seed, n, cli, work):
    rng = random.Random(seed)
    cases = [gen_case(rng) for _ in range(n)]
    for i, c in enumerate(cases):
        c["id"] = i + 1

    def one(c):
        top = os.path.join(work, "m%d" % c["id"])
        try:
            return observe(cli, c, top)
        finally:
            run.rmtree(top)
    with ThreadPoolExecutor(run.CORES) as ex:
        for c, raw in zip(cases, ex.map(one, cases)):
            c["raw"] = raw
            c["cost"] = 3 + sum(len(x["s"]) for d in c["dirs"] for x in d["ent"]) + 10 * len(c["queries"])
    stats, bad = run.shards(cases, ("id", "dirs", "queries"), work, "LouisMeta.tla", "LouisMeta.cfg")
    return cases, stats, bad


def check(pid, tier, seed, report):
    t0 = time.time()
    cli = run.build_cli()
    work = tempfile.mkdtemp(prefix="louis-" + pid)
    st = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "answers_with_tables": 0, "files": 0}
    found, samples, k = [], [], 0

    def tell(c):
        return [{"dir": d["gone"] and "does not exist" or i, "files": {x["n"]: (x["k"], "".join(map(chr, x["s"]))) for x in d["ent"]}} for i, d in enumerate(c["dirs"])]
    try:
        while True:
            cases, stats, bad = some("%d.%d/%s" % (seed, k, pid), 2500 if tier == "quick" else 2500, cli, work)
            by = {c["id"]: c for c in cases}
            for f in stats:
                st[f] += stats[f]
            st["traces_validated_against_impl"] += sum(len(c["queries"]) for c in cases)
            st["answers_with_tables"] += sum(bool(q["obs"]["f"]) for c in cases for q in c["queries"])
            st["files"] += sum(len(d["ent"]) for c in cases for d in c["dirs"])
            if not samples:
                rng = random.Random(seed)
                samples = [{"tree": tell(c), "answers": c["raw"]} for c in rng.sample(cases, 2)]
            for i, j, what, detail in bad:
                c = by[i]
                found.append({"table": str(tell(c)), "input": c["queries"][j]["q"], "input_text": "".join(map(chr, c["queries"][j]["q"])), "differs": what,
                              "observed": c["raw"], "result": c["queries"][j]["obs"], "specified": detail})
            k += 1
            if found or tier == "quick" or time.time() - t0 > engine.THOROUGH_S:
                break
    finally:
        run.rmtree(work)
    st.update(samples=samples, batches=k)
    found.sort(key=lambda f: len(f["table"]))
    report(found, st, ["directory trees, metadata lines and queries outside the generated ones behave alike"])
