"""P23 and P24: tables in files, against LouisFiles.tla."""
import os, random, re, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import engine, gen, rules, run
from rules import dot_text

CHARS = "abcdefgh"
BAD = ["nosuchop a 1", "sign a", "sign a 1z", "sign ab 1", "sign \\xzz 1", "include", "lencapsphrase x", "match a", 'context "a',
       "swapcd x ab 1", "base uppercase A", "sign a 1-", "nofor", "display", "always a ?", "endcapsphrase 1", "begemphword italic", "class",
       "always \\x00 1", "undefined", "sign a -1", "capsletter 1,2", "always", "emphletter italic g", "noback", "before letter",
       "midnum ,", "attribute x", "swapcc x ab c", "multind", "pass2 @1", "correct \"a"]
BLANK = ["", "   ", "# comment", "  # include nosuch", "\t", "#", "#include n1", " \t#\t"]


def cellno(k):
    return [0x2800 + k] if k < 255 else [0x28ff, 0x2800 + k - 254]


def gen_case(rng, bad):
    ndirs = rng.choice([1, 1, 2, 3])
    names = ["n%d" % i for i in range(rng.choice([2, 3, 4, 6]))] + rng.choice([[], ["sub/n1"], ["n1.ctb", "sub/x.utb"]])
    files, dirs, links = [], [], []

    def newfile():
        files.append({"lines": [], "ok": True})
        return len(files)

    deep = rng.random() < 0.03
    if deep:
        n = rng.choice([62, 63, 64, 65, 70])
        names = ["d%d" % i for i in range(n)]
        ndirs = 1
    for d in range(ndirs):
        ent = []
        for n in names:
            if deep or rng.random() < (0.85 if ndirs == 1 else 0.6):
                k = rng.random()
                if k < 0.03 and not deep:
                    ent.append({"n": n, "f": 0})
                elif k < 0.08 and files and not deep:
                    ent.append({"n": n, "f": rng.randint(1, len(files)), "link": True})
                else:
                    ent.append({"n": n, "f": newfile()})
        dirs.append(ent)
    dics = []
    if rng.random() < 0.25:
        dics = ["h.dic"] if rng.random() < 0.5 else ["h.dic", "sub/i.dic"]
        for nm in dics:
            if rng.random() < (0.6 if bad else 0.9):
                raw = "UTF-8\na1b\n"
                if rng.random() < 0.7:
                    raw = rules.dic_source(dict(gen.rand_hyph(rng, "abc"), bad=0.5 if bad else 0), rng)
                files.append({"lines": [], "ok": not bad or rng.random() < 0.93, "raw": raw})
                dirs[rng.randrange(ndirs)].append({"n": nm, "f": len(files)})

    def find(n):
        for e in dirs:
            for x in e:
                if x["n"] == n and x["f"]:
                    return x["f"]
        return 0
    root = "d0" if deep else rng.choice([n for n in names if find(n)] or names)
    order = {n: i for i, n in enumerate(names)}
    count = 0
    for i, f in enumerate(files):
        if "raw" in f:
            continue
        me = [n for e in dirs for n in [x["n"] for x in e if x["f"] == i + 1]]
        for k in range(rng.choice([0, 1, 2, 3, 5]) if not deep else 1):
            x = rng.random()
            if x < 0.4 or deep:
                count += 1
                w = rng.randrange(len(CHARS))
                f["lines"].append({"k": "rule", "w": w + 1, "n": "", "d": count,
                                   "t": rng.choice(["", "", "  ", "\t"]) + "sign" + rng.choice([" ", " ", "\t", "   "]) + CHARS[w] + rng.choice([" ", "  "]) + "-".join(dot_text(x) for x in cellno(count)) + rng.choice(["", "", " ", " comment"])})
            elif x < 0.55:
                f["lines"].append({"k": "blank", "w": 0, "n": "", "t": rng.choice(BLANK)})
            elif x < 0.6 and dics:
                d = rng.choice(dics)
                f["lines"].append({"k": "dic", "w": 0, "n": d, "t": "include " + d})
            elif x < 0.68 and bad:
                f["lines"].append({"k": "bad", "w": 0, "n": "", "t": rng.choice(BAD)})
            else:
                # includes mostly go to later names: no cycles unless errors are wanted
                lo = max([order[m] for m in me if m in order] + [-1]) if not bad or rng.random() < 0.85 else -1
                pool = [n for n in names if order[n] > lo and (bad or (find(n) and all(order[m] > lo for e in dirs for m in [y["n"] for y in e if y["f"] == find(n)] if m in order)))]
                if bad and rng.random() < 0.1:
                    pool.append("missing%d" % rng.randrange(3))
                if pool:
                    n = rng.choice(pool)
                    f["lines"].append({"k": "inc", "w": 0, "n": n, "t": rng.choice(["", " "]) + "include " + n + rng.choice(["", "", " ", "  comment"])})
        if deep:
            me = me[0]
            j = order[me]
            if j + 1 < len(names):
                f["lines"].insert(rng.randint(0, len(f["lines"])), {"k": "inc", "w": 0, "n": names[j + 1], "t": "include " + names[j + 1]})
        if rng.random() < 0.02:
            f["lines"].insert(rng.randint(0, len(f["lines"])), {"k": "gap", "w": rng.choice([2, 9, 90, 250, 300, 1100]), "n": "", "t": ""})
        if bad and rng.random() < 0.03:
            f["ok"] = False
    r = find(root)
    if r:
        files[r - 1]["lines"].insert(0, {"k": "rule", "w": 0, "n": "", "t": "undefined 12345678"})
    for f in files:
        f["crlf"] = rng.random() < 0.1
        f["end"] = rng.random() < 0.85
    how = rng.choice(["env"] * 6 + ["cwd", "rel"]) if ndirs == 1 else rng.choice(["env", "env", "rel"])
    return {"dirs": dirs, "files": files, "root": root, "how": how, "absroot": rng.random() < 0.15, "gap": rng.random() < 0.2}


def fixed_cases():
    """A few shapes worth having in every run."""
    def rule(w, d):
        return {"k": "rule", "w": w, "n": "", "d": d, "t": "sign %s %s" % (CHARS[w - 1], "-".join(dot_text(x) for x in cellno(d)))}

    def inc(n):
        return {"k": "inc", "w": 0, "n": n, "t": "include " + n}
    bad = lambda t: {"k": "bad", "w": 0, "n": "", "t": t}
    u = {"k": "rule", "w": 0, "n": "", "t": "undefined 12345678"}
    f = lambda *ls: {"lines": list(ls), "ok": True, "crlf": False, "end": True}
    base = {"how": "env", "absroot": False, "gap": False}
    one = lambda *fs: dict(base, dirs=[[{"n": "n%d" % i, "f": i + 1} for i in range(len(fs))]], files=list(fs), root="n0")
    yield one(f(u, inc("n1"), rule(1, 1), inc("n2")), f(rule(2, 2), inc("n3")), f(inc("n3"), rule(3, 3)), f(rule(1, 4), rule(4, 5)))       # diamond
    yield one(f(u, inc("n1"), inc("n1"), inc("n1")), f(rule(1, 1)))
    yield one(f(u, inc("n0")))
    yield one(f(u, inc("n1")), f(inc("n2")), f(inc("n1")))
    yield one(f(u, inc("n1"), inc("n2"), inc("n1")), f(bad("nosuchop"), rule(1, 1), bad("sign a")), f(bad("always"), inc("nowhere")))
    yield one(f(u, inc("n1"), bad("x y z"), inc("n2")), f(bad("a")), f(bad("b")))
    for n in (63, 64, 65):
        yield one(*([f(u, inc("n1"))] + [f(rule(1 + i % 8, i), inc("n%d" % (i + 1))) for i in range(1, n - 1)] + [f(rule(1, 200))]))
    # large files
    gap = lambda n: {"k": "gap", "w": n, "n": "", "t": ""}
    for n in (254, 255, 65534, 70000):
        yield one(f(u, gap(n), rule(1, 1), inc("n1")), f(gap(n), rule(2, 2)))
        yield one(f(u, gap(n), rule(1, 1), bad("sign a"), bad("always")), f())
        yield one(f(u, inc("n1")), f(gap(n), bad("nosuchop"), gap(3), bad("sign a")))
    yield one(f(u, *[bad(BAD[i % 4]) for i in range(300)]))
    yield one(f(u, *[inc("n1")] * 2, inc("n2")), f(*[bad(BAD[i % 3]) for i in range(140)]), f(*[bad(BAD[i % 5]) for i in range(130)]))
    yield one(f(u, *[x for i in range(150) for x in (inc("n1"), rule(1 + i % 7, i + 2))]), f(rule(8, 1)))
    yield one(f(u, *[inc("missing%d" % i) for i in range(120)]))
    yield one(*([f(u, *[inc("n%d" % i) for i in range(1, 150)])] + [f(rule(1 + i % 8, i)) for i in range(1, 150)]))
    yield dict(base, dirs=[[{"n": "n0", "f": 1}], [{"n": "n0", "f": 2}, {"n": "n1", "f": 3}]], files=[f(u, inc("n1")), f(rule(1, 9)), f(rule(1, 1), inc("n0"))], root="n0")
    yield dict(base, dirs=[[{"n": "n0", "f": 1}, {"n": "n1", "f": 0}], [{"n": "n1", "f": 2}]], files=[f(u, inc("n1")), f(rule(1, 9))], root="n0")
    yield dict(base, dirs=[[{"n": "n0", "f": 1}, {"n": "n1", "f": 1, "link": True}]], files=[f(u, inc("n1"))], root="n0")


def build_tree(c, top):
    os.makedirs(top)
    where = {}

    def put(path, f):
        s = "\n".join("\n" * (l["w"] - 1) if l["k"] == "gap" else l["t"] for l in f["lines"])
        if f["end"] and f["lines"]:
            s += "\n"
        s = f.get("raw") or s
        b = s.replace("\n", "\r\n").encode() if f["crlf"] else s.encode()
        if not f["ok"]:
            b = b"\xff\xfe\xff\n" + b
        with open(path, "wb") as h:
            h.write(b)
    for d, ent in enumerate(c["dirs"]):
        base = os.path.join(top, "dir%d" % d)
        os.makedirs(os.path.join(base, "sub"), exist_ok=True)
        for e in ent:
            p = os.path.join(base, e["n"])
            if e["f"] == 0:
                os.makedirs(p, exist_ok=True)
            elif e.get("link"):
                os.symlink(where[e["f"]], p)
            else:
                where[e["f"]] = p
                put(p, c["files"][e["f"] - 1])
    return {os.path.realpath(p): f for f, p in where.items()}


ANCHOR = re.compile(r'path: Some\("((?:[^"\\]|\\.)*)"\), line: (\d+) }$')


def observe(cli, c, top):
    real = build_tree(c, top)
    e = run.env()
    ds = [os.path.join(top, "dir%d" % d) for d in range(len(c["dirs"]))]
    cwd = ds[0] if c["how"] == "cwd" else top
    if c["how"] != "cwd":
        ps = [os.path.relpath(d, top) for d in ds] if c["how"] == "rel" else list(ds)
        if c["gap"]:
            ps.insert(len(ps) // 2, os.path.join(top, "nodir"))
        e["LOUIS_TABLE_PATH"] = ":".join(ps)
    root = c["root"]
    if c["absroot"]:
        for d, ent in enumerate(c["dirs"]):
            if any(x["n"] == root and x["f"] for x in ent):
                root = os.path.join(ds[d], root)
                break

    def call(*args):
        return subprocess.run([cli] + list(args), cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)

    def fid(path):
        return real.get(os.path.realpath(os.path.join(cwd, path)), 0)
    missing = {l["n"] for f in c["files"] for l in f["lines"] if l["k"] in ("inc", "dic")} | {c["root"]}

    def error(line):
        m = re.match(r"(.*?):(\d+): ", line)
        if m and fid(m.group(1)):
            return {"k": "bad", "f": fid(m.group(1)), "l": int(m.group(2)), "n": ""}
        low = line.lower()
        m = re.search(r"hyphenationtableparseerror.*line: (\d+)", low)
        if m:
            return {"k": "pattern", "f": 0, "l": int(m.group(1)), "n": ""}
        if "hyphenationtableparseerror" in low:      # the encoding
            return {"k": "pattern", "f": 0, "l": 1, "n": ""}
        if "circular" in low:
            return {"k": "cycle", "f": 0, "l": 0, "n": ""}
        if "depth" in low:
            return {"k": "deep", "f": 0, "l": 0, "n": ""}
        if "read" in low or "hyphenationtableioerror" in low:
            return {"k": "unreadable", "f": 0, "l": 0, "n": ""}
        names = [n for n in missing if re.search(r'(^|[\s"/])%s($|[\s"])' % re.escape(n), line)]
        return {"k": "missing", "f": 0, "l": 0, "n": max(names, key=len) if names else "?"}
    try:
        p = call("translate", root, CHARS)
        q = call("parse", root)
    except subprocess.TimeoutExpired:
        return {"t": "hang", "raw": ""}
    so, se = p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
    qo, qe = q.stdout.decode("utf-8", "replace"), q.stderr.decode("utf-8", "replace")
    raw = {"translate": [p.returncode, so, se], "parse": [q.returncode, qo[-3000:], qe]}
    if p.returncode < 0 or q.returncode < 0 or "panicked" in se + qe:
        return {"t": "crash", "raw": raw}
    if "could not compile table" in se.lower() and qo and not qe and not so.strip():      # the lines are fine, a dictionary is not
        return {"t": "err", "errs": [error(l) for l in se.splitlines() if l.strip()], "raw": raw}
    if se or qe or not so:
        if so.strip() or qo.strip():
            return {"t": "both", "raw": raw}
        a = [error(l) for l in se.splitlines() if l.strip()]
        b = [error(l) for l in qe.splitlines() if l.strip()]
        if sorted(map(str, a)) != sorted(map(str, b)):
            return {"t": "differs", "raw": raw}
        return {"t": "err", "errs": a, "raw": raw}
    # which line defined each character
    by = {}
    for i, f in enumerate(c["files"]):
        at = 0
        for l in f["lines"]:
            at += l["w"] if l["k"] == "gap" else 1
            if l.get("d"):
                by[tuple(cellno(l["d"]))] = [i + 1, at]
    cs = [ord(x) for x in so.rstrip("\n")]
    defs, k = [], 0
    for _ in CHARS:
        n = 2 if k + 1 < len(cs) and cs[k] == 0x28ff and cs[k + 1] != 0x28ff and (cs[k], cs[k + 1]) in by else 1
        t = tuple(cs[k:k + n])
        defs.append(by.get(t, [0, 0] if t == (0x28ff,) else [-1, -1]))
        k += n
    if k != len(cs):
        defs[-1] = [-1, -1]
    ms = [ANCHOR.search(l) for l in qo.splitlines()]
    listed = all(ms)
    return {"t": "ok", "defs": defs, "listed": listed, "rules": [[fid(m.group(1)), int(m.group(2))] for m in ms] if listed else [], "raw": raw}


def some(rng, n, share_bad, cli, work):
    cases = list(fixed_cases()) + [gen_case(rng, rng.random() < share_bad) for _ in range(n)]
    for i, c in enumerate(cases):
        c["id"] = i + 1

    def one(c):
        top = os.path.join(work, "t%d" % c["id"])
        try:
            return observe(cli, c, top)
        finally:
            run.rmtree(top)
    with ThreadPoolExecutor(run.CORES) as ex:
        for c, o in zip(cases, ex.map(one, cases)):
            c["full"] = o
            c["obs"] = {k: v for k, v in o.items() if k != "raw"}
            c["cost"] = 5 + sum(len(f["lines"]) for f in c["files"])
    for c in cases:
        for f in c["files"]:
            f["lines"] = [dict(l) for l in f["lines"]]
            f["text"] = [ord(x) for x in f.get("raw", "")]
    stats, bad = run.shards(cases, ("id", "dirs", "files", "root", "obs"), work, "LouisFiles.tla", "LouisFiles.cfg")
    return cases, stats, bad


def check(pid, tier, seed, report):
    t0 = time.time()
    cli = run.build_cli()
    work = tempfile.mkdtemp(prefix="louis-" + pid)
    st = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "tables_with_errors": 0, "tables_with_includes": 0}
    found, samples, k = [], [], 0
    try:
        while True:
            rng = random.Random("%d.%d/%s" % (seed, k, pid))
            cases, stats, bad = some(rng, 8000 if tier == "quick" else 4000, 0.15 if pid == "P23" else 0.9, cli, work)
            by = {c["id"]: c for c in cases}
            st["traces_validated_against_impl"] += len(cases)
            st["tables_with_errors"] += sum(c["obs"]["t"] == "err" for c in cases)
            st["tables_with_includes"] += sum(any(l["k"] == "inc" for f in c["files"] for l in f["lines"]) for c in cases)
            for f in stats:
                st[f] += stats[f]
            if not samples:
                samples = [{"dirs": c["dirs"], "files": [[l["t"] for l in f["lines"]] for f in c["files"]], "root": c["root"], "observed": c["obs"]} for c in rng.sample(cases, 3)]
            for i, j, what, detail in bad:
                c = by[i]
                found.append({"dirs": c["dirs"], "table": "\n".join("== file %d: %s" % (k + 1, " | ".join(l["t"] for l in f["lines"])) for k, f in enumerate(c["files"])),
                              "input": [], "root": c["root"], "how": c["how"], "differs": what, "result": c["obs"], "observed": c["full"], "specified": detail})
            k += 1
            if found or tier == "quick" or time.time() - t0 > engine.THOROUGH_S:
                break
    finally:
        run.rmtree(work)
    st.update(samples=samples, batches=k)
    found.sort(key=lambda f: len(f["table"]))
    report(found, st, ["file names, line texts and tree shapes outside the generated ones behave alike",
                       "the messages of louis are assigned to kinds of errors by their wording"])
