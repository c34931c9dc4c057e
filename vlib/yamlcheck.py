"""P26 and P27: the test runner and display tables, against LouisCheck.tla."""
import os, random, re, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import engine, gen, run
from rules import dot_text, txt, esc

BRAILLE = [0x2800 + i for i in (0, 1, 2, 3, 5, 9, 11, 17, 25, 32, 63, 64, 255)]


# ------------------------------------------------------------------ documents as text
def lou(rng, cs):
    """cs in the notation of the tables"""
    out = []
    for c in cs:
        if c == 92:
            out.append("\\\\")
        elif c < 32 or 0x7f <= c < 0xa0 or c in (0x2028, 0x2029, 0x85, 0xfeff, 0xad) or (c < 0x10000 and rng.random() < 0.03):
            out.append("\\x%04x" % c)
        elif c == 32 and rng.random() < 0.1:
            out.append("\\s")
        else:
            out.append(chr(c))
    return "".join(out)


def quote(rng, s):
    plain = s != "" and all(ch.isalnum() or 0x2800 < ord(ch) < 0x2900 for ch in s)
    k = rng.random()
    if plain and k < 0.4:
        return s
    if k < 0.7:
        return "'" + s.replace("'", "''") + "'"
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


def scalar(rng, cs):
    return quote(rng, lou(rng, cs))


def block(text, ind):
    return "|\n" + "".join((" " * ind + l).rstrip() + "\n" for l in text.splitlines())


def test_text(rng, t):
    a = ([quote(rng, rng.choice(["a description", "x", "one: two"]))] if t["desc"] else []) + [scalar(rng, t["inp"]), scalar(rng, t["exp"])]
    opts = []
    x = t["x"]
    if x["k"] == "dirs":
        ds = [(n, x[n[0]]) for n in rng.sample(["forward", "backward"], 2) if x[n[0]] or rng.random() < 0.5]
        opts.append("xfail: {" + ", ".join("%s: %s" % (n, rng.choice(["true", "on", "'a reason'"]) if v else rng.choice(["false", "off"])) for n, v in ds) + "}")
    elif x["v"]:
        opts.append("xfail: " + rng.choice(["true", "on", "some reason", "'another'"]))
    elif rng.random() < 0.2:
        opts.append("xfail: " + rng.choice(["false", "off"]))
    if t["masks"]:
        opts.append("typeform: {" + ", ".join("%s: '%s'" % (m["class"], txt(m["m"])) for m in t["masks"]) + "}")
    if rng.random() < 0.08:
        opts.append(rng.choice(["cursorPos: 0", "cursorPos: [0, 1]", "inputPos: [0, 1, 2]", "outputPos: []", "maxOutputLength: 3", "realInputLength: 2",
                                "expected_typeform: {italic: '+'}"]))
    rng.shuffle(opts)
    if opts and rng.random() < 0.5:
        return "  - - %s\n" % a[0] + "".join("    - %s\n" % y for y in a[1:]) + "    - " + "\n      ".join(opts) + "\n"
    return "  - [" + ", ".join(a + (["{" + ", ".join(opts) + "}"] if opts else [])) + "]\n"


class World:
    """The tables, display tables and documents of one group."""

    def __init__(self, rng, gid, tables):
        self.rng, self.gid = rng, gid
        self.tabs, self.disps, self.files = [], [], {}
        self.pool = tables

    def name(self, kind):
        return "g%d%s%d" % (self.gid, kind, len(self.files))

    def put(self, kind, text):
        n = self.name(kind)
        self.files[n] = text
        return n

    def pieces(self, kind, lines):
        """lines in two or three files"""
        cut = sorted(self.rng.randint(0, len(lines)) for _ in range(self.rng.choice([1, 2])))
        return [self.put(kind, "\n".join(lines[a:b]) + "\n") for a, b in zip([0] + cut, cut + [len(lines)])]

    def table(self):
        """A new table item: its text and index"""
        rng = self.rng
        c = rng.choice(self.pool)
        ok, rules, lines = True, c["rules"], c["src"].splitlines()
        k = rng.random()
        if k < 0.4:
            n = self.put("t.utb", c["src"])
            t = "table: %s\n" % quote(rng, n) if rng.random() < 0.7 else "table:\n  __assert-match: %s\n" % n
        elif k < 0.65:
            t = "table: [%s]\n" % ", ".join(self.pieces("t.utb", lines))
        else:
            t = "table: " + block("".join(("# a comment\n" if rng.random() < 0.05 else "") + l + "\n" for l in lines), 2)
        if rng.random() < 0.02:
            ok = False
            t = rng.choice(["table: nosuch.utb\n", "table: {language: en, grade: 2}\n", "table: |\n  nosuchop a 1\n", "table: [nosuch.utb]\n",
                            "table: [%s, nosuch.utb]\n" % self.put("t.utb", c["src"])])
        self.tabs.append({"ok": ok, "rules": rules, "case": c})
        return t, len(self.tabs)

    def display(self, cs):
        """A display table for characters and cells in use"""
        rng = self.rng
        rules, lines = [], []
        cells = [x for x in cs if 0x2800 <= x < 0x2900] or BRAILLE
        chars = [ord(x) for x in "abcABC1,.* "] + [x for x in cs if x < 0x2800][:6] + [0xe9, 0x1f600, 0x2801]
        many = rng.random() < 0.02
        chars += [0x3400 + i for i in range(90)] if many else []
        for _ in range(rng.choice([0, 1, 3, 6, 12]) if not many else rng.choice([40, 140, 300])):
            r = {"ch": rng.choice(chars), "d": rng.choice(cells if rng.random() < 0.85 else BRAILLE), "dir": rng.choice(["both"] * 4 + ["nofor", "noback"])}
            rules.append(r)
            lines.append(("" if r["dir"] == "both" else r["dir"] + " ") + "display %s %s" % (esc([r["ch"]]), dot_text(r["d"])))
        for _ in range(rng.choice([0, 0, 1])):
            lines.insert(rng.randint(0, len(lines)), rng.choice(["sign a 1", "# comment", "always ab 12", ""]))
        ok = True
        k = rng.random()
        if k < 0.35:
            t = "display: %s\n" % quote(rng, self.put("d.dis", "\n".join(lines) + "\n"))
        elif k < 0.5:
            t = "display: %s\n" % ",".join(self.pieces("d.dis", lines))
        elif k < 0.65:
            t = "display: [%s]\n" % ", ".join(self.pieces("d.dis", lines))
        else:
            t = "display: " + block("\n".join(lines or ["# nothing"]), 2)
        if rng.random() < 0.02:
            ok = False
            t = rng.choice(["display: nosuch.dis\n", "display: |\n  display ab 1\n", "display: [nosuch.dis]\n"])
        self.disps.append({"ok": ok, "rules": rules})
        return t, len(self.disps)


def shown(rules, s, d):
    m = {}
    for r in rules:
        if r["dir"] != ("nofor" if d == "f" else "noback"):
            a, b = (r["d"], r["ch"]) if d == "f" else (r["ch"], r["d"])
            m.setdefault(a, b)
    return [m.get(c, c) for c in s]


def make_test(rng, w, tabs, disp, mode):
    t = {"desc": rng.random() < 0.2, "masks": []}
    t["inp"], t["exp"] = [], []
    if tabs:
        runs = w.tabs[rng.choice(tabs) - 1]["case"]["runs"]
        want = "b" if mode == "backward" else "f"
        rs = [r for r in runs if r["dir"] == want and r["obs"]["t"] == "out"] or [{"inp": [97], "obs": {"v": [0x2801]}, "spans": []}]
        r = rng.choice(rs)
        t["inp"], t["exp"] = list(r["inp"]), list(r["obs"]["v"])
        if r["spans"]:
            for cl in dict.fromkeys(s["class"] for s in r["spans"]):
                m = [45] * (len(r["inp"]) + rng.choice([0, 0, 1]))
                for s in r["spans"]:
                    if s["class"] == cl:
                        for j in range(s["s"], min(s["e"], len(m))):
                            m[j] = 43
                t["masks"].append({"class": cl, "m": m})
        elif rng.random() < 0.06:
            t["masks"].append({"class": rng.choice(["italic", "bold", "nosuch"]), "m": [rng.choice([43, 45, 32]) for _ in range(rng.randint(0, len(t["inp"]) + 1))]})
        if disp and want == "f":
            t["exp"] = shown(w.disps[disp - 1]["rules"], t["exp"], "f")
        if disp and want == "b":       # what is shown as the input
            back = {}
            for q in w.disps[disp - 1]["rules"]:
                if q["dir"] != "noback":
                    back.setdefault(q["ch"], q["d"])
            inv = {}
            for a, b in back.items():
                inv.setdefault(b, a)
            if rng.random() < 0.7:
                t["inp"] = [inv.get(x, x) for x in t["inp"]]
    if rng.random() < 0.35:
        e = t["exp"]
        k = rng.random()
        if k < 0.3 and e:
            del e[rng.randrange(len(e))]
        elif k < 0.6:
            e.insert(rng.randint(0, len(e)), rng.choice([0x2801, 97, 32]))
        elif k < 0.8 and e:
            e[rng.randrange(len(e))] = rng.choice([0x2800, 0x2803, 98])
        else:
            t["exp"] = []
    if rng.random() < 0.25:
        t["x"] = {"k": "dirs", "f": rng.random() < 0.5, "b": rng.random() < 0.5}
    else:
        t["x"] = {"k": "all", "v": rng.random() < 0.35}
    return t


def document(rng, w, pid):
    items, out = [], ["---\n"] if rng.random() < 0.3 else []
    tabs, disp, mode, prev = [], 0, "forward", False
    shared = None
    n = rng.choice([3, 5, 7, 10])
    script = ["table", "tests"] if rng.random() < 0.3 else ["display", "table", "tests"] if rng.random() < 0.6 else []
    while len(script) < n:
        script.append(rng.choice(["display", "table", "table", "mode", "mode", "tests", "tests", "tests"] if pid == "P26" else ["display", "display", "table", "mode", "tests", "tests"]))
    for what in script:
        if what == "display":
            used = [c for t in tabs for r in w.tabs[t - 1]["case"]["runs"] for c in r["inp"] + r["obs"].get("v", [])] or \
                [c for x in w.pool for r in x["runs"][:9] for c in r["inp"] + r["obs"].get("v", [])]
            t, v = w.display(rng.sample(used, min(len(used), 12)))
            items.append({"k": "display", "v": v})
            disp, prev = v, False
        elif what == "table":
            if shared and rng.random() < 0.25:
                t, v = shared
            else:
                t, v = w.table()
            shared = (t, v)
            items.append({"k": "table", "v": v})
            tabs = tabs + [v] if prev else [v]
            prev = True
        elif what == "mode":
            mode = rng.choice(["forward", "backward", "backward", "bothDirections", "bothDirections", "hyphenate", "display", "hyphenateBraille"])
            t = "flags: {testmode: %s}\n" % mode
            items.append({"k": "mode", "m": mode})
            prev = False
        else:
            ts = [make_test(rng, w, tabs, disp, mode) for _ in range(rng.choice([0, 1, 2, 3, 5, 8]) if rng.random() < 0.9 else 20 if rng.random() < 0.97 else rng.choice([101, 270]))]
            t = "tests:\n" + "".join(test_text(rng, x) for x in ts) if ts else "tests: []\n"
            items.append({"k": "tests", "ts": [{f: x[f] for f in ("inp", "exp", "x", "masks")} for x in ts]})
            prev = False
        out.append(t)
        if rng.random() < 0.05:
            out.append("# a comment\n")
    if rng.random() < 0.05:
        items.append({"k": "bad"})
        out.append(rng.choice(["nosuch: x\n", "flags: {testmode: nosuch}\n", "flags: {mode: forward}\n", "tests: x\n", "tests:\n  - [a]\n",
                               "tests:\n  - [a, b, {xfail: {sideways: true}}]\n", "tests:\n  - [a, b, {nosuch: 1}]\n", "tests:\n  - ['\\xz', b]\n",
                               "tests:\n  - [a, b, {mode: [nosuch]}]\n", "tests:\n  - [a, b, {cursorPos: x}]\n", "table: [[a]]\n", "tests: [\n"]))
    text = "".join(out)
    return items, text if items else "{}\n"


# ------------------------------------------------------------------ the program
FIELD = re.compile(r'(\w+): (?:"((?:[^"\\]|\\.)*)"|(\w+))')
UNI = {"n": "\n", "t": "\t", "r": "\r", "0": "\0", '"': '"', "\\": "\\", "'": "'"}


def undebug(s):
    return re.sub(r"\\(u\{([0-9a-fA-F]+)\}|.)", lambda m: chr(int(m.group(2), 16)) if m.group(2) else UNI[m.group(1)], s)


def result(line):
    m = re.match(r"(Failure|ExpectedFailure|UnexpectedSuccess) \{ (.*) \}$", line)
    if not m:
        return None
    f = {a: (undebug(b) if not c else c) for a, b, c in FIELD.findall(m.group(2))}
    return {"k": {"F": "F", "E": "X", "U": "U"}[m.group(1)[0]], "inp": [ord(x) for x in f["input"]], "exp": [ord(x) for x in f.get("expected", "")],
            "act": [ord(x) for x in f.get("actual", "")], "dir": {"Forward": "f", "Backward": "b"}[f["direction"]]}


def row(line):
    x = [y.strip() for y in line.split("│")]
    if len(x) < 7 or not x[2].isdigit():
        return None
    p = [] if any("NaN" in y for y in x[3:7]) else [round(float(y.rstrip("%")) * 10) for y in x[3:7]]
    return x[1], {"t": "ok", "n": int(x[2]), "p": p}


def observe(cli, g, work):
    e = run.env()
    e["LOUIS_TABLE_PATH"] = work
    names = g["names"]

    def call(*args):
        return subprocess.run([cli, "check"] + list(args) + [os.path.join(work, n) for n in names], cwd=work, env=e, stdin=subprocess.DEVNULL,
                              stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    try:
        p, q = call(), call("--summary")
    except subprocess.TimeoutExpired:
        return {"t": "hang"}, {}
    so, se = p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
    qo, qe = q.stdout.decode("utf-8", "replace"), q.stderr.decode("utf-8", "replace")
    raw = {"results": so[-4000:], "summary": qo[-4000:], "errors": se[-2000:]}
    if p.returncode < 0 or q.returncode < 0 or "panicked" in se + qe:
        return {"t": "crash"}, raw
    fails = [result(l) for l in so.splitlines()]
    if None in fails:
        return {"t": "unreadable"}, raw
    rows = dict(filter(None, map(row, qo.splitlines())))
    if "Total" not in rows:
        return {"t": "unreadable"}, raw
    nothing = {"t": "error", "n": 0, "p": []}
    errs = [any(os.path.join(work, n) in l for l in qe.splitlines()) for n in names]
    sums = [rows.get(n, nothing) for n in names]
    if any(b != (s["t"] == "error") for b, s in zip(errs, sums)) or qe.count("\n") != se.count("\n"):
        return {"t": "messages"}, raw
    return {"t": "ok", "fails": fails, "sums": sums, "total": rows["Total"]}, raw


def tables(rng, seed, n, binary, work):
    """Tables with what they make of some texts (this is only used to invent tests that succeed)."""
    cs = []
    for fam, share in (("mixed", 0.4), ("entries", 0.1), ("caps", 0.1), ("emphasis", 0.1), ("numbers", 0.1), ("backward", 0.1), ("multipass", 0.1)):
        cs += list(getattr(gen, "fam_" + fam)(rng, max(1, int(n * share))))
    for i, c in enumerate(cs):
        c["id"] = i + 1
        f, b = [r for r in c["runs"] if r["dir"] == "f"], [r for r in c["runs"] if r["dir"] == "b"]
        f = [r for r in f if len(r["inp"]) > 1] or f
        c["runs"] = rng.sample(f, min(14, len(f))) + rng.sample(b, min(10, len(b)))
        c["trace"] = False
    run.observe(binary, cs, work)
    out = []
    for c in cs:
        for r, o in zip(c["runs"], c["obs"]):
            r["obs"] = o
        if c["src"].isprintable() or all(ch == "\n" or ch.isprintable() or 0x2800 <= ord(ch) < 0x2900 for ch in c["src"]):
            out.append(c)
    return out


def some(pid, seed, n, cli, binary, work):
    rng = random.Random("%s/%s" % (seed, pid))
    pool = tables(rng, seed, max(40, n // 2), binary, work)
    good = [c for c in pool if all(r["obs"]["t"] != "err" for r in c["runs"])]
    groups = []
    for g in range(n):
        use = rng.sample(good, 3) + ([rng.choice(pool)] if rng.random() < 0.1 else [])
        w = World(rng, g, use)
        docs, names = [], []
        for d in range(rng.choice([1, 1, 2, 3])):
            items, text = document(rng, w, pid)
            name = "g%dy%d.yaml" % (g, d)
            w.files[name] = text
            docs.append(items)
            names.append(name)
        for name, text in w.files.items():
            with open(os.path.join(work, name), "w") as f:
                f.write(text)
        groups.append({"id": g + 1, "docs": docs, "names": names, "files": w.files, "tabs": [{"ok": t["ok"], "rules": t["rules"] if t["ok"] else []} for t in w.tabs],
                       "disps": w.disps})
    with ThreadPoolExecutor(run.CORES) as ex:
        for g, (o, raw) in zip(groups, ex.map(lambda g: observe(cli, g, work), groups)):
            g["obs"], g["raw"] = o, raw
    for g in groups:
        g["cost"] = 30 + sum(len(t["rules"]) * 3 for t in g["tabs"]) + sum((8 + len(t["inp"])) * 30 for d in g["docs"] for i in d if i["k"] == "tests" for t in i["ts"])
    stats, bad = run.shards(groups, ("id", "docs", "tabs", "disps", "obs"), work, "LouisCheck.tla", "LouisCheck.cfg")
    return groups, stats, bad


def check(pid, tier, seed, report):
    t0 = time.time()
    cli = run.build_cli()
    binary, _ = run.build()
    work = tempfile.mkdtemp(prefix="louis-" + pid)
    st = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "documents": 0, "documents_with_errors": 0, "tests": 0, "listed_results": 0}
    found, samples, k = [], [], 0
    try:
        while True:
            groups, stats, bad = some(pid, "%d.%d" % (seed, k), 1500 if tier == "quick" else 500, cli, binary, work)
            by = {g["id"]: g for g in groups}
            for f in stats:
                st[f] += stats[f]
            st["traces_validated_against_impl"] += len(groups)
            for g in groups:
                st["documents"] += len(g["docs"])
                if g["obs"]["t"] == "ok":
                    st["documents_with_errors"] += sum(s["t"] == "error" for s in g["obs"]["sums"])
                    st["tests"] += g["obs"]["total"]["n"]
                    st["listed_results"] += len(g["obs"]["fails"])
            if not samples:
                samples = [{"documents": [g["files"][n] for n in g["names"]], "observed": g["raw"]} for g in rng_sample(groups, seed)]
            for i, j, what, detail in bad:
                g = by[i]
                found.append({"files": g["files"], "table": "".join(g["files"].values()), "input": [], "documents": g["names"], "differs": what,
                              "observed": g["raw"], "result": g["obs"] if g["obs"]["t"] != "ok" else g["obs"]["sums"], "specified": detail})
            k += 1
            if found or tier == "quick" or time.time() - t0 > engine.THOROUGH_S:
                break
    finally:
        run.rmtree(work)
    st.update(samples=samples, batches=k)
    found.sort(key=lambda f: len(f["table"]))
    report(found, st, ["the rendering of documents to YAML (vlib/yamlcheck.py) is what the items mean",
                       "documents outside the generated ones behave alike"])


def rng_sample(xs, seed):
    return random.Random(seed).sample(xs, min(2, len(xs)))
