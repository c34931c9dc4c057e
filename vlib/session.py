"""P01 and P02: recorded sessions against LouisSession.tla."""
import json, os, random, tempfile, time
import engine, gen, run
from rules import cps, txt

FAMS = ["entries", "precedence", "longest", "case", "numbers", "caps", "emphasis", "lettersign", "compbrl", "punc", "match",
        "context", "multipass", "undefined", "backward", "direction", "mixed", "nocross"]

FRAG = ["a", "b", "ab", "\\s", "\\x0061", "\\y10000", "\\z0001f600", "\\", "\\x", "\\xzz", "\\xd83d\\xde00", "\\e", "\\t", "=", "0", "1", "12", "1-2",
        "1-", "-1", "9", "a1", "11", "123456789abcdef", "italic", "letter", "uppercase", "nofor", "noback", "nocross", "before", "after",
        "match", "\"a\"", "\"\"", "\"a", "@1", "@1-2", "@", "$a", "$d1-3", "$l.", "$", "$s0", "%grp", "%grp2", "%", "[", "]", "[]", "*", "?", "~", "^", "`",
        "_1", "#1=2", "#1<2", "#1>=2", "#99=0", "#100=0", "#1=100", "#", "!", "!\"a\"", "![", "/", "{sw", "}", "(", ")", "(a|b)", "[ab]*", ".", "+", "-",
        "%[_#]", "%[^$]", "%a", "!a", "!(!a)", "(a", "a)", "a|", "|a", "(|)", "()", "((a)*)*", "(a*)+", "[a]?+", "word", "always", "context",
        "2", "4", "100000", "-3", "3.5", "é", "ß", "İ", "😀", "\u0301", "⠁", "ab-,", ",", "'", "\u00a0", "\x00"]
OPS = ["include nosuch.ctb", "include", "undefined", "display", "space", "punctuation", "digit", "letter", "lowercase", "uppercase", "litdigit", "sign", "math", "base",
       "grouping", "decpoint", "hyphen", "capsletter", "begcapsword", "endcapsword", "capsmodechars", "begcaps", "endcaps", "begcapsphrase",
       "endcapsphrase", "lencapsphrase", "letsign", "noletsign", "noletsignbefore", "noletsignafter", "nocontractsign", "numsign", "nonumsign",
       "numericnocontchars", "numericmodechars", "midendnumericmodechars", "begmodeword", "begmode", "endmode", "begmodephrase", "endmodephrase",
       "lenmodephrase", "seqdelimiter", "seqbeforechars", "seqafterchars", "seqafterpattern", "seqafterexpression", "class", "emphclass", "begemph", "endemph", "noemphchars",
       "emphletter", "begemphword", "endemphword", "emphmodechars", "begemphphrase", "endemphphrase", "lenemphphrase", "begcomp", "endcomp", "comp6", "nocont",
       "replace", "always", "repeated", "repword", "rependword", "largesign", "word", "syllable", "joinword", "lowword", "contraction", "sufword",
       "prfword", "begword", "begmidword", "midword", "midendword", "endword", "partword", "exactdots", "prepunc", "postpunc", "begnum", "midnum",
       "endnum", "attribute", "swapcc", "swapcd", "swapdd", "context", "correct", "pass2", "pass3", "pass4", "match", "literal", "multind", "empmatchbefore", "compbrl", "nosuchop"]
PRE = ["", "", "", "", "nofor ", "noback ", "nocross ", "noback nocross ", "before letter ", "after space ", "before x after y ", "nofor noback ", "empmatchbefore "]


def wild_line(rng):
    return rng.choice(PRE) + rng.choice(OPS) + "".join(rng.choice([" ", " ", " ", "\t", "  "]) + "".join(rng.choice(FRAG) for _ in range(rng.choice([1, 1, 1, 2, 3])))
                                                       for _ in range(rng.choice([0, 1, 2, 2, 2, 3, 4])))


def mutate(rng, src):
    ls = src.split("\n")
    for _ in range(rng.choice([1, 1, 2, 3, 6])):
        k = rng.random()
        i = rng.randrange(len(ls))
        if k < 0.15:
            ls.insert(i, wild_line(rng))
        elif k < 0.25:
            ls.insert(i, ls[rng.randrange(len(ls))])
        elif k < 0.3:
            del ls[i]
        elif k < 0.6:
            ws = ls[i].split(" ")
            j = rng.randrange(len(ws))
            ws[j] = rng.choice([rng.choice(FRAG), ws[j] + rng.choice(FRAG), rng.choice(FRAG) + ws[j], ws[j] * 2, ws[j][:-1], ws[j][::-1]])
            ls[i] = " ".join(ws)
        elif k < 0.85 and ls[i]:
            j = rng.randrange(len(ls[i]))
            ls[i] = ls[i][:j] + rng.choice(["", rng.choice(FRAG), ls[i][j] * 2, rng.choice("!*?+-()[]\"@$%#~`^_.=\\/")]) + ls[i][j + rng.choice([0, 1, 1]):]
        else:
            ls[i] += rng.choice(["\r", " ", "  # c", "\t"])
        if not ls:
            ls = [""]
    return "\n".join(ls)


def big(rng):
    n = rng.choice([300, 1000, 2500])
    return rng.choice([
        "always %s 1" % ("a" * n), "match %sa%s a - 1" % ("(" * n, ")" * n), "match %s a - 1" % ("a" * n), "match (%s) a - 1" % "|".join(["a"] * n),
        "context %s @1" % ('"a"' * n), "context \"a\" @%s" % "-".join(["1"] * n), "match %sa a - 1" % ("!" * n), "pass2 @1 @%s" % "-".join(["2"] * n),
        "match [%s]* a [%s]+ 1" % ("ab" * n, "ba" * n), "attribute grp %s" % ("ab" * n), "match %sa%s a - 1" % ("(" * 40, "*)" * 40),
        "match (a*)*(a*)*(a*)*b a - 1", "context ($a1-99)$a1-99$a1-99\"b\" @1", "context $l.$l.$l.$l.\"x\" @1", "swapcc sw %s %s" % ("a" * n, "b" * n),
        "compbrl %s" % ("a" * n), "word %s =" % ("a" * n), "pass2 [$a.]@1 @3", "pass2 $a0-99 *", "context _9\"a\" @1", "pass3 _3@1 ?"])


ODD = ["", " ", "  ", "\x00", "\n", "a\nb", "\t", "\u00a0", "\u2003", "\u0130", "\u0130a", "aİb", "ß", "SS", "ǅ", "ﬁ", "e\u0301", "\u0301", "👩‍👩‍👧", "\U0010ffff", "\ue000", "\U000f0001", "⠁⠃", "⠀",
       "\u200d", "\ufeff", "İİİ", "ΑΣ", "ΣΑΣ", "ŉ", "\U00010400", "1" * 50, "a" * 400, "A" * 300, "ab " * 150, "," * 200, "aA" * 100, "\\x0061", "~" * 60, "a1,A ~" * 40]


def odd_runs(rng, c):
    runs = []
    inputs = rng.sample(ODD, 9) + ["".join(rng.choice("abcABC 1,.-(~é⠁⠃\u0130") for _ in range(rng.randint(1, 30))) for _ in range(8)]
    base = [r for r in c["runs"]]
    for x in inputs:
        sp = []
        if rng.random() < 0.4:
            for _ in range(rng.choice([1, 2, 3])):
                a, b = rng.randint(0, len(x) + 3), rng.randint(0, len(x) + 3)
                sp.append({"class": rng.choice(["italic", "bold", "computer_braille", "x", ""]), "s": a, "e": b if rng.random() < 0.8 else 10 ** 6})
        runs.append({"dir": rng.choice("fffb"), "inp": cps(x), "spans": sp})
    runs += rng.sample(base, min(25, len(base)))
    rng.shuffle(runs)
    return runs


def p01_cases(rng, n):
    cases = []
    per = max(1, n // (2 * len(FAMS)))
    for fam in FAMS:
        for c in getattr(gen, "fam_" + fam)(rng, 2 * per):
            c.pop("trace", None)
            src = c["src"]
            files = dict(c.get("files") or {})
            k = rng.random()
            if k < 0.62:
                src = mutate(rng, src)
            if k > 0.5 and k < 0.7:
                src = "\n".join(src.split("\n")[:rng.randint(3, 9)] + [wild_line(rng) for _ in range(rng.randint(1, 2))])
            if k > 0.93:
                src = src.rstrip("\n") + "\n" + big(rng) + "\n"
            d = {"src": src, "runs": odd_runs(rng, c)}
            if c.get("tables"):
                files[c["tables"][0]] = src
                d.update(tables=c["tables"], files={k: (dic_noise(rng, v) if k.endswith(".dic") and rng.random() < 0.5 else v) for k, v in files.items()})
            cases.append(d)
    # tables of one wild rule upon a few definitions: every opcode
    for op in OPS:
        for _ in range(max(1, n // 60)):
            src = "space \\s 0\nlowercase a 1\nlowercase b 12\nuppercase A 17\npunctuation , 2\nlitdigit 1 16\n"
            line = rng.choice(PRE) + op + "".join(" " + "".join(rng.choice(FRAG) for _ in range(rng.choice([1, 1, 2]))) for _ in range(rng.choice([0, 1, 1, 2, 2, 3])))
            cases.append({"src": src + line + "\n", "runs": odd_runs(rng, {"runs": []})})
    for i, c in enumerate(cases):
        c["id"] = i + 1
    return cases


def dic_noise(rng, v):
    ls = (v if isinstance(v, str) else v.decode()).split("\n")
    i = rng.randrange(len(ls))
    ls[i] = rng.choice(["", "1", "a1", "1a1b1", ".", "..", "RIGHTHYPHENMIN", "LEFTHYPHENMIN x", "LEFTHYPHENMIN 99999999999999", "NEXTLEVEL", "é1", "a99b", "ISO8859-1", "\x00"])
    return "\n".join(ls)


def totals(c):
    """The session a case amounts to: new and ask events."""
    ev, have = [], {}
    for r, o in zip(c["runs"], c["obs"]):
        if o["t"] == "skipped":
            continue
        tr = 1 if r["dir"] == "f" else 2
        at = o.get("at")
        if tr not in have:
            have[tr] = "ok" if at != "compile" else o["t"]
            ev.append({"e": "new", "tr": tr, "tab": 0, "dir": r["dir"], "res": have[tr]})
        if have[tr] == "ok" or at != "compile":
            ev.append({"e": "ask", "tr": tr, "inp": r["inp"], "spans": r["spans"], "res": o["t"], "v": []})
    return ev


BIG = 100000
FINDINGS = {"always": "always %s 1" % ("a" * BIG), "parens": "match %sa%s a - 1" % ("(" * BIG, ")" * BIG)}


def probe(binary, work):
    """The known findings that are still there."""
    still = []
    for name, rule in FINDINGS.items():
        j = {"id": 1, "src": "lowercase a 1\n%s\n" % rule, "runs": [{"dir": d, "inp": [97], "spans": []} for d in "fb"]}
        run.observe(binary, [j], work, limit=60)
        if any(o["t"] == "crash" for o in j["obs"]):
            still.append(name)
    return still


def verify(sessions, work):
    """-> stats, [(session id, event index, detail)]"""
    stats, bad = run.shards([dict(x, cost=sum(20 + len(e.get("inp", [])) for e in x["ev"])) for x in sessions], ("id", "ev"), work,
                            "LouisSession.tla", "LouisSession.cfg")
    return stats, [(i, j, d) for i, j, w, d in bad]


def pools(c, rng):
    """Inputs of both directions that are alike in some way."""
    f = [r for r in c["runs"] if r["dir"] == "f"]
    b = [r for r in c["runs"] if r["dir"] == "b"]
    out = []
    for rs in (f, b):
        if not rs:
            out.append([])
            continue
        p = [rng.choice(rs) for _ in range(5)]
        x = max(p, key=lambda r: len(r["inp"]))
        y = list(x["inp"])
        rng.shuffle(y)
        p.append(dict(x, inp=y))
        p.append(dict(x, inp=x["inp"] * 2))
        if rs is f:
            p.append(dict(x, inp=cps("".join(ch.upper() if len(ch.upper()) == 1 else ch for ch in txt(x["inp"])))))
            for _ in range(6 if c.get("hy", {}).get("on") else 1):      # the same in another case
                y = rng.choice(p)
                p.append(dict(y, inp=cps("".join(ch.upper() if len(ch.upper()) == 1 and rng.random() < 0.5 else ch for ch in txt(y["inp"])))))
            p.append(dict(x, spans=[{"class": "italic", "s": 0, "e": len(x["inp"])}]))
            p.append(dict(x, spans=[]))
        out.append([{"inp": r["inp"], "spans": r["spans"]} for r in p])
    return out


def histories(rng, n):
    jobs = []
    for k in range(n):
        cs = []
        for _ in range(rng.choice([1, 2, 2])):
            fam = rng.choice(FAMS + ["mixed"] * 4 + ["nocross"] * 7) if not cs or cs[0].get("tables") is None else "nocross"
            cs.append(next(iter(getattr(gen, "fam_" + fam)(rng, 1))))
        files = {}
        if cs[-1].get("tables") and len(cs) == 2 and not cs[0].get("tables"):
            cs.reverse()
        for t, c in enumerate(cs):                   # dictionaries of the same name
            if c.get("tables"):
                old, d = c["tables"][0][:-4], "s%d-%d/" % (k, t)
                if t == 1 and cs[0].get("tables") and rng.random() < 0.7:      # the same rules with another dictionary
                    c["src"], c["runs"] = cs[0]["plain"].replace(cs[0]["old"], old), cs[0]["runs"]
                c["plain"], c["old"] = c["src"], old
                for n, v in c["files"].items():
                    files[d + "h" + n[len(old):]] = v
                files[d + "h.utb"] = c["src"].replace(old, d + "h")
                c["paths"] = [d + "h.utb"]
        if len(cs) == 2 and not cs[0].get("tables") and rng.random() < 0.4:      # nearly the same table
            a = cs[0]["src"].split("\n")
            del a[rng.randrange(len(a))]
            cs[1] = dict(cs[0], src="\n".join(a))
        pool = [pools(c, rng) for c in cs]
        steps, trs = [], []

        def new(tab, d):
            tr = len(trs) + 1
            trs.append((tr, tab, d))
            return {"e": "new", "tr": tr, "tab": tab, "dir": d}

        def ask(th=0):
            for _ in range(20):
                tr, tab, d = rng.choice(trs)
                p = pool[tab][0 if d == "f" else 1]
                if p:
                    return dict(rng.choice(p), e="ask", tr=tr, th=th)
            return None

        phases = [{"par": False, "steps": [new(t, d) for t in range(len(cs)) for d in "fb"]}]
        for _ in range(rng.choice([3, 4])):
            phases.append({"par": False, "steps": [x for x in (ask() for _ in range(rng.randint(10, 40))) if x]})
            phases.append({"par": True, "steps": [x for x in (ask(rng.randrange(4)) for _ in range(rng.randint(20, 50))) if x]})
            phases.append({"par": False, "steps": [new(rng.randrange(len(cs)), rng.choice("ffb")) for _ in range(rng.choice([1, 2, 3]))]})
        # every input once more with the first and the last translators
        last = []
        for tr, tab, d in trs:
            last += [dict(p, e="ask", tr=tr, th=0) for p in pool[tab][0 if d == "f" else 1]]
        phases.append({"par": False, "steps": last})
        jobs.append({"id": k + 1, "srcs": [c.get("paths") or c["src"] for c in cs], "hist": phases, "files": files, "runs": [None] * len(phases)})
    return jobs


def another_order(rng, jobs, p):
    """The same histories with the steps of every phase in another order."""
    out = json.loads(json.dumps(jobs))
    for j in out:
        for ph in j["hist"]:
            if p == 1:
                ph["steps"].reverse()
            elif p > 1:
                rng.shuffle(ph["steps"])
    return out


def check(pid, tier, seed, report):
    t0 = time.time()
    binary, hook = run.build()
    work = tempfile.mkdtemp(prefix="louis-" + pid)
    st = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "events": 0}
    found, samples, k, still = [], [], 0, []
    try:
        while True:
            rng = random.Random("%d.%d/%s" % (seed, k, pid))
            if pid == "P01":
                cases = p01_cases(rng, 4000 if tier == "quick" else 6000)
                run.observe(binary, cases, work)
                engine.confirm(binary, cases, work)
                sessions = [{"id": c["id"], "ev": totals(c)} for c in cases]
                src = {c["id"]: [c["src"]] for c in cases}
                st["rejected_tables"] = st.get("rejected_tables", 0) + sum(any(e["e"] == "new" and e["res"] == "err" for e in x["ev"]) for x in sessions)
                st["tables"] = st.get("tables", 0) + len(cases)
            else:
                cases = histories(rng, 200 if tier == "quick" else 300)
                sessions = [{"id": c["id"], "ev": []} for c in cases]
                for p in range(3):                       # three processes
                    again = another_order(rng, cases, p)
                    run.observe(binary, again, work)
                    for x, c in zip(sessions, again):
                        for e in c["obs"]:
                            if e.get("t") in ("hang", "crash", "skipped"):
                                if e["t"] != "skipped":
                                    x["ev"].append({"e": "ask", "tr": 0, "inp": [], "spans": [], "res": e["t"], "v": []})
                                continue
                            e = {f: e[f] for f in ("e", "tr", "tab", "dir", "inp", "spans", "res", "v") if f in e}
                            e["tr"] += 1000 * p
                            if e["e"] == "ask" and e["res"] == "none":
                                continue
                            x["ev"].append(e)
                src = {c["id"]: [x if isinstance(x, str) else "".join("== %s\n%s\n" % (n, v) for n, v in c["files"].items()) for x in c["srcs"]] for c in cases}
            stats, bad = verify(sessions, work)
            by = {x["id"]: x for x in sessions}
            for f in ("states", "transitions"):
                st[f] += stats[f]
            st["traces_validated_against_impl"] += len(sessions)
            st["events"] += sum(len(x["ev"]) for x in sessions)
            if not samples:
                samples = [{"tables": src[x["id"]], "events": x["ev"][:6]} for x in rng.sample(sessions, 3)]
            for i, j, d in bad:
                e = by[i]["ev"][j]
                found.append({"tables": src[i], "table": src[i][0], "event": j, "input": e.get("inp", []), "input_text": txt(e.get("inp", [])),
                              "rejected": e, "specified": d})
            if pid == "P02" and not found:
                ef = {}
                engine.some("P02", "%d.%d" % (seed, k), 40, binary, work, ef)
                found += ef["found"]
                for f in ("states", "transitions", "traces_validated_against_impl"):
                    st[f] += ef[f]
            k += 1
            if found or tier == "quick" or time.time() - t0 > engine.THOROUGH_S:
                if pid == "P01":
                    still = probe(binary, work)
                break
    finally:
        run.rmtree(work)
    st.update(samples=samples, batches=k)
    found.sort(key=lambda f: len(f["input"]) + len(f["table"]) / 10)
    report(found, st, ["a translation that takes more than 20 s (60 s when it is repeated on its own) does not come back",
                       "tables, inputs and histories outside the generated ones behave alike"], still)
