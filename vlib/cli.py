"""P29: louis translate and louis trace, against LouisCli.tla."""
import os, random, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import engine, gen, run
from rules import CHAROPS, txt

FAMS = [("mixed", 5), ("multipass", 3), ("context", 1), ("entries", 2), ("caps", 1), ("numbers", 1), ("case", 1), ("backward", 1), ("match", 1),
        ("compbrl", 1), ("lettersign", 1), ("punc", 1), ("undefined", 1), ("direction", 1), ("nocross", 2), ("longest", 1), ("precedence", 1), ("emphasis", 1)]


def say(r):
    """What the program shows for a rule: the text and whether that is all."""
    op, d = r["op"], "=" if r["imp"] else txt(r["d"])
    ch = txt(r["ch"])
    if op in ("context", "correct", "pass2", "pass3", "pass4", "match"):
        s, x = op + " ", False
    elif op == "base":
        s, x = "base %s %s %s" % (r["nm"], txt(r["cs"][:1]), txt(r["cs"][1:2])), True
    elif op == "endcapsphrase":
        s, x = "%s %s %s" % (op, r["pos"], d), True
    elif op in ("contraction", "compbrl"):
        s, x = "%s %s" % (op, ch), True
    elif r["ch"]:
        s, x = "%s %s %s" % (op, ch, d), True
    elif r["d"] and "nm" not in r:
        s, x = "%s %s" % (op, d), True
    else:
        s, x = "", False
    return {"t": [ord(c) for c in s], "x": x}


def printable(cs):
    return all(32 <= c < 127 or (c > 0xa1 and chr(c).isprintable() and c != 0x2502 and not 0x2500 <= c < 0x2580) for c in cs)


def table_rows(lines, style):
    """The list a trace prints, without its head and frame; None if it does not look like one."""
    if style == "blank":
        if not lines or lines[0].split() != ["From", "To", "Rule", "Stage"]:
            return None
        return [[ord(c) for c in l if c != " "] for l in lines[1:]]
    if len(lines) < 3 or lines[0][:1] != "┌":
        return None
    if [x.strip() for x in lines[1].strip("│").split("│")] != ["", "From", "To", "Rule", "Stage"]:
        return None
    out = []
    for l in lines[3:]:
        if l[:1] == "└":
            continue
        f = l[1:-1].split("│")
        if l[:1] != "│" or len(f) != 5 or not f[0].strip().isdigit():
            return None
        out.append([int(f[0])] + [[ord(c) for c in x[1:].rstrip(" ")] for x in f[1:]])
    return out


def answers(out):
    """What was printed after each prompt"""
    parts = ("\n" + out).split("\n> ")
    return parts[1:]


def observe(cli, c, work):
    e = run.env()
    e["LOUIS_TABLE_PATH"] = work
    name = "c%d.utb" % c["id"]
    raw = []

    def call(args, stdin):
        p = subprocess.run([cli] + args, cwd=work, env=e, input=stdin.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
    for (d, cmd, style, via), rs in c["calls"].items():
        args = [cmd, name] if c["id"] % 2 else [cmd, os.path.join(work, name)]
        if d == "b" or c["id"] % 3 == 0:
            args += [["-d", "--direction"][c["id"] % 2], "backward" if d == "b" else "forward"]
        if cmd == "trace" and (style == "blank" or c["id"] % 3 == 1):
            args += ["-s", style]
        todo = [rs] if via == "repl" else [[r] for r in rs]
        for part in todo:
            try:
                if via == "repl":
                    rc, so, se = call(args, "".join(txt(r["inp"]) + "\n" for r in part))
                else:
                    rc, so, se = call(args + ["--", txt(part[0]["inp"])], "")
            except subprocess.TimeoutExpired:
                for r in part:
                    r["obs"] = {"t": "hang"}
                continue
            raw.append([args, so[:1500], se[:600]])
            if rc < 0 or "panicked" in se:
                o = {"t": "crash"}
            elif se:
                o = {"t": "err"} if not so.strip() else {"t": "both"}
            else:
                o = None
            got = (answers(so) if via == "repl" else [so]) if o is None else []
            if via == "repl" and o is None:
                if len(got) != len(part) + 1 or got[-1].strip():
                    o = {"t": "answers"}
            for i, r in enumerate(part):
                if o is not None:
                    r["obs"] = o
                    continue
                lines = got[i].split("\n")
                while len(lines) > 1 and lines[-1] == "":
                    lines.pop()
                rows = [] if cmd == "translate" and len(lines) == 1 else table_rows(lines[1:], style)
                r["obs"] = {"t": "unreadable"} if rows is None else {"t": "out", "v": [ord(x) for x in lines[0]], "rows": rows}
    return raw


def some(seed, n, cli, work):
    rng = random.Random(seed)
    total = sum(w for _, w in FAMS)
    cases = []
    for fam, w in FAMS:
        for c in getattr(gen, "fam_" + fam)(rng, max(1, round(n * w / total))):
            c["ok"] = True
            src = c["src"]
            if rng.random() < 0.05:
                ls = src.split("\n")
                ls.insert(rng.randrange(len(ls)), rng.choice(["nosuchop a 1", "letter ab 1", "always a", "include nosuch.utb", "letter a x"]))
                src, c["ok"] = "\n".join(ls), False
            c["text"] = src
            rs = [r for r in c["runs"] if printable(r["inp"]) and "~" not in txt(r["inp"])]
            f, b = [r for r in rs if r["dir"] == "f"], [r for r in rs if r["dir"] == "b"]
            f = rng.sample(f, min(14, len(f)))
            b = rng.sample(b, min(10, len(b)))
            if rng.random() < 0.03 and len(f) > 2:      # a trace of more than a hundred lines
                f.append({"dir": "f", "inp": [x for _ in range(rng.choice([3, 8, 20])) for r in rng.sample(f, 3) for x in r["inp"]][:300]})
            c["runs"], c["calls"] = [], {}
            for d, xs in (("f", f), ("b", b)):
                for r in xs:
                    cmd = rng.choice(["translate", "trace", "trace"])
                    style = rng.choice(["table", "table", "blank"]) if cmd == "trace" else "table"
                    via = "arg" if rng.random() < 0.15 else "repl"
                    x = {"dir": d, "inp": r["inp"], "cmd": cmd, "style": style}
                    c["runs"].append(x)
                    c["calls"].setdefault((d, cmd, style, via), []).append(x)
            c["say"] = [say(r) for r in c["rules"]]
            if c["runs"] and printable([ord(x) for x in src if x != "\n"]):
                cases.append(c)
    for i, c in enumerate(cases):
        c["id"] = i + 1
        with open(os.path.join(work, "c%d.utb" % c["id"]), "w") as f:
            f.write(c["text"])
        for n, x in c.get("files", {}).items():
            if n.endswith(".dic"):
                with open(os.path.join(work, n), "wb") as f:
                    f.write(x if isinstance(x, bytes) else x.encode())
    with ThreadPoolExecutor(run.CORES) as ex:
        for c, raw in zip(cases, ex.map(lambda c: observe(cli, c, work), cases)):
            c["raw"] = raw
    for c in cases:
        c["cost"] = 20 + len(c["rules"]) * 2 + sum(len(r["inp"]) + 3 for r in c["runs"]) * (5 + len(c["rules"]))
    stats, bad = run.shards(cases, ("id", "ok", "rules", "hy", "say", "runs"), work, "LouisCli.tla", "LouisCli.cfg")
    return cases, stats, bad


def check(pid, tier, seed, report):
    t0 = time.time()
    cli = run.build_cli()
    work = tempfile.mkdtemp(prefix="louis-" + pid)
    st = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "tables": 0, "rows_compared": 0, "messages": 0}
    found, samples, k = [], [], 0
    try:
        while True:
            cases, stats, bad = some("%d.%d/%s" % (seed, k, pid), 1500 if tier == "quick" else 400, cli, work)
            by = {c["id"]: c for c in cases}
            for f in stats:
                st[f] += stats[f]
            st["tables"] += len(cases)
            for c in cases:
                st["traces_validated_against_impl"] += len(c["runs"])
                st["rows_compared"] += sum(len(r["obs"].get("rows", [])) for r in c["runs"])
                st["messages"] += sum(r["obs"]["t"] == "err" for r in c["runs"])
            if not samples:
                samples = [{"table": c["text"], "printed": c["raw"][:2]} for c in random.Random(seed).sample(cases, 2)]
            for i, j, what, detail in bad:
                c, r = by[i], by[i]["runs"][j]
                found.append({"table": c["text"], "direction": r["dir"], "input": r["inp"], "input_text": engine.show(r), "command": r["cmd"],
                              "style": r["style"], "differs": what, "observed": r["obs"], "specified": detail})
            k += 1
            if found or tier == "quick" or time.time() - t0 > engine.THOROUGH_S:
                break
    finally:
        run.rmtree(work)
    st.update(samples=samples, batches=k)
    found.sort(key=lambda f: len(f["input"]) + len(f["table"]) / 10)
    report(found, st, ["blanks at the end of a column are not seen", "tests and actions of context rules, corrections and passes are shown by their opcode at least",
                       "tables and inputs outside the generated families behave alike"])
