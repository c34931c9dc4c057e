"""Tables and inputs.  Every family is a function (rng, n) -> cases; all choices come from rng."""
import itertools, random
import rules
from rules import *

FWD, BWD = "f", "b"


class Dots:
    """Cells that tell rules apart: mostly fresh ones, sometimes ones in use (collisions)."""

    def __init__(self, rng, reuse=0.0):
        self.rng, self.reuse = rng, reuse
        self.pool = [0x2800 + i for i in range(1, 256)]
        rng.shuffle(self.pool)
        self.used = []

    def one(self):
        if self.used and self.rng.random() < self.reuse:
            return list(self.rng.choice(self.used))
        d = [self.pool.pop()] if self.pool else [0x2801]
        self.used.append(d)
        return d

    def some(self, hi=3):
        n = self.rng.choice([1, 1, 1, 2, hi])
        if self.used and self.rng.random() < self.reuse:
            return list(self.rng.choice(self.used))
        d = [self.pool.pop() if self.pool and self.rng.random() < 0.8 or not self.used else self.rng.choice(self.used)[0]
             for _ in range(n)]
        self.used.append(d)
        return d


LETTERS = [("\u00e9", "\u00c9"), ("\u0434", "\u0414"), ("\u03bb", "\u039b"), ("\u00f8", "\u00d8"), ("\u00fe", "\u00de"), ("\U00010428", "\U00010400"),
           ("\u044f", "\u042f"), ("z", "Z"), ("i", "I")]
OTHERS = {" ": "\u00a0\t\u2003\u3000", ",": "\u2014\u00ab\u2026;'\U0001d11e", ".": "\u2026\u3002!", "-": "\u2010\u2014", "(": "\u00bf\u300c[",
          "1": "\u00bd\u0661\u24607", "2": "\u0662\u00be3", "+": "\u2211\u20ac"}


def other_characters(rng, p=0.35):
    """Now and then a table is written with characters other than ASCII."""
    rules.MAP = m = {}
    if rng.random() > p:
        return
    for (lo, up), c in zip(rng.sample(LETTERS, 3), "abc"):
        if rng.random() < 0.6:
            m[c], m[c.upper()] = lo, up
    for c in OTHERS:
        if rng.random() < 0.4:
            m[c] = rng.choice(OTHERS[c])


class G:
    """A table under construction together with the characters worth using in inputs."""

    def __init__(self, rng, reuse=0.0, letters="abc", uppers="", spaces=" ", punct="", digits="", signs="",
                 litdigits=False, upper_by="uppercase", letter_op="lowercase"):
        self.rng = rng
        self.nx = rng.choice([0, 0, 0, 0.4])      # entries with the prefix nocross, though there may be no dictionary
        other_characters(rng)
        self.t = Table()
        self.d = Dots(rng, reuse)
        self.alpha = []
        self.letters, self.uppers, self.punct, self.digits, self.spaces = letters, uppers, punct, digits, spaces
        for c in spaces:
            self.t.add("space", c, "0" if c == spaces[0] else self.d.one())
        for c in letters:
            self.t.add(letter_op, c, self.d.one())
        for c in punct:
            self.t.add("punctuation", c, self.d.one())
        for c in digits:
            if litdigits:
                dd = self.d.one()
                if rng.random() < 0.5:
                    self.t.add("digit", c, dd)
                    self.t.add("litdigit", c, self.d.one())
                else:
                    self.t.add("litdigit", c, dd)
                    if rng.random() < 0.5:
                        self.t.add("digit", c, self.d.one())
            else:
                self.t.add("digit", c, self.d.one())
        for c in signs:
            self.t.add("sign", c, self.d.one())
        for c in uppers:
            if upper_by == "base":
                self.t.add("base", nm="uppercase", cs=[cp(c), cp(c.lower())])
            else:
                self.t.add("uppercase", c, self.d.one())
        self.alpha = list(spaces + letters + uppers + punct + digits + signs)
        if rng.random() < 0.15:        # another kind of space
            self.t.add("space", "\u2009", self.d.one())
            self.alpha.append("\u2009")
        self.long = None
        if rng.random() < 0.15:        # a character that comes in long runs
            self.long = (rng.choice(self.alpha if rng.random() < 0.5 else self.letters), rng.choice([2, 4, 6, 9, 12, 17]))

    def word(self, lo=1, hi=3, chars=None):
        chars = chars or self.letters
        w = "".join(self.rng.choice(chars) for _ in range(self.rng.randint(lo, hi)))
        if self.long and self.rng.random() < 0.3:
            w = w.replace(self.long[0], self.long[0] * self.long[1], 1)
        return w

    def stretch(self, runs):
        """Some of the inputs again with long runs."""
        if not self.long:
            return runs
        c = cp(self.long[0])
        some = [r for r in runs if r["dir"] == FWD and c in r["inp"] and len(r["inp"]) <= 9]
        out = []
        for r in self.rng.sample(some, min(22, len(some))):
            at = [self.long[1] if x == c and self.rng.random() < 0.7 else 1 for x in r["inp"]]
            pos = [0] + list(itertools.accumulate(at))
            inp = [x for x, n in zip(r["inp"], at) for _ in range(n)]
            sp = [dict(s, s=pos[min(s["s"], len(at))], e=pos[s["e"]] if s["e"] <= len(at) else pos[-1] + 1) for s in r["spans"]]
            if len(inp) <= 60:
                out.append({"dir": FWD, "inp": inp, "spans": sp})
        return runs + out

    def dots(self, ch=None, imp=0.15):
        """keyword arguments for the dots operand"""
        if ch is not None and self.rng.random() < imp and all(x in self.alpha for x in ch):
            return {"imp": True}
        return {"d": self.d.some()}

    def direction(self, p=0.25):
        return self.rng.choice(["nofor", "noback"]) if self.rng.random() < p else "both"


ENTRY = ["always", "syllable", "largesign", "word", "joinword", "lowword", "begword", "midword", "endword",
         "midendword", "begmidword", "partword", "prfword", "sufword", "begnum", "midnum", "endnum",
         "prepunc", "postpunc"]
WORDS = ["word", "joinword", "lowword", "begword", "midword", "endword", "midendword", "begmidword",
         "partword", "prfword", "sufword", "contraction"]
CLASSED = ["always", "word", "begword", "midword", "endword", "midendword", "begmidword", "partword", "prfword", "sufword"]
NOPREFIX = ["syllable", "largesign", "joinword", "contraction", "comp6"]
CANX = ["always", "sufword", "prfword", "begword", "begmidword", "midword", "midendword", "endword", "partword",
        "prepunc", "postpunc", "begnum", "midnum", "endnum"]


def add_entry(g, op, ch, p_dir=0.2, nx=False, classes=(), imp=0.12):
    rng = g.rng
    kw = {}
    if op not in NOPREFIX:
        kw["dir"] = g.direction(p_dir)
    if op in CANX and (nx or rng.random() < g.nx):
        kw["nx"] = True
    if classes and op in CLASSED:
        for _ in range(rng.choice([1, 1, 2])):
            kw.setdefault(rng.choice(["bef", "aft"]), []).append(rng.choice(classes))
    if op == "contraction":
        g.t.add(op, ch, imp=True)
    else:
        kw.update(g.dots(ch, imp if op in IMPLICIT else 0))
        g.t.add(op, ch, **kw)


def spice(g, rng, p=0.14):
    """Now and then a context rule among the rules of another feature, often one without width."""
    if rng.random() < p:
        for _ in range(rng.choice([1, 1, 2])):
            w = "".join(rng.choice(g.alpha) for _ in range(rng.choice([1, 1, 2])))
            v = "".join(rng.choice(g.alpha) for _ in range(rng.choice([0, 0, 1])))
            some = t_attr(rng.choice("dlsUua")) if rng.random() < 0.25 else t_str(w)
            before = [t_str(v)] if v else []
            ts = rng.choice([before + [t_cap(), some], before + [t_cap(), some], before + [some, t_cap()], before + [t_cap(some)], [some] + before])
            g.t.add("context", ts=ts, ac=[a_dots(g.d.some(2))], dir=g.direction(0.1))


def words_over(alpha, upto):
    for n in range(upto + 1):
        for w in itertools.product(alpha, repeat=n):
            yield "".join(w)


def fwd_inputs(g, rng, exhaustive=3, extra=20, maxlen=9, cap=260, alpha=None):
    alpha = alpha or g.alpha
    out = list(words_over(alpha, exhaustive))
    if len(out) > cap:
        out = rng.sample(out, cap)
    for _ in range(extra):
        out.append("".join(rng.choice(alpha) for _ in range(rng.randint(exhaustive + 1, maxlen))))
    return list(dict.fromkeys(out))


def fruns(inputs, spans=None):
    return [{"dir": FWD, "inp": cps(x), "spans": []} for x in inputs]


def bwd_cells(g):
    used = []
    for r in g.t.rules:
        for c in r["d"]:
            if c not in used:
                used.append(c)
    return used


def bwd_inputs(g, rng, n=40, maxlen=6, exhaustive=1):
    """Sequences of the dots of rules, and of single cells."""
    pieces = [tuple(r["d"]) for r in g.t.rules if r["d"]] or [(0x2801,)]
    used = bwd_cells(g) or [0x2801]
    out = [()] + [(c,) for c in used[:30]]
    if exhaustive >= 2:
        out += list(itertools.product(used[:9], repeat=2))
    for _ in range(n):
        s = []
        for _ in range(rng.randint(1, maxlen)):
            x = rng.random()
            if x < 0.75:
                s += rng.choice(pieces)
            elif x < 0.95:
                s.append(rng.choice(used))
            else:
                s.append(rng.choice([0x2800, 0x28ff, 97, 32]))
        out.append(tuple(s))
    return list(dict.fromkeys(out))


def bruns(inputs):
    return [{"dir": BWD, "inp": list(x), "spans": []} for x in inputs]


def fill(g, rng):
    """Now and then a table is long."""
    if rng.random() < 0.006:
        n = rng.choice([40, 130, 270, 270])
        for i in range(n):
            k = rng.random()
            if k < 0.6:
                g.t.add("sign", chr(0x4e00 + i), g.d.some(2))
            else:
                w = "".join(rng.choice(g.letters or "a") for _ in range(rng.randint(3, 6)))
                g.t.add(rng.choice(["always", "word", "begword", "endword", "partword"]), w, g.d.some(3))


def case(g, runs, **kw):
    if not kw:                     # (otherwise the table's source may have been written already)
        fill(g, g.rng)
    c = {"rules": g.t.rules, "hy": {"on": False}, "src": g.t.source(), "runs": g.stretch(runs), "trace": True}
    c.update(kw)
    rules.MAP = {}
    return c


# =============================================================== the families
def fam_entries(rng, n, ops=ENTRY, classes=False, back=True, exhaustive=3):
    """Translation rules over a few letters, with spaces, punctuation and digits around them."""
    for _ in range(n):
        letters = rng.choice(["ab", "abc", "ab"])
        uppers, by = "", "base"
        if rng.random() < 0.35:        # capital letters, also without the small letter
            uppers, by = rng.choice([("B", "base"), ("AB", "base"), ("B", "uppercase"), ("AB", "uppercase"), ("BD", "uppercase")])
        g = G(rng, reuse=rng.choice([0, 0, 0.15]), letters=letters, uppers=uppers, upper_by=by,
              punct=rng.choice([",", ",", ""]), digits=rng.choice(["", "1", ""]))
        names = []
        if classes:
            nm = rng.choice(["vowel", "xx", "grp"])
            members = rng.sample(g.alpha, rng.randint(1, min(3, len(g.alpha))))
            g.t.add("attribute", nm=nm, cs="".join(members))
            names = [nm, "space", "letter", "digit", "punctuation", "lowercase", "missing"] + ["uppercase"] * (2 * len(uppers))
        seen = []
        for _ in range(rng.randint(2, 6)):
            op = rng.choice(ops)
            if seen and rng.random() < 0.45:
                ch = rng.choice(seen)
            elif op in ("prepunc", "postpunc"):
                ch = g.word(1, 2, g.punct or ",")
            elif op in ("begnum", "midnum", "endnum"):
                ch = g.word(1, 2, g.letters + (g.punct or "") + (g.digits or ""))
            elif rng.random() < 0.12:
                ch = g.word(1, 3, "".join(g.alpha))
            else:
                ch = g.word(1, 3, letters + ("d" if "D" in uppers else ""))
            seen.append(ch)
            add_entry(g, op, ch, classes=names if rng.random() < 0.6 else ())
        spice(g, rng)
        runs = fruns(fwd_inputs(g, rng, exhaustive if len(g.alpha) <= 5 else 2, extra=25, cap=160))
        if back:
            runs += bruns(bwd_inputs(g, rng, 30))
        yield case(g, runs)


def fam_precedence(rng, n):
    """The same characters defined again and again by rules of all kinds."""
    for _ in range(n):
        g = G(rng, letters="ab", punct=",", digits=rng.choice(["", "1"]))
        ws = [g.word(1, 2) for _ in range(2)]
        ops = rng.choice([ENTRY, ["always", "syllable", "largesign"], WORDS[:-1], ["always", "word", "begword", "prepunc", "postpunc", "lowword"],
                          ["prfword", "word", "sufword", "always"], ["always", "midnum", "begnum", "endnum", "syllable"]])
        for _ in range(rng.randint(3, 7)):
            add_entry(g, rng.choice(ops), rng.choice(ws), p_dir=0.15)
        if rng.random() < 0.4:       # patterns for the same characters
            for _ in range(rng.choice([1, 2, 3])):
                w = rng.choice(ws)
                if rng.random() < 0.5:
                    g.t.add("match", w, pre=rng.choice([[], [], [m_any()]]), post=rng.choice([[], [], [m_any()]]), d=g.d.some())
                else:
                    g.t.add("context", ts=[t_str(w)] + rng.choice([[], [t_attr("a")]]), ac=[a_dots(g.d.some())])
        for _ in range(rng.choice([0, 1, 2, 3])):      # characters defined twice
            op = rng.choice(["letter", "sign", "punctuation", "lowercase", "math", "hyphen", "decpoint", "hyphen", "space", "digit"])
            g.t.add(op, rng.choice(g.alpha[1:]), g.d.one(), **({} if op == "decpoint" else {"dir": g.direction(0.2)}))
        spice(g, rng)
        runs = fruns(fwd_inputs(g, rng, 3, extra=15, cap=130)) + bruns(bwd_inputs(g, rng, 25))
        yield case(g, runs)


def fam_longest(rng, n):
    """Overlapping strings: prefixes of each other, different kinds of rules competing for the longest."""
    for _ in range(n):
        g = G(rng, letters="ab", punct=rng.choice(["", ","]))
        ws = set()
        for _ in range(rng.randint(3, 8)):
            w = g.word(1, 5)
            ws.add(w)
            if rng.random() < 0.5:
                ws.add(w + g.word(1, 2))
        for w in sorted(ws):
            add_entry(g, rng.choice(["always"] * 6 + WORDS[:-1] + ["syllable", "largesign"]), w, p_dir=0.05)
        if rng.random() < 0.4:
            w = g.word(1, 3)
            g.t.add("match", w, pre=rng.choice([[], [m_any()], [m_bound("pre")]]), post=rng.choice([[], [m_any()], [m_lit("a")]]),
                    d=g.d.some())
        if rng.random() < 0.4:
            g.t.add("context", ts=[t_str(g.word(1, 4))], ac=[a_dots(g.d.some())])
        spice(g, rng)
        runs = fruns(fwd_inputs(g, rng, 5 if not g.punct else 3, extra=30, cap=130)) + bruns(bwd_inputs(g, rng, 20))
        yield case(g, runs)


def fam_case(rng, n):
    """Upper case characters and how rules written in lower case apply to them."""
    for _ in range(n):
        up = rng.choice(["AB", "AB", "A", "ABC"])
        g = G(rng, letters="abc", uppers=up, upper_by=rng.choice(["base", "uppercase", "base"]), punct=rng.choice(["", ","]))
        odd = rng.choice(["", "\u0130", "\u00c4\u00e4", "\u00df", "\u0416\u0436", "\u03a3\u03c3\u03c2"])
        for c in odd:
            if rng.random() < 0.8:
                g.t.add("letter", c, g.d.one())
            g.alpha.append(c)
        if rng.random() < 0.3:
            g.t.add("base", nm=rng.choice(["uppercase", "lowercase", "accent"]), cs=[cp(rng.choice("XYZ")), cp(rng.choice("abcX"))])
            g.alpha.append("X")
        if rng.random() < 0.3:      # an uppercase character defined before / without its base
            g.t.add("base", nm="uppercase", cs=[ord("Q"), ord("q")])
            g.alpha.append("Q")
        low = g.letters + "".join(c for c in odd if c.lower() == c)
        if odd == "\u0130":             # a letter that is two letters in lower case
            g.alpha += rng.choice([["i"], ["i", "\u0307"]])
            low += "".join(g.alpha[-2 if g.alpha[-1] == "\u0307" else -1:])
            for c in low[len(g.letters):]:
                g.t.add("lowercase", c, g.d.one())
            for _ in range(2):
                add_entry(g, "always", "i" + g.word(0, 2, low))
        for _ in range(rng.randint(2, 5)):
            op = rng.choice(["always", "always", "word", "begword", "endword", "midword", "sufword", "prfword", "syllable"])
            add_entry(g, op, g.word(1, 3, low + (up if rng.random() < 0.1 else "")))
        if rng.random() < 0.4:
            w = g.word(1, 2, low)
            g.t.add("match", w, pre=rng.choice([[], [m_cls("a", "pre")], [m_lit("A")], [m_lit("a")]]), post=rng.choice([[], [], [m_lit(g.word(1, 1, low))]]), d=g.d.some())
        if rng.random() < 0.3:
            g.t.add("context", ts=[t_str(g.word(1, 2, low + up))], ac=[a_dots(g.d.some())])
        spice(g, rng)
        runs = fruns(fwd_inputs(g, rng, 2, extra=70, maxlen=6, cap=60)) + bruns(bwd_inputs(g, rng, 15))
        yield case(g, runs)


def fam_numbers(rng, n):
    for _ in range(n):
        ds = rng.choice(["12", "1", "123"])
        g = G(rng, letters="ab", punct=rng.choice([".,", ",", "."]), digits=ds, litdigits=rng.random() < 0.85,
              reuse=rng.choice([0, 0, 0.1]))
        t = g.t
        if rng.random() < 0.9:
            t.add("numsign", d=g.d.some(2))
        if rng.random() < 0.45:
            t.add("nonumsign", d=g.d.some(2), dir=g.direction(0.2))
        if rng.random() < 0.45:
            t.add("numericmodechars", cs="".join(rng.sample(g.punct + "-", rng.randint(1, len(g.punct)))))
            g.alpha.append("-") if rng.random() < 0.3 else None
        if rng.random() < 0.5:
            t.add("numericnocontchars", cs="".join(rng.sample(g.letters + g.punct, rng.randint(1, 2))))
        for _ in range(rng.choice([0, 1, 2])):
            t.add("midnum", rng.choice(g.punct), d=g.d.some(2), dir=g.direction(0.2))
        if rng.random() < 0.5:
            t.add("decpoint", rng.choice(g.punct), g.d.one())
        if rng.random() < 0.3:
            t.add("hyphen", "-", g.d.one(), dir=g.direction(0.2))
            g.alpha.append("-")
        for _ in range(rng.choice([0, 1, 2])):
            add_entry(g, rng.choice(["begnum", "endnum", "always", "always", "largesign", "word"]), g.word(1, 2, ds + g.letters + g.punct))
        for _ in range(rng.choice([0, 1])):
            add_entry(g, "always", g.word(2, 3, ds))
        if rng.random() < 0.45:
            for _ in range(rng.choice([1, 2])):      # contractions at the edges of and within numbers
                add_entry(g, "always", rng.choice([g.word(1, 1, g.punct) + g.word(1, 2, ds + g.letters), g.word(1, 2, ds) + g.word(1, 1, g.punct + g.letters),
                                                   g.word(1, 2, g.letters) + g.word(1, 1, ds + g.punct)]), p_dir=0.1)
        if rng.random() < 0.15:
            t.add("match", rng.choice(ds), pre=[m_cls("#", "pre")], post=[], d=g.d.some())
        spice(g, rng)
        runs = fruns(fwd_inputs(g, rng, 3, extra=60, cap=110)) + bruns(bwd_inputs(g, rng, 25))
        yield case(g, runs)


def add_caps(g, rng, p=0.5):
    t = g.t
    for op in ["capsletter", "begcapsword", "endcapsword", "begcaps", "endcaps", "begcapsphrase"]:
        if rng.random() < p:
            kw = {"dir": g.direction(0.1)} if op in ("capsletter", "begcapsword", "endcapsword") else {}
            t.add(op, d=g.d.some(2), **kw)
    if rng.random() < p:
        t.add("endcapsphrase", pos=rng.choice(["before", "after"]), d=g.d.some(2))
    if rng.random() < p:
        t.add("lencapsphrase", n=rng.choice([1, 2, 3, 4]))
    if rng.random() < 0.3:
        t.add("capsmodechars", cs=rng.choice(["-", ",", "-,"]))


def caps_text(rng, g):
    ws = []
    for _ in range(rng.randint(1, 5)):
        k = rng.random()
        n = rng.randint(1, 3)
        if k < 0.45:
            w = "".join(rng.choice(g.uppers) for _ in range(n))
        elif k < 0.8:
            w = "".join(rng.choice(g.uppers + g.letters) for _ in range(n + 1))
        else:
            w = "".join(rng.choice(g.letters) for _ in range(n))
        if rng.random() < 0.2:
            i = rng.randint(0, len(w))
            w = w[:i] + rng.choice((g.punct or "-") + "-") + w[i:]
        ws.append(w)
    s = ws[0]
    for w in ws[1:]:
        s += rng.choice([" ", " ", " ", "  ", (g.punct or "-")[0], "-", (g.punct or ",")[0] + " ", "\u2009" if "\u2009" in g.alpha else " "]) + w
    return s


def fam_caps(rng, n):
    for _ in range(n):
        g = G(rng, letters="ab", uppers="AB", upper_by=rng.choice(["base", "uppercase"]), punct=",")
        if rng.random() < 0.4:
            g.t.add("hyphen", "-", g.d.one())
        more = ""
        if rng.random() < 0.35:      # letters that are only given by the letter they are based on
            for c, nm, b in rng.sample([("\u00e4", "lowercase", "a"), ("\u00c4", "uppercase", "a"), ("c", "lowercase", "b"), ("\u00e9", "accent", "a"),
                                        ("\u00c9", "uppercase", "\u00e9"), ("C", "uppercase", "c")], rng.choice([1, 2, 3])):
                g.t.add("base", nm=nm, cs=[cp(c), cp(b)])
                more += c
        add_caps(g, rng, rng.choice([0.35, 0.6, 0.8]))
        if rng.random() < 0.4:
            add_entry(g, rng.choice(["always", "word", "begword"]), g.word(1, 3))
        spice(g, rng)
        alpha = ["a", "A", " ", ","] if rng.random() < 0.5 else ["a", "A", " ", "-"]
        if "\u2009" in g.alpha:
            alpha[3] = "\u2009"
        inputs = fwd_inputs(g, rng, 4, extra=0, cap=110, alpha=alpha) + [caps_text(rng, g) for _ in range(45)]
        if more:
            inputs += fwd_inputs(g, rng, 2, extra=30, cap=30, maxlen=7, alpha=["a", "A", "A", "B", " "] + list(more))
        yield case(g, fruns(list(dict.fromkeys(inputs))))


def span_sets(rng, classes, length, k):
    """Spans of emphasis over an input, mostly disjoint within a class."""
    out = []
    for c in classes:
        for _ in range(rng.choice([0, 1, 1, 2]) if k is None else k):
            s = rng.randint(0, length)
            e = rng.randint(s, length + (1 if rng.random() < 0.05 else 0))
            out.append({"class": c, "s": s, "e": e})
    rng.shuffle(out)
    return out


def fam_emphasis(rng, n):
    for _ in range(n):
        g = G(rng, letters="ab", punct=rng.choice([",", ""]))
        t = g.t
        classes = rng.choice([["italic"], ["italic", "bold"], ["italic", "bold", "underline"]])
        mode = rng.choice(["word", "emph", "mixed"])
        many = rng.random() < 0.15
        if many:
            classes = ["italic", "bold", "underline", "ca", "cb", "cc", "cd", "ce", "cf", "cg", "ch", "ci"][:rng.choice([4, 5, 6, 8, 12])]
        for c in classes:
            if rng.random() < 0.7:
                t.add("emphclass", nm=c)
        decl = []
        for c in classes:
            q = rng.choice([0.5, 0.8])
            if mode != "emph" or rng.random() < 0.2:
                decl += [(op, c) for op in ["emphletter", "begemphword", "endemphword", "begemphphrase", "endemphphrase", "lenemphphrase"]
                         if rng.random() < q]
            if mode != "word":
                decl += [(op, c) for op in ["begemph", "endemph"] if rng.random() < 0.8]
            if rng.random() < 0.25:
                decl.append(("emphmodechars", c))
            if rng.random() < 0.25:
                decl.append(("noemphchars", c))
        if rng.random() < 0.5:
            rng.shuffle(decl)
        for op, c in decl:
            if op == "endemphphrase":
                t.add(op, nm=c, pos=rng.choice(["before", "after"]), d=g.d.some(2))
            elif op == "lenemphphrase":
                t.add(op, nm=c, n=rng.choice([1, 2, 3, 2, 3, 4, 6]))
            elif op == "emphmodechars":
                t.add(op, nm=c, cs=rng.choice(["-", ",", " "]))
            elif op == "noemphchars":
                t.add(op, nm=c, cs=rng.choice([",", "a", " "]))
            elif op in ("begemph", "endemph"):
                t.add(op, nm=c, d=g.d.some(2), dir=g.direction(0.08))
            else:
                t.add(op, nm=c, d=g.d.some(2))
        if rng.random() < 0.3:
            add_entry(g, "always", g.word(2, 3))
        spice(g, rng)
        runs = []
        # every span of one class over some fixed texts
        text = rng.choice(["a ab", "ab a b", "a b", "ab,a", "aa bb a"])
        for s in range(len(text) + 1):
            for e in range(s, len(text) + 1):
                runs.append({"dir": FWD, "inp": cps(text), "spans": [{"class": classes[0], "s": s, "e": e}]})
        for _ in range(25 if many else 0):          # spans that meet at a position
            x = "".join(rng.choice("aaab ") for _ in range(rng.randint(2, 9)))
            m = rng.randint(1, len(x) - 1)
            sp = []
            for cl in classes:
                a, b = sorted((rng.randint(0, len(x)), rng.randint(0, len(x))))
                a, b = rng.choice([(rng.randint(0, m - 1), m), (m, rng.randint(m + 1, len(x))), (m, rng.randint(m + 1, len(x))), (a, b), (0, len(x))])
                sp.append({"class": cl, "s": a, "e": b})
            rng.shuffle(sp)
            runs.append({"dir": FWD, "inp": cps(x), "spans": sp})
        for _ in range(45 if many else 70):
            words = [g.word(1, 3) + (rng.choice(g.punct) if g.punct and rng.random() < 0.2 else "") for _ in range(rng.randint(1, 5))]
            x = rng.choice([" ", " ", "  ", "-"]).join(words)
            sp = span_sets(rng, classes + (["unknown"] if rng.random() < 0.1 else []), len(x), None)
            if rng.random() < 0.25 and sp:      # coinciding and nested spans
                a = rng.choice(sp)
                sp.append({"class": rng.choice(classes), "s": a["s"], "e": a["e"]})
            runs.append({"dir": FWD, "inp": cps(x), "spans": sp})
        yield case(g, runs)


def fam_lettersign(rng, n):
    for _ in range(n):
        g = G(rng, letters="ab", uppers=rng.choice(["", "A"]), upper_by="base", punct=",", digits=rng.choice(["", "1"]), litdigits=True)
        t = g.t
        if rng.random() < 0.85:
            t.add("letsign", d=g.d.some(2))
        if rng.random() < 0.5:
            t.add("nocontractsign", d=g.d.some(2), dir=g.direction(0.1))
        for op in ["noletsign", "noletsignbefore", "noletsignafter"]:
            for _ in range(rng.choice([0, 0, 1, 1, 2])):
                t.add(op, cs="".join(rng.sample(g.alpha, rng.randint(1, 2))))
        for _ in range(rng.choice([0, 1, 1, 2])):
            t.add("contraction", g.word(1, 3), imp=True)
        for _ in range(rng.choice([0, 1])):
            add_entry(g, rng.choice(["word", "always", "lowword"]), g.word(1, 2))
        if g.digits and rng.random() < 0.6:
            t.add("numsign", d=g.d.some(2))
        if g.uppers and rng.random() < 0.5:
            t.add("capsletter", d=g.d.some(2))
        spice(g, rng)
        runs = fruns(fwd_inputs(g, rng, 3, extra=50, cap=110, maxlen=7)) + bruns(bwd_inputs(g, rng, 8))
        yield case(g, runs)


def fam_compbrl(rng, n):
    for _ in range(n):
        digits = rng.choice(["", "", "1", "12"])
        g = G(rng, letters="ab", punct=".,", uppers=rng.choice(["", "A"]), digits=digits, litdigits=True)
        t = g.t
        for _ in range(rng.choice([1, 1, 2, 3])):
            t.add("compbrl", g.word(1, 2, rng.choice(["ab.", ".,", "ab", "a." + digits])), dir=g.direction(0.1))
        if digits:
            if rng.random() < 0.8:
                t.add("numsign", d=g.d.some(2))
            if rng.random() < 0.4:
                t.add("numericnocontchars", cs=rng.choice(["a", "ab", "."]))
            for _ in range(rng.choice([0, 1, 2])):
                w = rng.choice([g.word(2, 2, digits + "."), g.word(1, 1, digits) + g.word(1, 2, "ab." + digits)])
                t.add("comp6", w, **g.dots(w, 0.2))
        if rng.random() < 0.1:
            t.add("compbrl", " " + rng.choice("ab."))
        for op in ["begcomp", "endcomp"]:
            if rng.random() < 0.7:
                t.add(op, d=g.d.some(2), dir=g.direction(0.08))
        for _ in range(rng.choice([0, 1, 2, 3])):
            w = g.word(1, 2, "ab.," + digits)
            t.add("comp6", w, **g.dots(w, 0.2))
        for _ in range(rng.choice([1, 2])):
            add_entry(g, rng.choice(["always", "word", "begword"]), g.word(1, 3))
        if rng.random() < 0.25:
            t.add("context", ts=[t_str(g.word(1, 2))], ac=[a_dots(g.d.some())])
        if rng.random() < 0.2:
            t.add("capsletter", d=g.d.some(2))
        spice(g, rng)
        runs = fruns(fwd_inputs(g, rng, 3, extra=60, cap=110))
        for _ in range(25):      # spans given by the caller
            x = "".join(rng.choice(g.alpha) for _ in range(rng.randint(1, 7)))
            runs.append({"dir": FWD, "inp": cps(x), "spans": span_sets(rng, ["computer_braille"], len(x), 1)})
        runs += bruns(bwd_inputs(g, rng, 10))
        yield case(g, runs)


def fam_punc(rng, n):
    for _ in range(n):
        g = G(rng, letters="ab", punct="(,", digits=rng.choice(["", "1"]), signs=rng.choice(["", "+"]))
        for _ in range(rng.choice([1, 2, 3])):
            add_entry(g, rng.choice(["prepunc", "postpunc"]), g.word(1, 2, g.punct + (rng.choice(["", "", "a"]))), p_dir=0.1)
        for _ in range(rng.choice([0, 0, 1])):
            add_entry(g, rng.choice(["always", "largesign", "word"]), g.word(1, 2, g.punct + "a"))
        spice(g, rng)
        runs = fruns(fwd_inputs(g, rng, 4, extra=50, cap=150)) + bruns(bwd_inputs(g, rng, 10))
        yield case(g, runs)


def rand_match(g, rng, side, depth=0):
    els = []
    for _ in range(rng.choice([0, 1, 1, 1, 2, 2])):
        k = rng.random()
        if k < 0.22:
            if els and els[-1][0]["k"] in ("lit", "nlit"):
                continue
            e = m_lit(g.word(1, 2))
        elif k < 0.36:
            e = m_any()
        elif k < 0.56:
            e = m_cls("".join(rng.sample("_#aul.^1", rng.choice([1, 1, 2]))), side)
        elif k < 0.72:
            e = m_set("".join(rng.sample(g.alpha, min(2, len(g.alpha)))).replace(" ", "a"))
        elif k < 0.84:
            e = m_bound(side, rng.choice("^$"))
        elif depth < 1:
            a, b = rand_match(g, rng, side, depth + 1), rand_match(g, rng, side, depth + 1)
            if not a:
                continue
            e = m_group([m_alt(a, b)] if b and rng.random() < 0.6 else a)
        else:
            continue
        if e[0]["k"] not in ("start", "end") and rng.random() < 0.35:
            e = m_quant(e, rng.choice("?*+"))
        if rng.random() < 0.18:
            try:
                e = m_neg(e)
            except ValueError:      # a negation the code is known not to define
                continue
        els.append(e)
    return els


def rand_hyph(rng, letters, many=False):
    pats = []
    for _ in range(rng.randint(2, 6)):
        l = cps("".join(rng.choice(letters) for _ in range(rng.randint(1, 3) if not many or rng.random() < 0.4 else rng.randint(4, 9))))
        x = rng.random()
        if x < 0.15:
            l = [46] + l
        elif x < 0.3:
            l = l + [46]
        t = [0] * (len(l) + 1)
        for _ in range(rng.choice([1, 1, 2])):
            t[rng.randrange(len(t))] = rng.randint(1, 6)
        pats.append({"l": l, "t": t})
    if rng.random() < 0.35:
        a = cps("".join(rng.sample(letters, 2)))
        pats.append({"l": a, "t": [0, rng.choice([1, 3, 5]), 0]})
    left, right = rng.choice([(1, 1), (1, 1), (2, 1), (1, 2), (2, 2), (2, 3), (0, 0), (3, 1)])
    return {"on": True, "left": left, "right": right, "pats": pats, "explicit": (left, right) != (1, 1) or rng.random() < 0.5}


def fam_nocross(rng, n, match=False):
    """Contractions that must not cross a syllable break, with a hyphenation dictionary."""
    for i in range(n):
        g = G(rng, letters=rng.choice(["ab", "abc"]), uppers=rng.choice(["", "", "A"]), punct=rng.choice([",", "-", ""]),
              digits=rng.choice(["", "", "1"]), litdigits=rng.random() < 0.5, upper_by=rng.choice(["uppercase", "base"]))
        if g.digits and rng.random() < 0.7:
            g.t.add("numsign", d=g.d.some(2))
        if rng.random() < 0.12:
            g.t.add("compbrl", g.word(2, 2))
        g.nx = 0
        many = rng.random() < 0.35          # long patterns
        hy = rand_hyph(rng, g.letters + g.uppers, many)
        if rng.random() < 0.12:
            hy = {"on": False}
        name = "h%d-%d" % (rng.randrange(10 ** 9), i)
        seen = []
        at = rng.randrange(6)
        for k in range(rng.randint(2, 6)):
            if k == at and hy["on"]:
                g.t.add("include", nm=name + ".dic")
                at = -1
            op = rng.choice(["always"] * 4 + [o for o in CANX if o not in ("prepunc", "postpunc") or g.punct])
            ch = rng.choice(seen) if seen and rng.random() < 0.5 else g.word(2, 3)
            if seen and rng.random() < 0.35:
                ch = rng.choice(seen) + g.word(1, 1)
                if len(ch) < 5 and rng.random() < 0.5:
                    op = rng.choice(["always", "always", "partword"])
            if op in ("prepunc", "postpunc"):
                ch = g.word(1, 2, g.punct)
            seen.append(ch)
            add_entry(g, op, ch, p_dir=0.12, nx=rng.random() < 0.65, imp=0.08)
        if at != -1 and hy["on"]:
            g.t.add("include", nm=name + ".dic")
        if rng.random() < 0.2:
            w = g.word(1, 2)
            g.t.add("context", ts=[t_str(w)], ac=[a_dots(g.d.one())])
        if rng.random() < (0.9 if match else 0.2):
            for _ in range(rng.choice([1, 2])):
                g.t.add("match", g.word(1, 2), pre=rng.choice([[], [m_lit(g.word(1, 2))], [m_lit(rng.choice([x for x in seen if x[0] not in g.punct] or ["a"]))], rand_match(g, rng, "pre")]),
                        post=[], **g.dots())
        if match and rng.random() < 0.5:
            g.t.add("context", ts=[t_str(g.word(1, 3)), t_cap(t_str(g.word(1, 2)))], ac=[a_dots(g.d.one())])
        runs = fruns(fwd_inputs(g, rng, 3, extra=45, maxlen=10, cap=130)) + bruns(bwd_inputs(g, rng, 12))
        if many and hy["on"]:
            for _ in range(35):
                w = [x for x in rng.choice(hy["pats"])["l"] if x != 46]
                a, b = rng.choice([("", ""), ("", " a"), ("b", ""), ("a", "a"), (g.word(1, 2), g.word(1, 3)), ("a ", g.word(1, 1))])
                runs.append({"dir": FWD, "inp": cps(a) + w + cps(b), "spans": []})
        files = {name + ".utb": g.t.source()}
        if hy["on"]:
            files[name + ".dic"] = dic_source(hy, rng)
            hy = {"on": True, "text": [ord(x) for x in files[name + ".dic"]]}
        yield case(g, runs, hy=hy, files=files, tables=[name + ".utb"])


def fam_match(rng, n):
    for _ in range(n):
        g = G(rng, letters="ab", uppers=rng.choice(["", "A"]), punct=rng.choice([",", ""]), digits=rng.choice(["", "1"]))
        if rng.random() < 0.3:
            g.t.add("attribute", nm="1", cs="".join(rng.sample(g.alpha, 2)))
        for _ in range(rng.choice([1, 1, 2, 3])):
            w = g.word(1, 2)
            g.t.add("match", w, pre=rand_match(g, rng, "pre"), post=rand_match(g, rng, "post"), dir=g.direction(0.2), **g.dots(w, 0.15))
        for _ in range(rng.choice([0, 1, 2])):
            add_entry(g, rng.choice(["always", "word", "begword", "endword"]), g.word(1, 3))
        runs = fruns(fwd_inputs(g, rng, 3, extra=50, cap=120, maxlen=7)) + bruns(bwd_inputs(g, rng, 10))
        yield case(g, runs)


def rand_test(g, rng, stage, names, depth=0, cap=True):
    """A test for text (context, correct) or for cells (pass2..4)."""
    text = stage in ("context", "correct")
    usedc = [r["d"] for r in g.t.rules if r["d"] and r["op"] in CHAROPS + ["always"]]

    def lit(neg=False):
        if text:
            return t_str(g.word(1, 2, "".join(g.alpha)), neg)
        return t_dots(sum((rng.choice(usedc) for _ in range(rng.choice([1, 1, 2]))), []), neg)
    def times(few):
        """How often; for a character that comes in long runs, about as often."""
        if g.long and rng.random() < 0.5:
            n = g.long[1]
            return rng.choice([n, n - 1, n + 1, 2 * n, (n - 1, n + 1), (min(1, n - 2), n - 1), (n, n + 2), (2, 2 * n), (n + 1, n + 3)])
        return rng.choice(few)
    els = []
    if depth == 0 and rng.random() < 0.12:
        els.append(t_start(rng.random() < 0.2))
    if depth == 0 and rng.random() < 0.2:
        els.append(t_var(rng.choice([1, 2]), rng.choice([0, 1, 2]), rng.random() < 0.3))
    for _ in range(rng.choice([1, 1, 2, 3]) if depth == 0 else rng.choice([0, 1, 1, 2])):
        k = rng.random()
        if k < 0.4:
            e = lit(rng.random() < 0.12)
        elif k < 0.72:
            attrs = "dlpsSUuDa"
            e = t_attr("".join(rng.sample(attrs if not g.long else "llaas", rng.choice([1, 1, 2]))), times([None, None, ".", 2, 1, (1, 2), (0, 2), (1, 3), 0]),
                       rng.random() < 0.15)
        elif k < 0.86 and names:
            nm = rng.choice(names)
            e = t_class(nm, None if nm.isdigit() else times([None, ".", 2, (1, 2)]), rng.random() < 0.15)
        elif cap and depth == 0:
            e = t_cap(*rand_test(g, rng, stage, names, 1, False))
            cap = False
        else:
            e = lit()
        els.append(e)
    if depth == 0 and rng.random() < 0.08:
        els.append(t_back(rng.choice([1, 2])))
    if depth == 0 and rng.random() < 0.12:
        els.append(t_end(rng.random() < 0.2))
    return els


def related(g, rng, stage):
    """Rules that depend on each other: variables that one sets and another tests, and rules for
    the same place with more or less around what they replace."""
    text = stage in ("context", "correct")
    cellsof = {}
    for r in g.t.rules:
        if r["op"] in CHAROPS and len(r["ch"]) == 1 and r["d"]:
            cellsof.setdefault(r["ch"][0], r["d"])
    alpha = [c for c in (g.letters + g.punct + " ") if cp(c) in cellsof] or ["a"]

    def lit(w):
        return t_str(w) if text else t_dots(sum((cellsof[cp(c)] for c in w), []))

    def out():
        return rng.choice([a_copy(), a_dots(g.d.some(2)), a_dots(g.d.one())]) if stage != "correct" else rng.choice([a_copy(), a_str(g.word(1, 2))])

    def word(n):
        return "".join(rng.choice(alpha) for _ in range(n))

    def place(zero=0.3):
        """A test: something before, the part that is replaced (perhaps nothing), something after"""
        w = word(rng.choice([1, 1, 2, 3]))
        i = rng.randint(0, len(w))
        j = i if rng.random() < zero else rng.randint(i, len(w))
        if (i, j) == (0, len(w)) and rng.random() < 0.7:
            return [lit(w)], w
        return ([lit(w[:i])] if i else []) + [t_cap(*([lit(w[i:j])] if j > i else []))] + ([lit(w[j:])] if j < len(w) else []), w
    if rng.random() < 0.6:
        v = rng.choice([0, 1, 2, 3, 7, 15, 50, 127])
        other = (v + rng.choice([1, 2, 8, 16, 32, 64, 128])) % 256
        n = rng.choice([1, 1, 2, 5, 200])
        for _ in range(rng.choice([1, 1, 2])):
            ts, w = place(0.35)
            to = rng.choice([v, v, other])
            g.t.add(stage, ts=ts, ac=[a_set(to, rng.choice([n, n, n, 0])) if rng.random() < 0.6 else rng.choice([a_inc, a_inc, a_dec])(to)] + rng.choice([[], [out()], [out()]]))
        for _ in range(rng.choice([1, 2, 2])):
            ts, w = place(0.2)
            g.t.add(stage, ts=[t_var(rng.choice([v, v, other]), rng.choice([n, n, n - 1, 0]), rng.random() < 0.15, rng.choice(["=", "=", "<", ">", "<=", ">="]))] + ts,
                    ac=[out()] + rng.choice([[], [], [a_set(v, 0)], [a_dec(v)], [a_inc(v)]]))
    else:
        w = word(rng.choice([2, 3, 3, 4]))
        for _ in range(rng.choice([2, 2, 3])):
            k = rng.randint(1, len(w))
            i = rng.randint(0, k - 1)
            j = rng.randint(i, k)
            g.t.add(stage, ts=([lit(w[:i])] if i else []) + [t_cap(*([lit(w[i:j])] if j > i else []))] + ([lit(w[j:k])] if j < k else []), ac=[out()])


def rand_action(g, rng, stage, swaps):
    text = stage in ("correct",)
    els = []
    if swaps and rng.random() < 0.15:
        return [a_swap(rng.choice(swaps))]
    for _ in range(rng.choice([1, 1, 1, 2, 2])):
        k = rng.random()
        if k < 0.5:
            els.append(a_str(g.word(1, 2, "".join(c for c in g.alpha))) if text else a_dots(g.d.some(2)))
        elif k < 0.68:
            els.append(a_copy())
        elif k < 0.78:
            els.append(a_omit())
        elif k < 0.9 or not swaps:
            els.append(rng.choice([a_set(rng.choice([1, 2]), rng.choice([0, 1, 2, 255])), a_inc(rng.choice([1, 2])), a_dec(rng.choice([1, 2]))]))
        else:
            els.append(a_swap(rng.choice(swaps)))
    return els


def add_classes_and_swaps(g, rng, p=0.6):
    names, swaps = [], []
    if rng.random() < p:
        nm = rng.choice(["grp", "vow", "1"])
        g.t.add("attribute", nm=nm, cs="".join(rng.sample(g.alpha, min(2, len(g.alpha)))))
        names.append(nm)
    if rng.random() < p:
        for _ in range(rng.choice([1, 1, 2])):
            k = rng.choice(["swapcc", "swapcd", "swapdd"])
            nm = rng.choice(["sw", "sw", "sx"])
            m = rng.randint(1, min(3, len(g.alpha)))
            src = rng.sample(g.alpha, m)
            twice = rng.random() < 0.25                 # a character that is mapped twice
            if k in ("swapcc", "swapcd"):
                src += [src[0]] if twice else []
                g.t.add(k, nm=nm, cs="".join(src), ds=[cps(rng.choice(g.alpha)) if k == "swapcc" else g.d.some(2) for _ in src])
            else:
                cs = [r["d"][0] for r in g.t.rules if r["op"] in CHAROPS and len(r["d"]) == 1]
                cs = rng.sample(cs, min(m, len(cs)))
                cs += cs[:1] if twice else []
                g.t.add(k, nm=nm, cs=cs, ds=[g.d.some(2) for _ in cs])
            if nm not in swaps:
                swaps.append(nm)
                names.append(nm)
    return names, swaps


def fam_context(rng, n):
    for _ in range(n):
        g = G(rng, letters="ab", punct=rng.choice(["", ","]), digits=rng.choice(["", "1"]), uppers=rng.choice(["", "A"]),
              litdigits=rng.random() < 0.3)
        names, swaps = add_classes_and_swaps(g, rng)
        if rng.random() < 0.04:
            swaps = swaps + ["nosuch"]
        for _ in range(rng.choice([1, 2, 2, 3])):
            g.t.add("context", ts=rand_test(g, rng, "context", names), ac=rand_action(g, rng, "context", swaps), dir=g.direction(0.3))
        if rng.random() < 0.5:
            related(g, rng, rng.choice(["context", "context", "context", "pass2", "correct"]))
        for _ in range(rng.choice([0, 1, 2])):
            add_entry(g, rng.choice(["always", "word", "begword", "midword"]), g.word(1, 3))
        runs = fruns(fwd_inputs(g, rng, 3, extra=50, cap=110, maxlen=7)) + bruns(bwd_inputs(g, rng, 12))
        yield case(g, runs)


def fam_multipass(rng, n):
    for _ in range(n):
        g = G(rng, letters="ab", punct=rng.choice(["", ","]), digits=rng.choice(["", "1"]), uppers=rng.choice(["", "", "A"]))
        names, swaps = add_classes_and_swaps(g, rng)
        stages = rng.choice([["correct"], ["pass2"], ["correct", "pass2"], ["pass2", "pass3"], ["pass2", "pass3", "pass4"],
                             ["correct", "pass2", "pass3", "pass4"], ["pass4"], ["pass3"]])
        todo = [s for s in stages for _ in range(rng.choice([1, 1, 2, 3]))]
        for _ in range(rng.choice([0, 1, 2])):
            add_entry(g, rng.choice(["always", "always", "word", "largesign"]), g.word(1, 2))
        if rng.random() < 0.4:
            rng.shuffle(todo)
        for s in todo:
            ok = [x for x in swaps]
            g.t.add(s, ts=rand_test(g, rng, s, names), ac=rand_action(g, rng, s, ok), dir=g.direction(0.3))
        if rng.random() < 0.25:
            g.t.add("context", ts=rand_test(g, rng, "context", names), ac=rand_action(g, rng, "context", swaps))
        if rng.random() < 0.5:
            related(g, rng, rng.choice(stages))
        runs = fruns(fwd_inputs(g, rng, 3, extra=40, cap=90, maxlen=7)) + bruns(bwd_inputs(g, rng, 25))
        yield case(g, runs)


UNDEF = "x~\u2603\u00e9\U0001f600\u0301\u0130\u00ad\x07"


def fam_undefined(rng, n):
    for _ in range(n):
        g = G(rng, letters="ab", digits=rng.choice(["", "1"]), litdigits=rng.random() < 0.5)
        for c in rng.sample("\\x0123456789abcdef", rng.choice([0, 3, 8, 16])):
            g.t.add(rng.choice(["sign", "letter", "punctuation"]), c, g.d.some(2))
        if rng.random() < 0.5:
            for _ in range(rng.choice([1, 1, 2])):
                g.t.add("undefined", d=g.d.some(3))
        for _ in range(rng.choice([0, 1])):
            add_entry(g, "always", g.word(1, 2, "ax~"))
        if rng.random() < 0.3:
            g.t.add("pass2", ts=[t_attr("a")], ac=[a_copy(), a_dots(g.d.some())])
        alpha = ["a", " "] + rng.sample(UNDEF, 3)
        if rng.random() < 0.5:       # rules that look back at the characters without definition, or over them
            for _ in range(rng.choice([1, 1, 2])):
                w = "".join(rng.choice(alpha) for _ in range(rng.choice([1, 2])))
                if rng.random() < 0.5:
                    g.t.add("match", rng.choice(["a", "b", "ab", rng.choice(alpha[2:])]), pre=[m_lit(w)], post=[], d=g.d.some(2))
                else:
                    g.t.add("context", ts=[t_str(w), t_cap(t_str(rng.choice(["a", "b", rng.choice(alpha[2:])])))], ac=[a_dots(g.d.some(2))])
        inputs = fwd_inputs(g, rng, 2, extra=30, alpha=alpha, cap=60, maxlen=6)
        for _ in range(10):
            inputs.append(chr(rng.choice([rng.randint(0x21, 0x7e), rng.randint(0xa1, 0x2fff), rng.randint(0x10000, 0x10ffff)])) + "a")
        yield case(g, fruns(list(dict.fromkeys(inputs))) + bruns(bwd_inputs(g, rng, 12)))


def fam_backward(rng, n):
    """Backward with capitals, numbers and colliding dots."""
    for _ in range(n):
        g = G(rng, reuse=rng.choice([0, 0.1, 0.3]), letters="abc", uppers=rng.choice(["", "A"]), upper_by=rng.choice(["base", "uppercase"]),
              punct=rng.choice(["", ","]), digits="12")
        t = g.t
        if rng.random() < 0.5:      # digits that share cells with letters
            ls = [r for r in t.rules if r["op"] == "lowercase"]
            for c, l in zip("12", ls):
                t.add(rng.choice(["digit", "litdigit"]), c, list(l["d"]))
        for op in ["capsletter", "begcapsword", "endcapsword", "numsign", "nonumsign"]:
            for _ in range(rng.choice([0, 1, 1, 2])):
                kw = {} if op == "numsign" else {"dir": g.direction(0.15)}
                t.add(op, d=g.d.some(2), **kw)
        for _ in range(rng.randint(1, 5)):
            mix = rng.random() < 0.35           # letters beside other characters
            ch = g.word(2, 3, g.letters + "12" + g.punct * 2 + "-") if mix else g.word(1, 3)
            add_entry(g, rng.choice(["always"] * 12 + ENTRY) if mix else rng.choice(ENTRY), ch, p_dir=0.3)
        runs = bruns(bwd_inputs(g, rng, 100, maxlen=7, exhaustive=2))
        yield case(g, runs)


def fam_direction(rng, n):
    """Prefixes nofor and noback on every opcode that takes them."""
    for _ in range(n):
        g = G(rng, letters="ab")
        t = g.t
        g.alpha += [",", "1", "A"]
        for c, op in ((",", "punctuation"), ("1", "digit"), ("1", "litdigit"), ("A", "uppercase"), ("+", "sign"), ("*", "math"), ("a", "letter")):
            for _ in range(rng.choice([0, 1, 2])):
                t.add(op, c, g.d.one(), dir=g.direction(0.7))
        for _ in range(rng.randint(2, 6)):
            add_entry(g, rng.choice(ENTRY), g.word(1, 3, "ab,1"), p_dir=0.8)
        for op in ("capsletter", "begcapsword", "endcapsword", "nonumsign", "nocontractsign", "begcomp", "endcomp"):
            if rng.random() < 0.3:
                t.add(op, d=g.d.some(2), dir=g.direction(0.8))
        if rng.random() < 0.3:
            t.add("numsign", d=g.d.some(2))
        if rng.random() < 0.3:
            t.add("compbrl", "b,", dir=g.direction(0.8))
        for s in ("correct", "context", "pass2", "pass3", "pass4"):
            if rng.random() < 0.35:
                t.add(s, ts=rand_test(g, rng, s, []), ac=rand_action(g, rng, s, []), dir=g.direction(0.8))
        if rng.random() < 0.3:
            t.add("match", g.word(1, 2), pre=rand_match(g, rng, "pre"), post=[], d=g.d.some(), dir=g.direction(0.8))
        if rng.random() < 0.3:
            t.add("contraction", g.word(1, 2), imp=True)
        runs = fruns(fwd_inputs(g, rng, 2, extra=30, cap=60)) + bruns(bwd_inputs(g, rng, 40))
        yield case(g, runs)


def add_feature(g, rng, f, state):
    t = g.t
    if f == "entries":
        for _ in range(rng.randint(1, 4)):
            add_entry(g, rng.choice(ENTRY + ["contraction"]), g.word(1, 3, "".join(g.alpha) if rng.random() < 0.15 else g.letters),
                      classes=state["names"] + ["space", "letter"] if rng.random() < 0.2 else ())
    elif f == "numbers":
        t.add("numsign", d=g.d.some(2))
        if rng.random() < 0.4:
            t.add("nonumsign", d=g.d.some(2))
        if rng.random() < 0.4:
            t.add("numericmodechars", cs=",")
        if rng.random() < 0.4:
            t.add("numericnocontchars", cs="ab")
        if rng.random() < 0.4:
            t.add("midnum", ",", d=g.d.some(2))
    elif f == "caps":
        add_caps(g, rng, 0.5)
    elif f == "letsign":
        t.add("letsign", d=g.d.some(2))
        if rng.random() < 0.5:
            t.add("contraction", g.word(1, 2), imp=True)
        if rng.random() < 0.5:
            t.add("nocontractsign", d=g.d.some(2))
    elif f == "comp":
        t.add("compbrl", g.word(1, 2, "ab,"))
        t.add("begcomp", d=g.d.some(2))
        t.add("endcomp", d=g.d.some(2))
        if rng.random() < 0.5:
            t.add("comp6", g.word(1, 2), d=g.d.some(2))
    elif f == "emph":
        for op in ["emphletter", "begemphword", "endemphword"]:
            t.add(op, nm="italic", d=g.d.some(2))
        if rng.random() < 0.4:
            t.add("begemph", nm="bold", d=g.d.some(2))
            t.add("endemph", nm="bold", d=g.d.some(2))
    elif f == "match":
        t.add("match", g.word(1, 2), pre=rand_match(g, rng, "pre"), post=rand_match(g, rng, "post"), d=g.d.some(), dir=g.direction(0.1))
    elif f == "undefined":
        t.add("undefined", d=g.d.some())
        g.alpha.append("~")
    else:
        t.add(f, ts=rand_test(g, rng, f, state["names"]), ac=rand_action(g, rng, f, state["swaps"]), dir=g.direction(0.2))


FEATURES = ["entries", "entries", "numbers", "caps", "letsign", "comp", "emph", "match", "undefined", "correct", "context", "pass2", "pass3", "pass4"]


def fam_mixed(rng, n, must=()):
    """Several features together."""
    for _ in range(n):
        g = G(rng, letters="ab", uppers="A", punct=",", digits="1", litdigits=rng.random() < 0.7, upper_by=rng.choice(["base", "uppercase"]),
              reuse=rng.choice([0, 0, 0.1]))
        names, swaps = add_classes_and_swaps(g, rng, 0.3)
        state = {"names": names, "swaps": swaps}
        fs = list(must) + rng.sample(FEATURES, rng.randint(2, 5))
        rng.shuffle(fs)
        for f in fs:
            add_feature(g, rng, f, state)
        runs = fruns(fwd_inputs(g, rng, 2, extra=50, cap=45)) + bruns(bwd_inputs(g, rng, 25))
        if "emph" in fs:
            for r in runs:
                if r["dir"] == FWD and rng.random() < 0.5 and r["inp"]:
                    r["spans"] = span_sets(rng, ["italic", "bold"], len(r["inp"]), 1)
        yield case(g, runs)


def prefix_free(rng):
    """Codes of which none begins like another."""
    singles = [0x2801 + i for i in range(255)]
    rng.shuffle(singles)
    leads = [singles.pop(), singles.pop()]
    own = [singles.pop() for _ in range(21)]
    used = set()

    def sign():          # an indicator: its cells are used by nothing else
        a = [own.pop() for _ in range(3)]
        return [a[0]] + rng.choice([[], [a[1]], [a[0]], [a[1], a[2]]])

    def code(fresh=False):
        if fresh:
            return [singles.pop() for _ in range(rng.choice([1, 1, 2]))]
        if rng.random() < 0.45:
            return [singles.pop()]
        if rng.random() < 0.4:          # first cells of others, in another order
            return [singles.pop()] + [rng.choice(leads + singles[:8]) for _ in range(rng.choice([1, 2]))]
        while True:
            c = (rng.choice(leads), rng.choice(leads + singles[:30]))
            if c not in used:
                used.add(c)
                return list(c) + ([rng.choice(leads + singles[:9])] if rng.random() < 0.3 else [])
    return code, sign


def fam_round(rng, n):
    """Uniquely decodable tables."""
    for _ in range(n):
        code0, sign = prefix_free(rng)
        shared = rng.random() < 0.4          # digits have the cells of letters, as usual in braille; no cell has two uses besides
        code = lambda: code0(shared)
        t = Table()
        t.add("space", " ", [0x2800] if rng.random() < 0.7 else code())
        letters = rng.choice(["ab", "abc", "aé", "abcd"])
        cell = {}
        for c in letters:
            cell[c] = code()
            while shared and len(cell[c]) > 1:
                cell[c] = code()
            t.add("lowercase" if shared else rng.choice(["lowercase", "lowercase", "letter"]), c, cell[c])
        punct = rng.choice(["", ",", ",.", "-", "'"])
        for c in punct:
            t.add(rng.choice(["punctuation", "punctuation", "sign", "math", "hyphen" if c == "-" else "punctuation"]), c, code())
        alpha = " " + letters + punct
        digits = rng.choice(["", "1", "12"]) if not shared else rng.choice(["1", "12"])
        if digits:
            for c in digits:
                if shared:
                    t.add("digit", c, code())
                    t.add("litdigit", c, cell[letters[int(c) - 1]])
                else:
                    t.add(rng.choice(["litdigit", "digit"]), c, code())
            if shared or rng.random() < 0.85:
                t.add("numsign", d=sign())
                if shared or rng.random() < 0.4:
                    t.add("nonumsign", d=sign())
                    if shared or rng.random() < 0.5:
                        t.add("numericnocontchars", cs=letters)
            if rng.random() < 0.3 and punct and not shared:
                t.add("numericmodechars", cs=rng.choice(punct))
            alpha += digits
        caps = False
        if rng.random() < 0.65:
            up = rng.choice([letters[0], letters])
            for c in up:
                t.add("base", nm="uppercase", cs=[ord(c.upper()), ord(c)])
            alpha += up.upper()
            t.add("capsletter", d=sign())
            caps = True
        words = []
        for _ in range(rng.choice([0, 1, 2, 3, 4])):
            w = "".join(rng.choice(letters) for _ in range(rng.choice([2, 2, 3, 4, 7])))
            op = rng.choice(["always", "always", "always", "syllable", "largesign"])
            t.add(op, w, d=code())
            words.append(w)
        if rng.random() < 0.3:               # further stages that can be undone
            for stage in rng.sample(["pass2", "pass3", "pass4"], rng.choice([1, 2, 3])):
                a, b = [rng.choice(t.rules[rng.choice([1, 2])]["d"])], sign()
                t.add(stage, ts=[t_dots(a)], ac=[a_dots(b)], dir="noback")
                t.add(stage, ts=[t_dots(b)], ac=[a_dots(a)], dir="nofor")
        if rng.random() < 0.2:
            t.add("sign", "z", code0(True))
            t.add("correct", ts=[t_str("\u00a7")], ac=[a_str("z")], dir="noback")
            t.add("correct", ts=[t_str("z")], ac=[a_str("\u00a7")], dir="nofor")
            alpha += "\u00a7"
        al = list(alpha)
        inputs = list(words_over(al, 3))
        if len(inputs) > 160:
            inputs = rng.sample(inputs, 160)
        for _ in range(70):
            x = ""
            while len(x) < rng.randint(3, 14):
                y = rng.choice(al) if rng.random() < 0.5 or not words else rng.choice(words)
                if caps and rng.random() < 0.25:
                    y = y[0].upper() + y[1:] if y[0].upper() in al else y
                x += y
            inputs.append(x)
        def plain(x):      # no capital letter inside a contraction
            low = x.lower()
            if shared and any(a in letters and b in digits for a, b in zip(low, low[1:])):
                return False     # a number sign behind a letter is not read as one
            return not any(low.startswith(w, i) and x[i + 1:i + len(w)] != low[i + 1:i + len(w)] for w in words for i in range(len(x)))
        yield {"rules": t.rules, "hy": {"on": False}, "src": t.source(), "runs": fruns([x for x in dict.fromkeys(inputs) if plain(x)])}
