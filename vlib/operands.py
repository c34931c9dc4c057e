"""P25: the notation of tables, against LouisText.tla (which reads the text of the tables itself)."""
import itertools, random, tempfile, time
import engine, gen, run
from rules import dots_text, txt

DOTCH = "0123456789abcdef"
NAMED = {0x20: "s", 0x5c: "\\", 9: "t", 10: "n", 13: "r", 12: "f", 11: "v", 27: "e"}
BLANK = " \t\n\r\f"
ODD = [0x20, 0x5c, 9, 10, 13, 12, 11, 27, 0x22, 0xa0, 0x1f600, 0x10ffff, 0xfffd, 0xe000, 0x2800, 0x2801, 0x7f, 1, 0x23, 0x2d, 0x3d, 0x2c]
PLAIN = [ord(c) for c in "abcxyzABC019.,;-"] + [0xe9, 0xdf, 0x3b1, 0x431, 0x4e2d]


# ------------------------------------------------------------------ spelling
def hexa(rng, v, n):
    s = "%0*x" % (n, v)
    return "".join(c.upper() if rng.random() < 0.4 else c for c in s)


def spell(rng, c, quoted=False, odd=0.25, bad=""):
    """One of the ways to write a character; bad: characters that must be escaped"""
    ch = chr(c)
    must = ch in BLANK or ch == "\\" or ch in bad or 0xd800 <= c < 0xe000
    if not must and rng.random() > odd:
        return ch
    ways = []
    if c in NAMED:
        ways += ["\\" + NAMED[c]] * 2
    if quoted and ch == '"':
        ways += ['\\"'] * 2
    if c < 0x10000:
        ways.append("\\x" + hexa(rng, c, 4))
    elif not quoted:
        u = c - 0x10000
        ways.append("\\x" + hexa(rng, 0xd800 + (u >> 10), 4) + "\\x" + hexa(rng, 0xdc00 + (u & 1023), 4))
    if c < 0x100000:
        ways.append("\\y" + hexa(rng, c, 5))
    if not ways:
        return ch
    return rng.choice(ways)


def chars_text(rng, cs, odd=0.25):
    return "".join(spell(rng, c, odd=odd) for c in cs)


def quoted_text(rng, cs):
    return '"' + "".join(spell(rng, c, True, bad='"') for c in cs) + '"'


def cell_text(rng, v):
    base = 0x2800 if v < 0xF0000 else 0xF0000
    ds = [DOTCH[i + 1] for i in range(15) if (v - base) >> i & 1]
    if rng.random() < 0.3:
        rng.shuffle(ds)
    if rng.random() < 0.2 and ds:
        ds.insert(rng.randrange(len(ds) + 1), rng.choice(ds))
    if not ds or rng.random() < 0.1:
        ds.insert(rng.randrange(len(ds) + 1), "0")
    return "".join(ds)


def cells_text(rng, cs):
    return "-".join(cell_text(rng, c) for c in cs)


def some_cell(rng):
    if rng.random() < 0.25:
        return 0xF0000 + (rng.randrange(1, 128) << 8) + rng.randrange(256)
    return 0x2800 + rng.randrange(256)


def some_cells(rng):
    return [some_cell(rng) for _ in range(rng.choice([1, 1, 1, 2, 3]))]


def number(rng, n):
    return rng.choice(["%d", "%d", "%03d", "+%d", "+0%d"]) % n


# --------------------------------------------------------------- whole tables
class Table:
    def __init__(self, rng):
        self.rng, self.lines = rng, []
        self.chars, self.strings, self.cells, self.seqs = [], [], [], []

    def use(self, cs=(), ds=()):
        if cs:
            self.strings.append(list(cs))
            self.chars += cs
        if ds:
            self.seqs.append(list(ds))
            self.cells += ds

    def put(self, *words):
        rng = self.rng
        gap = lambda: rng.choice([" "] * 6 + ["  ", "\t", " \t ", "\f", "\r"])
        s = rng.choice([""] * 6 + [" ", "\t", "\f "])
        for i, w in enumerate(words):
            s += (gap() if i else "") + w
        s += rng.choice([""] * 6 + [" ", "\t", "\r", " # remark", " remark 12", " \xa0", " = ="])
        self.lines.append(s)
        if rng.random() < 0.12:
            self.lines.append(rng.choice(["", " ", "\t", "# x", "  # y", "\xa0", "\u2003", "\x0b# z", "\x0b", "#always q 1", "\u3000#", "\x85", "\f"]))

    def some(self, n=3):
        rng = self.rng
        return [rng.choice(self.chars if self.chars and rng.random() < 0.6 else (ODD if rng.random() < 0.4 else PLAIN)) for _ in range(rng.randint(1, n))]

    def prefix(self, p=0.3):
        return [self.rng.choice(["nofor", "noback"])] if self.rng.random() < p else []


def nodes_text(rng, t, depth=0):
    """A test operand: random instructions over the characters and cells in use"""
    out = []
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        k = rng.random()
        neg = "!" if rng.random() < 0.15 else ""
        q = rng.choice(["", "", "", ".", "1", "2", "1-2", "0-3", "2-03", "007", "0"])
        if k < 0.35:
            out.append(neg + quoted_text(rng, t.some(2)))
        elif k < 0.5 and t.cells:
            out.append(neg + "@" + cells_text(rng, [rng.choice(t.cells)]))
        elif k < 0.7:
            out.append(neg + "$" + "".join(rng.choice("adDlmpsSuUwz") for _ in range(rng.choice([1, 1, 2]))) + q)
        elif k < 0.8:
            c = rng.choice(["foo", "Bar", "space", "digit", "1", "7", "nosuch", "math"])
            out.append(neg + "%" + c + (q if not c.isdigit() else ""))
        elif k < 0.86:
            out.append("_" + rng.choice(["", "1", "2", "12"]))
        elif k < 0.92:
            out.append(neg + "#%s%s%s" % (rng.choice(["1", "01", "200"]), rng.choice(["=", "<", ">", "<=", ">="]), rng.choice(["0", "1", "002", "255"])))
        elif k < 0.96:
            out.append(neg + rng.choice("`~"))
        elif depth == 0 and not any("[" in x for x in out):
            out.append("[" + nodes_text(rng, t, 1) + "]")
    if not out:
        out.append(quoted_text(rng, t.some(2)))
    return "".join(out)


def action_text(rng, t, swaps):
    out = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        k = rng.random()
        if k < 0.35:
            out.append("@" + cells_text(rng, some_cells(rng)))
        elif k < 0.55:
            out.append(quoted_text(rng, t.some(2)))
        elif k < 0.75:
            out.append("*")
        elif k < 0.82:
            out.append("?")
        elif k < 0.92:
            out.append("#%s%s" % (rng.choice(["1", "01", "200"]), rng.choice(["=0", "=1", "=2", "=255", "=007", "+", "-"])))
        elif swaps:
            out.append("%" + rng.choice(swaps))
    return "".join(out) or "?"


def pattern_text(rng, t, depth=0):
    out = []
    for _ in range(rng.choice([1, 1, 2, 3]) if depth < 2 else 1):
        k = rng.random()
        neg = "!" if rng.random() < 0.15 and depth < 2 else ""
        if k < 0.3:
            cs = [c for c in t.some(2) if chr(c) not in ".*%^$![]()\\?+|"] or [97]
            if not out and not depth and cs[0] == 45:
                cs = [97]
            x = "".join(spell(rng, c) for c in cs)
        elif k < 0.4:
            x = "."
        elif k < 0.6:
            a = "".join(rng.choice("_#aul.$~<>^07") for _ in range(rng.choice([1, 1, 2])))
            x = "%" + a if len(a) == 1 and rng.random() < 0.6 else "%[" + a + "]"
        elif k < 0.75:
            x = "[" + "".join(("\\" + chr(c)) if chr(c) in "]()" else spell(rng, c) for c in t.some(3) + rng.choice([[], [93], [40, 41]]) if c != 92) + "]"
            if x == "[]":
                x = "[a]"
        elif k < 0.83:
            x = rng.choice("^$")
        elif depth < 2:
            x = "(" + pattern_text(rng, t, depth + 1) + rng.choice(["", "", "|" + pattern_text(rng, t, depth + 1)]) + ")"
        else:
            x = "a"
        out.append(neg + x + rng.choice(["", "", "", "?", "*", "+"]))
    return "".join(out)


def valid_table(rng):
    """A table whose operands are written in odd ways"""
    t = Table(rng)
    for c, op in [(32, "space"), (97, "lowercase"), (98, "lowercase"), (99, "letter"), (49, "digit"), (46, "punctuation"), (65, "uppercase")]:
        if rng.random() < 0.9:
            d = [some_cell(rng)]
            t.use([c], d)
            t.put(*t.prefix(0.05), op, spell(rng, c), cells_text(rng, d))
    for _ in range(rng.choice([0, 1, 2, 4])):
        c, d = rng.choice(ODD + PLAIN), some_cells(rng)
        t.use([c], d)
        op = rng.choice(["sign", "math", "letter", "punctuation", "space", "litdigit", "hyphen", "decpoint", "lowercase", "uppercase", "digit"])
        t.put(*(t.prefix() if op != "decpoint" else []), op, spell(rng, c, odd=0.6), cells_text(rng, d))
    swaps = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        k = rng.choice(["attribute", "swapcc", "swapcd", "swapdd"])
        nm = rng.choice(["foo", "Bar", "x1"] if k != "attribute" else ["foo", "Bar", "1", "7", "space", "math"])
        cs = t.some(3)
        n = len(cs)
        if k == "attribute":
            t.put(k, nm, chars_text(rng, cs))
        elif k == "swapcc":
            t.put(k, nm, chars_text(rng, cs), chars_text(rng, [rng.choice(ODD + PLAIN) for _ in range(n)]))
        elif k == "swapcd":
            t.put(k, nm, chars_text(rng, cs), ",".join(cells_text(rng, some_cells(rng)) for _ in cs))
        else:
            ds = [rng.choice(t.cells or [0x2801]) for _ in cs]
            t.put(k, nm, ",".join(cell_text(rng, d) for d in ds), ",".join(cells_text(rng, some_cells(rng)) for _ in cs))
        t.use(cs)
        if k != "attribute" and nm.isalpha():
            swaps.append(nm)
    for _ in range(rng.choice([2, 4, 7])):
        k = rng.random()
        if k < 0.4:
            op = rng.choice(gen.ENTRY + ["always"] * 8)
            cs, d = t.some(3), some_cells(rng)
            t.use(cs, d)
            w = t.prefix() if op not in gen.NOPREFIX else []
            if op in gen.CANX and rng.random() < 0.1:
                w.append("nocross")
            if op in gen.CLASSED:
                for _ in range(rng.choice([0, 0, 0, 1, 2])):
                    w += [rng.choice(["before", "after"]), rng.choice(["letter", "digit", "foo", "space", "nosuch"])]
            t.put(*w, op, chars_text(rng, cs), "=" if op in gen.IMPLICIT and rng.random() < 0.15 else cells_text(rng, d))
        elif k < 0.5:
            op = rng.choice(["undefined", "numsign", "capsletter", "begcapsword", "endcapsword", "begcaps", "endcaps", "begcapsphrase", "letsign",
                             "nocontractsign", "nonumsign", "begcomp", "endcomp"])
            t.put(op, cells_text(rng, some_cells(rng)))
        elif k < 0.56:
            op = rng.choice(["numericmodechars", "numericnocontchars", "noletsign", "noletsignbefore", "noletsignafter", "capsmodechars",
                             "seqdelimiter", "seqbeforechars", "seqafterchars"])
            cs = t.some(3)
            t.use(cs)
            t.put(op, chars_text(rng, cs))
        elif k < 0.6:
            x = rng.random()
            if x < 0.4:
                t.put("lencapsphrase", number(rng, rng.choice([1, 2, 3, 4])))
                t.put("begcapsphrase", cells_text(rng, some_cells(rng)))
                t.put("endcapsphrase", rng.choice(["before", "after"]), cells_text(rng, some_cells(rng)))
            elif x < 0.7:
                t.put("base", rng.choice(["uppercase", "foo"]), spell(rng, rng.choice([65, 66, 0xc9, 0x1f600])), spell(rng, rng.choice([97, 98, 99, 32])))
            else:
                t.put(rng.choice(["compbrl", "contraction"]), chars_text(rng, [rng.choice([97, 98, 46]) for _ in range(2)]))
        elif k < 0.8:
            op = rng.choice(["context"] * 3 + ["correct", "pass2", "pass3", "pass4"])
            t.put(*t.prefix(), op, nodes_text(rng, t), action_text(rng, t, swaps))
        elif k < 0.95:
            cs, d = t.some(2), some_cells(rng)
            t.use(cs, d)
            side = lambda: rng.choice(["-", "-a"]) if rng.random() < 0.3 else pattern_text(rng, t)
            t.put(*t.prefix(), *rng.choice([[], [], [], ["empmatchbefore"], ["empmatchafter", "empmatchbefore"]]),
                  "match", side(), chars_text(rng, cs), side(), rng.choice(["=", cells_text(rng, d)]) if rng.random() < 0.3 else cells_text(rng, d))
        else:
            cs, d = t.some(2), some_cells(rng)
            t.use(cs, d)
            t.put("comp6", chars_text(rng, cs), cells_text(rng, d))
    return t


def inputs(rng, t, n):
    runs = []
    for _ in range(n):
        if rng.random() < 0.65 or not t.seqs:
            s = []
            while len(s) < rng.choice([1, 2, 4, 7]):
                s += rng.choice(t.strings) if t.strings and rng.random() < 0.7 else [rng.choice(t.chars or [97])]
            runs.append({"dir": "f", "inp": s[:9], "spans": []})
        else:
            s = []
            while len(s) < rng.choice([1, 2, 4, 7]):
                s += rng.choice(t.seqs) if rng.random() < 0.8 else [rng.choice(t.cells)]
            runs.append({"dir": "b", "inp": s[:9], "spans": []})
    return runs


def case(lines, runs):
    return {"src": "\n".join(lines) + "\n", "runs": runs}


# ------------------------------------------------------------------ mutations
MUT = list("\\\\\\\\xyse\"\"[]()$%@#!_`~^.*+?|-,=<>0019afgABz'\u00e9") + [" ", "", "", "\\s", "--", "@1", "nofor ", "nocross ", "before ", "+"]
WORDY = ["nofor", "noback", "nocross", "before", "after", "letter", "empmatchbefore", "empmatchafter"]
OTHER = ["multind 1-2 letsign capsletter", "multind 1 letsign", "display a 1", "display a 1-2", "nofor display \\s 0", "grouping par () 1,2", "grouping par () 1,2,3",
         "grouping par () 1-2,3", "modeletter letter 1", "begmodeword letter 1", "begmodephrase letter 1", "endmodephrase letter after 1",
         "endmodephrase letter 1", "lenmodephrase letter 3", "seqafterpattern ab", "seqafterexpression ab", "class foo abc", "class f_o abc",
         "nocont ab", "replace ab", "replace ab c", "replace", "repeated --- 1-2", "repword - 1", "rependword - 1,2-3", "rependword - 1",
         "exactdots ab", "joinnum a 1", "literal ab", "capsnocont", "nofor capsnocont", "emphclass italic", "emphclass", "begemph italic 1",
         "noback begemph italic 1", "nofor emphletter italic 1", "lenemphphrase italic 3", "lenemphphrase italic x", "endemphphrase italic before 1",
         "endemphphrase italic 1", "emphmodechars italic ab", "noemphchars italic", "begcapsphrase", "endcapsphrase 1", "nofor undefined 1",
         "nocross always ab 1", "nocross context \"a\" @1", "nofor nocross always ab 1", "nocross nofor always ab 1", "nofor noback always ab 1",
         "before letter always a 1", "before letter after digit always a 1", "before always a 1", "always a 1", "before", "before letter", "nofor",
         "empmatchbefore match - a - 1", "empmatchbefore before letter match - a - 1", "before letter empmatchafter match - a - 1", "Always a 1",
         "always a", "sign ab 1", "sign a 1 2 3", "sign \\s\\s 1", "lencapsphrase -1", "lencapsphrase 1.5", "lencapsphrase +", "lencapsphrase 0x1",
         "decpoint , 1", "nofor decpoint , 1", "nofor hyphen - 1", "base foo A a", "base foo AB a", "base foo A", "nofor base foo A a",
         "swapcc x ab cd", "swapcc x ab cde", "swapcd x ab 1,2", "swapcd x ab 1", "swapcd x ab 1,,2", "swapdd x 1,2 3,4-5", "swapdd x 1-2 3", "swapdd x 1,2 3"]


def mutate(rng, line):
    s = list(line)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        i = rng.randrange(len(s) + 1)
        k = rng.random()
        if k < 0.3 and s:
            del s[min(i, len(s) - 1)]
        elif k < 0.65:
            s.insert(i, rng.choice(MUT))
        elif s:
            j = min(i, len(s) - 1)
            if rng.random() < 0.2 and len(s) > 2:
                m = rng.randrange(len(s))
                s[j], s[m] = s[m], s[j]
            else:
                s[j] = rng.choice(MUT)
    s = "".join(s).replace("\n", " ")
    if rng.random() < 0.08:
        s = rng.choice(WORDY) + " " + s
    return s


def bad_table(rng):
    """Many lines, right and wrong"""
    lines = []
    while len(lines) < 40:
        t = valid_table(rng)
        for l in t.lines:
            if rng.random() < 0.5:
                lines.append(mutate(rng, l) if rng.random() < 0.75 else l)
        for _ in range(6):
            l = rng.choice(OTHER)
            lines.append(mutate(rng, l) if rng.random() < 0.6 else l)
    lines = [l for l in lines if "include" not in l]
    rng.shuffle(lines)
    return case(lines[:60] + ["nosuchopcode"], [{"dir": rng.choice("fb"), "inp": [97], "spans": []}])


def one_mutant(rng):
    """A table with one line changed, and its meaning if it is still a rule"""
    t = valid_table(rng)
    i = rng.randrange(len(t.lines))
    t.lines[i] = mutate(rng, t.lines[i])
    if "include" in t.lines[i]:
        t.lines[i] = ""
    return case(t.lines, inputs(rng, t, 14))


# ---------------------------------------------------------- small enumerations
SPOTS = [   # (words around an operand, alphabet of the operand)
    ("undefined %s", "018af-,="), ("always a %s", "018aA-=,"), ("swapdd x 1,2 %s", "12-,a"), ("swapdd x %s 1,2", "12-,a"), ("grouping g a %s", "12-,a"),
    ("swapcd x ab %s", "12-,a"), ("noletsign %s", "\\xys0dD8(t"), ("sign %s 1", "\\xys0ab"), ("swapcc x a %s", "\\sab"),
    ("context %s @1", "\"a\\[]$d1.-!#=%@_`~<x"), ("context \"a\" %s", "\"a\\@1-*?#=%+x["), ("pass2 \"%s\" *", "\\\"xyst0a"), ("correct \"a\" \"%s\"", "\\\"xyst0a"),
    ("pass3 $d%s ?", "0129-."), ("pass4 %%ab%s ?", "019-.a"), ("context #%s @1", "12=<>#"), ("context \"a\" #%s", "12=+-"),
    ("match %s a - 1", "a.%[]^$!()\\?*+|-_"), ("match - a %s 1", "a%[]^!(|)-\\*"), ("lencapsphrase %s", "019+-a"), ("base %s A a", "ab1_-"), ("%s a 1", "aslwy")]


def enumerated(rng, depth, cap):
    """All short operands, in tables of errors and rules"""
    lines = []
    for form, alpha in SPOTS:
        ws = ["".join(w) for n in range(1, depth + 1) for w in itertools.product(alpha, repeat=n)]
        if len(ws) > cap:
            ws = rng.sample(ws, cap)
        lines += [form % w for w in ws]
    for h in ("0041", "d83d", "DE00", "dc00", "d800\\xdfff", "dbff\\xDFFF", "d83d\\xde0", "d83d\\yde00", "d83d\\xd83d\\xde00", "ffff", "+041", "-041", " 041", "00g0", "41"):
        lines += ["noletsign \\x" + h, "noletsign \\y" + h, "noletsign \\y0" + h, "noletsign \\yf" + h, "sign \\x%s 1" % h, 'context "\\x%s" @1' % h,
                  'context "\\y0%s" @1' % h, 'pass2 "a" "\\x%s"' % h, 'pass2 "a" "\\y1%s"' % h, "match - a \\x%s 1" % h, "match [\\x%s] a - 1" % h]
    rng.shuffle(lines)
    n = 400
    return [case(lines[i:i + n] + ["nosuchopcode"], [{"dir": "f", "inp": [97], "spans": []}]) for i in range(0, len(lines), n)]


def small_cells(rng, cap):
    """The cells of every short operand of dots"""
    ws = ["".join(w) for n in (1, 2, 3, 4) for w in itertools.product("0147-9f", repeat=n)]
    ws = [w for w in ws if all(w.split("-"))]
    if len(ws) > cap:
        ws = rng.sample(ws, cap)
    out = []
    for i in range(0, len(ws), 50):
        p = ws[i:i + 50]
        inp = [0x4e00 + k for k in range(len(p))]
        out.append(case([rng.choice(["sign", "punctuation", "letter"]) + " %c %s" % (0x4e00 + k, w) for k, w in enumerate(p)], [{"dir": "f", "inp": inp, "spans": []}]))
    return out


def small_chars(rng, cap):
    """The characters of short operands: read back from cells of their own"""
    ws = ["".join(w) for n in (1, 2, 3) for w in itertools.product(["\\s", "\\\\", "a", "\\x0041", "\\xd83d", "\\xDE00", "\\y1f600", "\\t", "\\n", "\\e", "\\f", "\\v", "\\r", "x", "s", "(", "="], repeat=n)]
    ws = rng.sample(ws, min(cap, len(ws)))
    out = []
    for i in range(0, len(ws), 40):
        p = ws[i:i + 40]
        ls = ["always %s 123456-%s-%s" % (w, DOTCH[1 + k // 7], DOTCH[1 + k % 7]) for k, w in enumerate(p)]
        out.append(case(ls, [{"dir": "b", "inp": [0x283f, 0x2800 + (1 << k // 7), 0x2800 + (1 << k % 7)], "spans": []} for k in range(len(p))]))
    return out


def small_tests(rng, cap):
    """The meaning of short tests and patterns"""
    out = []
    tests = ['"a"', '"\\s"', '"\\\\"', '"\\""', "$l", "$d", "!$l", "%foo", "[\"b\"]", "`", "~", '!"a"', "$a", "%foo2", "$l1-2", "$l.", "_1", "#1=0", "#1>0", "@1", '"\\b"', '"\\x0061"']
    pats = ["a", ".", "%a", "%[a^]", "%^", "^", "$", "!a", "[ab]", "[\\]]", "(a|b)", "a?", "a*", "[a]+", "!%a", "%#", "%_", "(ab)?", "!.", "ab?", "\\s", "a-", "%.", "!^", "(!a)"]
    base = ["space \\s 0", "lowercase a 1", "lowercase b 12", "digit 1 2", "punctuation . 256", "sign \\\\ 16", "sign \" 15", "sign ] 4", "attribute foo ab1"]
    alpha = [97, 98, 32, 49, 46, 92, 34, 93]
    for _ in range(cap):
        t = Table(rng)
        t.chars = alpha
        t.strings = [[c] for c in alpha]
        if rng.random() < 0.5:
            w = rng.choice(tests) + rng.choice(tests + [""])
            if w.count("[") > 1:
                continue
            op = rng.choice(["context", "correct"])
            l = op + " " + w + " " + rng.choice(["@3456", "*", "@36*", '"b"@7' , "?", "#1+", "*#1-", "#1+@36#1+"])
            if rng.random() < 0.4:   # a variable that another rule changes
                l2 = '%s "%s" %s*' % (op, rng.choice("ab1"), rng.choice(["#1+", "#1-", "#1=255", "#1=1", "#1=1#1-", "#1=254#1+#1+", "#1=255#1+", "#1-#1+"]))
                l3 = '%s #1%s%s$a @345' % (op, rng.choice(["=", ">", "<=", ">="]), rng.choice("012") if rng.random() < 0.7 else "255")
                out.append(case(base + rng.sample([l, l2, l3], 3), inputs(rng, t, 12)))
                continue
        else:
            l = "match %s %s %s 3456" % (rng.choice(pats) + rng.choice(pats + [""] * 9), rng.choice(["a", "b", "\\s", "1"]), rng.choice(pats) + rng.choice(pats + [""] * 9))
        out.append(case(base + [l], inputs(rng, t, 12)))
    return out


def batch(seed, tier):
    rng = random.Random("%s/P25" % seed)
    q = tier == "quick"
    cases = []
    for _ in range(1200):
        t = valid_table(rng)
        cases.append(case(t.lines, inputs(rng, t, 14)))
    cases += [one_mutant(rng) for _ in range(1000)]
    cases += [bad_table(rng) for _ in range(300)]
    cases += enumerated(rng, 3 if q else 4, 600 if q else 1200)
    cases += small_cells(rng, 4000)
    cases += small_chars(rng, 4000)
    cases += small_tests(rng, 600)
    # tables of the other families, read by the specification
    for pid in sorted(engine.PLANS):
        other = [c for c in engine.batch(pid, seed, 10) if "tables" not in c and not c["hy"]["on"] and "files" not in c]
        for c in other:
            rs = [r for r in c["runs"] if not r["spans"] and "mode" not in r]
            if rs:
                cases.append({"src": c["src"], "runs": rng.sample(rs, min(len(rs), 10))})
    for i, c in enumerate(cases):
        c["id"] = i + 1
        c["text"] = [ord(ch) for ch in c["src"]]
    return cases


def describe(c, i, what, detail):
    r = c["runs"][i]
    return {"table": c["src"], "direction": r["dir"], "input": r["inp"], "input_text": engine.show(r), "differs": what, "observed": r["obs"],
            "specified": detail, "case": {"src": c["src"]}}


def check(pid, tier, seed, report):
    t0 = time.time()
    binary, hook = run.build()
    work = tempfile.mkdtemp(prefix="louis-" + pid)
    stats = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "tables": 0, "lines": 0, "lines_refused": 0, "backward_runs": 0}
    samples, found = [], []
    k = 0
    try:
        while True:
            cases = batch("%d.%d" % (seed, k), tier)
            run.observe(binary, cases, work)
            engine.confirm(binary, cases, work)
            cases = engine.collect(cases)
            for c in cases:
                c["cost"] = 30 + len(c["text"]) * 2 + sum(len(r["inp"]) + 3 for r in c["runs"]) * 12
            st, bad = run.shards(cases, ("id", "text", "runs"), work, "LouisText.tla", "LouisText.cfg")
            by = {c["id"]: c for c in cases}
            found += [describe(by[i], j, w, d) for i, j, w, d in bad]
            for f in ("states", "transitions"):
                stats[f] += st[f]
            for c in cases:
                stats["tables"] += 1
                stats["traces_validated_against_impl"] += len(c["runs"])
                stats["lines"] += c["src"].count("\n")
                o = c["runs"][0]["obs"]
                stats["lines_refused"] += len(o.get("ln") or [])
                stats["backward_runs"] += sum(r["dir"] == "b" for r in c["runs"])
            if not samples:
                rng = random.Random(seed)
                for c in rng.sample([c for c in cases if c["runs"][0]["obs"]["t"] == "out"], 3):
                    r = rng.choice(c["runs"])
                    samples.append({"table": c["src"], "direction": r["dir"], "input": engine.show(r), "observed": r["obs"]["t"],
                                    "output": txt(r["obs"].get("v", []))})
            k += 1
            if found or tier == "quick" or time.time() - t0 > engine.THOROUGH_S:
                break
    finally:
        run.rmtree(work)
    stats.update(samples=samples, batches=k)
    found.sort(key=lambda f: len(f["input"]) + len(f["table"]) / 10)
    report(found, stats)
