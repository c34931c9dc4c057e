"""Rules as records (the vocabulary of the TLA+ specification) and their rendering as table source."""

CHAROPS = ["space", "punctuation", "digit", "litdigit", "letter", "lowercase", "uppercase", "sign",
           "math", "hyphen", "decpoint"]
IMPLICIT = ["always", "syllable", "word", "begword", "midword", "endword", "midendword", "begmidword",
            "partword", "prfword", "sufword", "endnum", "comp6", "match"]


MAP = {}       # the characters that stand for those a generator is written with


def cps(s):
    return [ord(MAP.get(c, c)) for c in s] if isinstance(s, str) else list(s)


def cp(c):
    return ord(MAP.get(c, c))


def txt(cs):
    return "".join(chr(c) for c in cs)


def cell(dots):
    """Unicode braille of a dot string such as '124' or '0'."""
    v, virt = 0, False
    for d in str(dots):
        n = int(d, 16)
        if n >= 9:
            virt = True
        if n > 0:
            v |= 1 << (n - 1)
    return (0xF0000 if virt else 0x2800) + v


def cells(dots):
    return [cell(p) for p in str(dots).split("-")]


def dot_text(c):
    base = 0x2800 if c < 0xF0000 else 0xF0000
    s = "".join("%x" % (i + 1) for i in range(15) if (c - base) >> i & 1)
    return s or "0"


def dots_text(cs):
    return "-".join(dot_text(c) for c in cs)


ESC = {" ": "\\s", "\\": "\\\\", "\t": "\\t", "\n": "\\n", "\r": "\\r", "\f": "\\f", "\v": "\\v", "\x1b": "\\e"}


def esc(cs, style=0):
    out = []
    for c in cs:
        ch = chr(c)
        if ch in ESC:
            out.append(ESC[ch])
        elif c < 32 or 0x7f <= c < 0xa1 or c in (0x2028, 0x2029, 0xfeff) or (style and c < 0x10000 and not 0xd800 <= c < 0xe000):
            out.append("\\x%04x" % c)
        else:
            out.append(ch)
    return "".join(out)


# ------------------------------------------------------------------ patterns
# A pattern element is (node, text).

def q_esc(cs):
    out = []
    for c in cs:
        ch = chr(c)
        out.append({'"': '\\"'}.get(ch) or esc([c]))
    return "".join(out)


ATTR = {"a": "*any", "d": "digit", "D": "#litdigit", "l": "letter", "m": "#math", "p": "punctuation",
        "S": "sign", "s": "space", "U": "uppercase", "u": "lowercase"}
MATTR = {"_": "space", "#": "digit", "a": "letter", "u": "uppercase", "l": "lowercase", ".": "punctuation",
         "$": "sign", "~": "seqdelimiter", "<": "seqbeforechars", ">": "seqafterchars"}


def quant(node, q):
    """q: None | '.' | n | (n, m)"""
    if q is None:
        return node, ""
    if q == ".":
        return {"k": "plus", "e": [node]}, "."
    if isinstance(q, int):
        return {"k": "exact", "lo": q, "e": [node]}, str(q)
    return {"k": "range", "lo": q[0], "hi": q[1], "e": [node]}, "%d-%d" % q


def t_str(s, neg=False):
    s = cps(s)
    return {"k": "nlit" if neg else "lit", "s": s}, ("!" if neg else "") + '"' + q_esc(s) + '"'


def t_dots(d, neg=False):
    d = cells(d) if isinstance(d, str) else d
    return {"k": "nlit" if neg else "lit", "s": d}, ("!" if neg else "") + "@" + dots_text(d)


def t_attr(a, q=None, neg=False):
    n, t = quant({"k": "ncls" if neg else "cls", "n": [ATTR[x] for x in a]}, q)
    return n, ("!" if neg else "") + "$" + a + t


def t_class(name, q=None, neg=False):
    n, t = quant({"k": "ncls" if neg else "cls", "n": [name]}, q)
    return n, ("!" if neg else "") + "%" + name + t


def t_var(v, n, neg=False, op="="):
    return {"k": "nvar" if neg else "var", "v": v, "op": op, "n": n}, ("!" if neg else "") + "#%d%s%d" % (v, op, n)


def t_start(neg=False):
    return {"k": "nstart" if neg else "start"}, ("!" if neg else "") + "`"


def t_end(neg=False):
    return {"k": "nend" if neg else "end"}, ("!" if neg else "") + "~"


def t_back(n):
    return {"k": "empty"}, "_%d" % n


def t_cap(*els):
    return {"k": "cap", "e": [e[0] for e in els]}, "[" + "".join(e[1] for e in els) + "]"


def a_str(s):
    s = cps(s)
    return {"k": "lit", "s": s}, '"' + q_esc(s) + '"'


def a_dots(d):
    d = cells(d) if isinstance(d, str) else d
    return {"k": "lit", "s": d}, "@" + dots_text(d)


def a_copy():
    return {"k": "copy"}, "*"


def a_omit():
    return {"k": "other"}, "?"


def a_set(v, n):
    return {"k": "set", "v": v, "n": n}, "#%d=%d" % (v, n)


def a_inc(v):
    return {"k": "inc", "v": v}, "#%d+" % v


def a_dec(v):
    return {"k": "dec", "v": v}, "#%d-" % v


def a_swap(name):
    return {"k": "swap", "nm": name}, "%" + name


# match patterns -------------------------------------------------------------
def m_lit(s):
    return {"k": "lit", "s": cps(s)}, esc(cps(s))


def m_any():
    return {"k": "any"}, "."


def m_attr(a):
    names = [MATTR.get(x, x) for x in a if x != "^"]
    return a, names


def m_cls(a, side):
    """a: attribute letters, '^' for the boundary"""
    names = [MATTR.get(x, x) for x in a if x != "^"]
    b = {"k": "start" if side == "pre" else "end"}
    t = "%" + a if len(a) == 1 else "%[" + a + "]"
    if "^" in a:
        if not names:
            return b, t
        return {"k": "alt", "a": [{"k": "cls", "n": names}], "b": [b]}, t
    return {"k": "cls", "n": names}, t


def m_set(s):
    return {"k": "set", "c": cps(s)}, "[" + "".join("\\" + c if c in "]()" else esc(cps(c)) for c in s) + "]"


def m_bound(side, ch="^"):
    return {"k": "start" if side == "pre" else "end"}, ch


def m_quant(el, q):
    n, t = el
    return {"k": {"?": "opt", "*": "star", "+": "plus"}[q], "e": [n]}, t + q


def m_group(els):
    return {"k": "grp", "e": [e[0] for e in els]}, "(" + "".join(e[1] for e in els) + ")"


def m_alt(a, b):
    return {"k": "alt", "a": [e[0] for e in a], "b": [e[0] for e in b]}, \
        "".join(e[1] for e in a) + "|" + "".join(e[1] for e in b)


NEGK = {"lit": "nlit", "cls": "ncls", "set": "nset", "any": "never", "start": "nstart", "end": "nend",
        "empty": "never", "never": "any", "nstart": "start", "nend": "end", "nlit": "lit", "ncls": "cls", "nset": "set"}


def neg_node(n):
    k = n["k"]
    if k in NEGK:
        return dict(n, k=NEGK[k])
    if k in ("opt", "star", "plus", "grp"):
        return dict(n, e=[neg_node(x) for x in n["e"]])
    if k == "alt":
        return dict(n, a=[neg_node(x) for x in n["a"]], b=[neg_node(x) for x in n["b"]])
    raise ValueError(k)


def m_neg(el):
    return neg_node(el[0]), "!" + el[1]


# --------------------------------------------------------------------- tables
class Table:
    """Collects rules; rule i is on line i of the source."""

    def __init__(self):
        self.rules = []
        self.lines = []

    def add(self, op, ch=None, d=None, imp=False, dir="both", nx=False, bef=(), aft=(), **kw):
        r = {"op": op, "ix": len(self.rules) + 1, "dir": dir, "nx": nx, "bef": list(bef), "aft": list(aft),
             "ch": cps(ch) if ch is not None else [], "imp": imp}
        if d is not None:
            r["d"] = cells(d) if isinstance(d, str) else list(d)
        else:
            r["d"] = []
        style = kw.pop("style", 0)
        pre, post = kw.pop("pre", None), kw.pop("post", None)
        ts, ac = kw.pop("ts", None), kw.pop("ac", None)
        for k, v in kw.items():
            r[k] = cps(v) if k == "cs" and isinstance(v, str) else v
        if ts is not None:
            r["ts"], r["ac"] = [e[0] for e in ts], [e[0] for e in ac]
        if pre is not None:
            r["pre"], r["post"] = [e[0] for e in pre], [e[0] for e in post]
        p = "" if dir == "both" else dir + " "
        if nx:
            p += "nocross "
        # the order among each kind is the order they are written
        p += "".join("before %s " % c for c in bef) + "".join("after %s " % c for c in aft)
        dots = "=" if imp else dots_text(r["d"])
        c = esc(r["ch"], style)
        if op in CHAROPS:
            s = "%s %s %s" % (op, c, dots)
        elif op == "base":
            s = "base %s %s %s" % (r["nm"], esc(r["cs"][:1]), esc(r["cs"][1:2]))
        elif op == "attribute":
            s = "attribute %s %s" % (r["nm"], esc(r["cs"]))
        elif op == "contraction":
            s = "contraction " + c
        elif op == "compbrl":
            s = "compbrl " + c
        elif op in ("numsign", "nonumsign", "capsletter", "begcapsword", "endcapsword", "begcaps", "endcaps",
                    "begcapsphrase", "letsign", "nocontractsign", "begcomp", "endcomp", "undefined"):
            s = "%s %s" % (op, dots)
        elif op == "endcapsphrase":
            s = "%s %s %s" % (op, r["pos"], dots)
        elif op == "lencapsphrase":
            s = "%s %d" % (op, r["n"])
        elif op == "lenemphphrase":
            s = "%s %s %d" % (op, r["nm"], r["n"])
        elif op == "emphclass":
            s = "emphclass " + r["nm"]
        elif op in ("emphmodechars", "noemphchars"):
            s = "%s %s %s" % (op, r["nm"], esc(r["cs"]))
        elif op == "endemphphrase":
            s = "%s %s %s %s" % (op, r["nm"], r["pos"], dots)
        elif op in ("emphletter", "begemphword", "endemphword", "begemphphrase", "begemph", "endemph"):
            s = "%s %s %s" % (op, r["nm"], dots)
        elif op in ("numericmodechars", "numericnocontchars", "noletsign", "noletsignbefore", "noletsignafter",
                    "capsmodechars", "seqdelimiter", "seqbeforechars", "seqafterchars"):
            s = "%s %s" % (op, esc(r["cs"]))
        elif op == "include":
            s = "include " + r["nm"]
        elif op == "swapcc":
            s = "swapcc %s %s %s" % (r["nm"], esc(r["cs"]), "".join(esc(x) for x in r["ds"]))
        elif op == "swapcd":
            s = "swapcd %s %s %s" % (r["nm"], esc(r["cs"]), ",".join(dots_text(x) for x in r["ds"]))
        elif op == "swapdd":
            s = "swapdd %s %s %s" % (r["nm"], ",".join(dot_text(x) for x in r["cs"]), ",".join(dots_text(x) for x in r["ds"]))
        elif op in ("context", "correct", "pass2", "pass3", "pass4"):
            s = "%s %s %s" % (op, "".join(e[1] for e in ts), "".join(e[1] for e in ac))
        elif op == "match":
            a, b = "".join(e[1] for e in pre), "".join(e[1] for e in post)
            s = "match %s %s %s %s" % (a or "-", c, b or "-", dots)
            if not pre:
                r["pre"] = [{"k": "empty"}]
            if not post:
                r["post"] = [{"k": "empty"}]
        else:
            s = "%s %s %s" % (op, c, dots)
        self.rules.append(r)
        self.lines.append(p + s)
        return r

    def source(self):
        return "\n".join(self.lines) + "\n"


def pattern(p, rng=None):
    """A pattern of a dictionary; now and then with digits that say nothing."""
    s = ""
    for i, v in enumerate(p["t"]):
        if rng is not None and v and rng.random() < 0.06:
            s += str(rng.randint(0, 9))
        if v or (rng is not None and rng.random() < (0.1 if i == 0 else 0.02)):
            s += str(v)
        if i < len(p["l"]):
            s += chr(p["l"][i])
    return s


def dic_source(hy, rng=None):
    """The text of a hyphenation dictionary; pats: [{l: letters, t: tally}]."""
    out = [pattern(p, rng) for p in hy["pats"]]
    head = []
    if hy.get("explicit", True):
        head = ["LEFTHYPHENMIN %d" % hy["left"], "RIGHTHYPHENMIN %d" % hy["right"]]
    if rng is None:
        return "\n".join(["UTF-8"] + head + out) + "\n"
    if rng.random() < 0.3:
        head = [rng.choice(["LEFTHYPHENMIN", "RIGHTHYPHENMIN"]) + rng.choice([" ", "", "\t", "  +", " 0"]) + str(rng.randint(0, 3)) for _ in range(rng.randint(1, 3))]
    if rng.random() < 0.35:
        for l in head:
            out.insert(rng.randint(0, len(out)), l)
    else:
        out = head + out
    if rng.random() < 0.4:
        for _ in range(rng.randint(1, 3)):
            out.insert(rng.randint(0, len(out)), rng.choice(["# comment", "% comment", "#a1b", "%a1b", "", "  ", "%1"]))
    if rng.random() < hy.get("bad", 0.04):      # one that cannot be read
        out.insert(rng.randint(0, len(out)), rng.choice(["abc", "a0b", "LEFTHYPHENMIN", "RIGHTHYPHENMIN x", "LEFTHYPHENMIN -1", "LEFTHYPHENMIN 1 2",
                                                         "RIGHTHYPHENMIN 99999999999999999999999", "righthyphenmin", "\u0661b", "a b", "ISO8859-1"]))
    if rng.random() < 0.2:
        out = [" " * rng.choice([0, 1]) + l + rng.choice(["", " ", "\t", "\r"]) for l in out]
    first = rng.choice(["UTF-8"] * 24 + ["utf-8", "Utf-8 ", "", "# UTF-8", None, None] + ([] if hy.get("bad", 1) == 0 else ["UTF8", "ISO8859-1", "iso8859-1", "ISO8859-2"]))
    if first is not None:
        out.insert(0, first)
    return "\n".join(out) + rng.choice(["\n", "\n", ""])
