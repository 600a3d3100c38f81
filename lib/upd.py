"""The string function updater: its specification and a wild script generator."""
import os, re
import strs, vlib
from strs import S

NAME = "amzn-smt-string-fct-updater"
TOOL = None
ENV = dict(vlib.ENV, RUST_BACKTRACE="0")
NAMED = {"a": "07", "b": "08", "f": "0C", "n": "0A", "r": "0D", "t": "09", "v": "0B"}
HEX = "0123456789abcdefABCDEF"


def setup():
    global TOOL
    TOOL = vlib.build_repo_bins([NAME])[NAME]


def escapes(s):
    """z3 escapes of a literal rewritten; every other character stays."""
    out, i = [], 0
    while i < len(s):
        if s[i] == "\\":
            n = s[i + 1: i + 2]
            if n in NAMED and n:
                out.append("\\u{%s}" % NAMED[n])
                i += 2
                continue
            if n == "x" and len(s) >= i + 4 and s[i + 2] in HEX and s[i + 3] in HEX:
                out.append("\\u{%s}" % s[i + 2: i + 4])
                i += 4
                continue
        out.append(s[i])
        i += 1
    return "".join(out)


HEADS = {"str.to.re": "str.to_re", "str.in.re": "str.in_re", "str.to.int": "str.to_int", "int.to.str": "str.from_int"}


def update(t):
    if type(t) is S:
        return S(escapes(str(t)))
    if type(t) is str:
        return "re.none" if t == "re.nostr" else t
    if type(t) is not tuple or not t:
        return t
    if t[0] in ("let",):
        return ("let", tuple((n, update(v)) for n, v in t[1]), update(t[2]))
    if t[0] in ("forall", "exists"):
        return (t[0], t[1], update(t[2]))
    if t[0] == "re.loop":
        return (("_", "re.loop", t[2], t[3]), update(t[1]))
    if type(t[0]) is str and type(t[0]) is not S:
        return (HEADS.get(t[0], t[0]),) + tuple(update(x) for x in t[1:])
    return (t[0],) + tuple(update(x) for x in t[1:])


def update_command(c):
    if c[0] == "assert":
        return (c[0], update(c[1]))
    if c[0] == "define-fun":
        return c[:4] + (update(c[4]),)
    if c[0] == "get-value":
        return (c[0], tuple(update(x) for x in c[1]))
    return c


DEC = re.compile(r"\d+\.\d+\Z")


def same(t):
    """Equal texts have equal images: numbers by value."""
    if type(t) is S:
        return ("lit", str(t))
    if type(t) is str:
        if t[:2] == "#x":
            return t.lower()
        if DEC.match(t):
            return t.rstrip("0") + ("0" if t.rstrip("0").endswith(".") else "")
        return t
    return tuple(same(x) for x in t) if type(t) is tuple else t


ARITH = {"+", "-", "*", "<", ">", "<=", ">=", "div", "mod", "abs"}


def arithmetic(t):
    """Whether the term applies an arithmetic operator."""
    return type(t) is tuple and bool(t) and (t[0] in ARITH and type(t[0]) is str or any(arithmetic(x) for x in t))


def any_arith(cmds):
    return any(c[0] == "assert" and arithmetic(c[1]) or c[0] == "define-fun" and arithmetic(c[4])
               or c[0] == "get-value" and arithmetic(c[1]) for c in cmds)


def convert(text, d, stem="a", ext="smt2", timeout=30):
    """(output text, error, undecided)."""
    p = os.path.join(d, stem)
    with open(p + "." + ext, "w", newline="") as f:
        f.write(text)
    vlib.stale(p + "_upt." + ext, text)
    rc, so, se = vlib.run_cli([TOOL, p], d, timeout, env=ENV, prompt=True)
    if rc is None:
        return None, None, "timeout"
    if rc != 0:
        return None, "exit %s: %s" % (rc, se[-300:]), None
    try:
        with open(p + "_upt." + ext, newline="") as f:
            return f.read(), None, None
    except (OSError, UnicodeDecodeError) as e:
        return None, "no readable output: %s" % e, None


# ------------------------------------------------------------------ wild scripts

SYMS = ["x", "y", "a b", "s0", "re.x", "str", "n", "k!1", "@@", "in.re", "re.nostr2", "str.to.re2", "x;y", "loop", "-1", ".x", "_x", "?q"]
# operators with their argument counts (the tool's reader fixes those of theory operators)
OPS = [("str.to.re", 1), ("str.in.re", 2), ("str.to.int", 1), ("int.to.str", 1), ("str.to_re", 1), ("str.in_re", 2),
       ("str.to_int", 1), ("str.from_int", 1), ("str.++", (2, 4)), ("str.len", 1), ("str.<", 2), ("str.<=", 2), ("str.at", 2),
       ("str.substr", 3), ("str.prefixof", 2), ("str.suffixof", 2), ("str.contains", 2), ("str.indexof", 3),
       ("str.replace", 3), ("str.replace_all", 3), ("str.replace_re", 3), ("str.replace_re_all", 3), ("str.is_digit", 1),
       ("str.to_code", 1), ("str.from_code", 1), ("re.++", (2, 3)), ("re.union", (2, 3)), ("re.inter", (2, 3)), ("re.*", 1),
       ("re.+", 1), ("re.opt", 1), ("re.comp", 1), ("re.diff", 2), ("re.range", 2),
       ("and", (2, 4)), ("or", (2, 3)), ("not", 1), ("=>", (2, 3)), ("xor", 2), ("=", (2, 3)), ("distinct", (2, 3)), ("ite", 3),
       ("select", 2), ("store", 3), ("bvnot", 1), ("bvadd", 2), ("concat", 2), ("f", (1, 3)), ("a b", (1, 2)), ("int2bv", 1)]
NUM = [("+", (2, 3)), ("-", 1), ("-", (2, 3)), ("*", (2, 3)), (">=", 2), (">", (2, 3)), ("<=", 2), ("<", 2), ("div", 2), ("mod", 2), ("abs", 1)]
INDEXED = [(("_", "re.loop", 1, 2), 1), (("_", "re.^", 3), 1), (("_", "extract", 3, 0), 1), (("_", "zero_extend", 2), 1)]
PIECES = ["\\x", "\\x4", "\\x41", "\\xfF", "\\n", "\\a", "\\b", "\\f", "\\r", "\\t", "\\v", "\\u{41}", "\\u0041", "\\q", "\\", "x41", "a", "n",
          '"', " ", "\n", ";", "(", "|", "\\u{", "\\X41", "\\N", "}", "é", "\u4e2d", "0", "\\x0", "\\xg1", "\\x1g", "\\u", "\\e", "\\0", "\\8"]


class Wild:
    def __init__(self, r, arith):
        self.r, self.arith = r, arith

    def lit(self):
        r = self.r
        for _ in range(50):
            s = "".join(r.choice(PIECES) for _ in range(r.randint(0, 6)))
            if "\\\\" not in s:  # what an escaped backslash means is not documented
                return S(s)
        return S("a")

    def atom(self):
        r = self.r
        k = r.random()
        if k < 0.35:
            return self.lit()
        if k < 0.6:
            return r.choice(SYMS)
        if k < 0.75:
            return r.choice([0, 7, 12, 10 ** 25])
        if k < 0.85:
            return r.choice(["re.nostr", "re.none", "re.all", "re.allchar", "true", "false", "re.nostr"])
        return r.choice(["#x0f", "#xAb", "#b0101", "1.5", "0.0", "2.50"])

    def term(self, depth):
        r = self.r
        if depth <= 0 or r.random() < 0.1:
            return self.atom()
        k = r.random()
        sub = lambda: self.term(depth - 1)
        if k < 0.1:
            return ("re.loop", sub(), r.choice([0, 1, 12, 10 ** 20]), r.choice([0, 3, 40]))
        if k < 0.17:
            names = r.sample(SYMS, r.randint(1, 3))
            return ("let", tuple((n, sub()) for n in names), sub())
        if k < 0.22:
            names = r.sample(SYMS, r.randint(1, 2))
            return (r.choice(["forall", "exists"]), tuple((n, self.sort()) for n in names), sub())
        if k < 0.28:
            op, n = r.choice(INDEXED)
        elif k < 0.36 and self.arith:
            op, n = r.choice(NUM)
        elif k < 0.6:
            op, n = r.choice(OPS[:8])
        else:
            op, n = r.choice(OPS)
        if type(n) is tuple:
            n = r.randint(*n)
        return (op,) + tuple(sub() for _ in range(n))

    def sort(self):
        return self.r.choice(["String", "RegLan", "Int", "Bool", "U", ("Array", "Int", "String"), ("_", "BitVec", 8)])

    def command(self):
        r = self.r
        t = lambda: self.term(r.randint(0, 5))
        s = lambda: r.choice(SYMS)
        k = r.randrange(30)
        if k < 14:
            return ("assert", t())
        return [("declare-const", s(), self.sort()), ("declare-fun", s(), tuple(self.sort() for _ in range(r.randint(0, 2))), self.sort()),
                ("define-fun", s(), tuple((n, self.sort()) for n in r.sample(SYMS, r.randint(0, 2))), self.sort(), t()),
                ("get-value", tuple(t() for _ in range(r.randint(1, 3)))), ("check-sat",), ("push", r.randint(1, 2)), ("pop", 1),
                ("echo", self.lit()), ("check-sat-assuming", ("p", ("not", "p"))), ("get-info", ":name"),
                ("set-info", ":k", r.choice([self.lit(), 5, "q r", ("a", 1, S("b\\n"))])), ("set-option", ":o", r.choice([7, "true", S("f\\n.txt")])),
                ("declare-sort", s(), r.randint(0, 2)), ("define-sort", s(), ("X",), ("Array", "X", "Int")),
                r.choice([("exit",), ("reset",), ("get-model",), ("get-assertions",), ("get-unsat-core",), ("reset-assertions",)]),
                ("define-fun", s(), (), "RegLan", t())][k - 14]

    def script(self, n=8):
        r = self.r
        head = []
        for _ in range(r.choice([0, 0, 1, 2, 4])):
            head.append(r.choice([("set-option", ":produce-models", "true"), ("set-option", ":o", r.choice([7, S("f\\n")])),
                                  ("set-info", ":status", "sat"), ("set-info", ":source", "multi\nline \"q\" \\n")]))
        return head, [self.command() for _ in range(r.randint(0, n))]


def show(c, r=None):
    """Text of a command; with r, with comments and white space at random."""
    t = strs.show(c)
    if r is None:
        return t
    out, inq = [], None
    for ch in t:
        if inq:
            out.append(ch)
            if ch == inq:
                inq = None
            continue
        if ch in '"|':
            inq = ch
        if ch == " " and r.random() < 0.1:
            ch = r.choice(["  ", "\n", "\t", " ; c(\"|\n", "\r\n ", "\n\n\n"])
        out.append(ch)
    return "".join(out)
