"""SMT-LIB strings: reader, printer, an independent evaluator, script generators."""
import re as pyre


class S(str):
    """A string literal (its characters as written between the quotes, "" undone)."""

    __slots__ = ()

    def __eq__(self, o):
        return type(o) is S and str.__eq__(self, o)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(("S", str(self)))

    def __repr__(self):
        return "S(%s)" % str.__repr__(self)


TOKEN = pyre.compile(r'\s+|;[^\n]*|"(?:[^"]|"")*"|\|[^|]*\||[()]|[^\s()";|]+')


class BadText(Exception):
    pass


def read(text):
    """All s-expressions of a text: tuples, S literals, ints and symbols (str; |x| loses its bars)."""
    out, stack, pos = [], [], 0
    cur = out
    while pos < len(text):
        m = TOKEN.match(text, pos)
        if not m:
            raise BadText("cannot read %r" % text[pos:pos + 30])
        tok, pos = m.group(), m.end()
        if tok[0].isspace() or tok[0] == ";":
            continue
        if tok == "(":
            stack.append(cur)
            cur = []
        elif tok == ")":
            if not stack:
                raise BadText("unbalanced )")
            done = tuple(cur)
            cur = stack.pop()
            cur.append(done)
        elif tok[0] == '"':
            cur.append(S(tok[1:-1].replace('""', '"')))
        elif tok[0] == "|":
            cur.append(tok[1:-1])
        elif tok.isdigit():
            cur.append(int(tok))
        else:
            cur.append(tok)
    if stack:
        raise BadText("unbalanced (")
    return out


SIMPLE = pyre.compile(r":?[A-Za-z~!@$%^&*_+=<>.?/-][A-Za-z0-9~!@$%^&*_+=<>.?/-]*\Z")  # or a keyword


def show(t):
    if type(t) is tuple:
        return "(" + " ".join(show(x) for x in t) + ")"
    if type(t) is S:
        return '"' + str(t).replace('"', '""') + '"'
    if type(t) is bool:
        return "true" if t else "false"
    if type(t) is int:
        return str(t) if t >= 0 else "(- %d)" % -t
    return t if SIMPLE.match(t) or pyre.match(r"#[bx][0-9a-fA-F]+\Z|\d+\.\d+\Z", t) else "|%s|" % t


ESC = pyre.compile(r"\\u\{([0-9a-fA-F]{1,5})\}|\\u([0-9a-fA-F]{4})|\\x([0-9a-fA-F]{2})")


def chars(lit, z3x=False):
    """The sequence of characters an SMT-LIB 2.6 literal denotes."""

    def sub(m):
        h = m.group(1) or m.group(2) or (m.group(3) if z3x else None)
        return m.group() if h is None or int(h, 16) > 0x2FFFF else chr(int(h, 16))

    return ESC.sub(sub, str(lit))


# ------------------------------------------------------------------ evaluation


class Cannot(Exception):
    """The evaluator does not decide this term."""


MAXCH = 0x2FFFF


class Eval:
    """Evaluates terms under env (name -> bool | int | str)."""

    def __init__(self, env, decode=True):
        self.env = env
        self.decode = decode
        self.memo = {}

    def lit(self, s):
        return chars(s) if self.decode else str(s)

    def ev(self, t, loc=None):
        if type(t) is S:
            return self.lit(t)
        if type(t) in (int, bool):
            return t
        if type(t) is str:
            if loc and t in loc:
                return loc[t]
            if t == "true":
                return True
            if t == "false":
                return False
            if t in self.env:
                return self.env[t]
            if t in ("re.none", "re.all", "re.allchar", "re.nostr"):
                return (t,)
            raise Cannot("symbol %s" % t)
        op = t[0]
        if op == "let":
            inner = dict(loc or {})
            for n, v in t[1]:
                inner[n] = self.ev(v, loc)
            return self.ev(t[2], inner)
        if op == "ite":
            return self.ev(t[2] if self.ev(t[1], loc) else t[3], loc)
        if op == "and":
            return all(self.ev(x, loc) for x in t[1:])
        if op == "or":
            return any(self.ev(x, loc) for x in t[1:])
        if op == "=>":
            vals = [self.ev(x, loc) for x in t[1:]]
            return vals[-1] or not all(vals[:-1])
        a = [self.ev(x, loc) for x in t[1:]]
        if type(op) is tuple:
            if op[0] == "_" and op[1] in ("re.loop", "re.^"):
                lo = op[2]
                hi = op[3] if op[1] == "re.loop" else lo
                return ("re.loop", a[0], lo, hi)
            if op[0] == "_" and op[1] == "char":
                raise Cannot("char")
            raise Cannot(show(op))
        f = getattr(self, "op_" + NAMES.get(op, ""), None)
        if f is None:
            raise Cannot(op)
        return f(*a)

    # core
    def op_not(self, a):
        return not a

    def op_xor(self, *a):
        return sum(a) % 2 == 1

    def op_eq(self, *a):
        return all(x == y for x, y in zip(a, a[1:]))

    def op_distinct(self, *a):
        return all(a[i] != a[j] for i in range(len(a)) for j in range(i))

    # integers
    def op_add(self, *a):
        return sum(a)

    def op_sub(self, *a):
        return -a[0] if len(a) == 1 else a[0] - sum(a[1:])

    def op_mul(self, *a):
        r = 1
        for x in a:
            r *= x
        return r

    def op_le(self, *a):
        return all(x <= y for x, y in zip(a, a[1:]))

    def op_lt(self, *a):
        return all(x < y for x, y in zip(a, a[1:]))

    def op_ge(self, *a):
        return all(x >= y for x, y in zip(a, a[1:]))

    def op_gt(self, *a):
        return all(x > y for x, y in zip(a, a[1:]))

    # strings
    def op_concat(self, *a):
        return "".join(a)

    def op_len(self, s):
        return len(s)

    def op_slt(self, *a):
        return all(x < y for x, y in zip(a, a[1:]))

    def op_sle(self, *a):
        return all(x <= y for x, y in zip(a, a[1:]))

    def op_at(self, s, i):
        return s[i] if 0 <= i < len(s) else ""

    def op_substr(self, s, i, n):
        return s[i:i + n] if 0 <= i < len(s) and n > 0 else ""

    def op_prefixof(self, a, b):
        return b.startswith(a)

    def op_suffixof(self, a, b):
        return b.endswith(a)

    def op_contains(self, a, b):
        return b in a

    def op_indexof(self, s, t, i):
        return s.find(t, i) if 0 <= i <= len(s) else -1

    def op_replace(self, s, t, u):
        return s.replace(t, u, 1) if t else u + s

    def op_replace_all(self, s, t, u):
        return s.replace(t, u) if t else s

    def _first(self, s, r, start, nonempty):
        for i in range(start, len(s) + 1):
            for j in range(i + (1 if nonempty else 0), len(s) + 1):
                if self.match(r, s[i:j]):
                    return i, j
        return None

    def op_replace_re(self, s, r, u):
        m = self._first(s, r, 0, False)
        return s if m is None else s[:m[0]] + u + s[m[1]:]

    def op_replace_re_all(self, s, r, u):
        out, pos = "", 0
        while True:
            m = self._first(s, r, pos, True)
            if m is None:
                return out + s[pos:]
            out += s[pos:m[0]] + u
            pos = m[1]

    def op_is_digit(self, s):
        return len(s) == 1 and s in "0123456789"

    def op_to_code(self, s):
        return ord(s) if len(s) == 1 else -1

    def op_from_code(self, n):
        return chr(n) if 0 <= n <= MAXCH else ""

    def op_to_int(self, s):
        return int(s) if s and all(c in "0123456789" for c in s) else -1

    def op_from_int(self, n):
        return str(n) if n >= 0 else ""

    # regular expressions: kept as tuples of evaluated parts
    def op_to_re(self, s):
        return ("lit", s)

    def op_in_re(self, s, r):
        return self.match(r, s)

    def op_re_concat(self, *r):
        return ("re.++",) + r

    def op_re_union(self, *r):
        return ("re.union",) + r

    def op_re_inter(self, *r):
        return ("re.inter",) + r

    def op_re_star(self, r):
        return ("re.*", r)

    def op_re_plus(self, r):
        return ("re.++", r, ("re.*", r))

    def op_re_opt(self, r):
        return ("re.union", ("lit", ""), r)

    def op_re_comp(self, r):
        return ("re.comp", r)

    def op_re_diff(self, *r):
        return ("re.inter", r[0]) + tuple(("re.comp", x) for x in r[1:])

    def op_re_range(self, a, b):
        return ("range", a, b) if len(a) == 1 and len(b) == 1 else ("re.none",)

    def op_re_loop(self, r, lo, hi):
        return ("re.loop", r, lo, hi)

    def match(self, r, s):
        k = (r, s)
        if k not in self.memo:
            if len(self.memo) > 200000:
                raise Cannot("regex too expensive")
            self.memo[k] = self._match(r, s)
        return self.memo[k]

    def _match(self, r, s):
        op = r[0]
        if op == "lit":
            return s == r[1]
        if op in ("re.none", "re.nostr"):
            return False
        if op == "re.all":
            return True
        if op == "re.allchar":
            return len(s) == 1
        if op == "range":
            return len(s) == 1 and r[1] <= s <= r[2]
        if op == "re.union":
            return any(self.match(x, s) for x in r[1:])
        if op == "re.inter":
            return all(self.match(x, s) for x in r[1:])
        if op == "re.comp":
            return not self.match(r[1], s)
        if op == "re.++":
            if len(r) == 2:
                return self.match(r[1], s)
            rest = ("re.++",) + r[2:]
            return any(self.match(r[1], s[:i]) and self.match(rest, s[i:]) for i in range(len(s) + 1))
        if op == "re.*":
            return s == "" or any(
                self.match(r[1], s[:i]) and self.match(r, s[i:]) for i in range(1, len(s) + 1))
        if op == "re.loop":
            _, x, lo, hi = r
            if lo > hi:
                return False
            if hi == 0:
                return s == ""
            nxt = ("re.loop", x, max(lo - 1, 0), hi - 1)
            if lo == 0 and s == "":
                return True
            return any(self.match(x, s[:i]) and self.match(nxt, s[i:]) for i in range(len(s) + 1))
        raise Cannot(op)


NAMES = {
    "not": "not", "xor": "xor", "=": "eq", "distinct": "distinct", "+": "add", "-": "sub", "*": "mul",
    "<=": "le", "<": "lt", ">=": "ge", ">": "gt", "str.++": "concat", "str.len": "len", "str.<": "slt",
    "str.<=": "sle", "str.at": "at", "str.substr": "substr", "str.prefixof": "prefixof",
    "str.suffixof": "suffixof", "str.contains": "contains", "str.indexof": "indexof",
    "str.replace": "replace", "str.replace_all": "replace_all", "str.replace_re": "replace_re",
    "str.replace_re_all": "replace_re_all", "str.is_digit": "is_digit", "str.to_code": "to_code",
    "str.from_code": "from_code", "str.to_int": "to_int", "str.from_int": "from_int",
    "str.to.int": "to_int", "int.to.str": "from_int",
    "str.to_re": "to_re", "str.to.re": "to_re", "str.in_re": "in_re", "str.in.re": "in_re",
    "re.++": "re_concat", "re.union": "re_union", "re.inter": "re_inter", "re.*": "re_star",
    "re.+": "re_plus", "re.opt": "re_opt", "re.comp": "re_comp", "re.diff": "re_diff",
    "re.range": "re_range", "re.loop": "re_loop",
}


# ------------------------------------------------------------------ generation


class Script:
    def __init__(self, decls, asserts, head=(), tail=(("check-sat",), ("get-model",))):
        self.decls, self.asserts, self.head, self.tail = decls, asserts, list(head), list(tail)

    def text(self, fun_decls=False):
        out = [show(h) for h in self.head]
        out += ["(declare-%s %s %s)" % (("fun", show(n) + " ()", s) if fun_decls else ("const", show(n), s))
                for n, s in self.decls]
        out += ["(assert %s)" % show(a) for a in self.asserts]
        return "\n".join(out + [show(t) for t in self.tail]) + "\n"


def walk(t):
    yield t
    if type(t) is tuple:
        for x in t:
            yield from walk(x)


def literals(t):
    return [x for x in walk(t) if type(x) is S]


FAMILIES = {
    # name: (string term ops, predicates, regex ops)
    "eq": ((), ("=", "distinct"), ()),
    "affix": ((), ("=", "str.prefixof", "str.suffixof", "str.contains"), ()),
    "concat": (("str.++",), ("=", "str.prefixof", "str.suffixof", "str.contains", "str.len"), ()),
    "regex": ((), ("=", "str.in_re"), ("str.to_re", "re.++", "re.union", "re.*", "re.+", "re.opt", "re.range", "re.allchar", "re.all")),
    "regex2": (("str.++",), ("=", "str.in_re", "str.len"),
               ("str.to_re", "re.++", "re.union", "re.*", "re.inter", "re.comp", "re.diff", "re.loop", "re.^", "re.range", "re.none", "re.allchar")),
    "len": (("str.++",), ("=", "str.len"), ()),
    "cut": (("str.at", "str.substr", "str.++"), ("=", "str.len", "str.indexof", "str.contains"), ()),
    "replace": (("str.replace", "str.replace_all", "str.++"), ("=", "str.contains", "str.len"), ()),
    "int": (("str.from_int", "str.++"), ("=", "str.to_int", "str.is_digit"), ()),
    "intre": (("str.from_int", "str.++"), ("=", "str.to_int", "str.is_digit", "str.in_re"),
              ("str.to_re", "re.++", "re.union", "re.*", "re.range", "re.range")),
    "num": ((), ("=", "str.to_int", "str.len", "distinct"), ()),
    "digit": ((), ("=", "str.is_digit", "str.to_int", "distinct"), ()),
    "affixre": (("str.++",), ("=", "str.prefixof", "str.suffixof", "str.contains", "str.in_re", "str.len", "distinct"),
                ("str.to_re", "re.++", "re.*", "re.range", "re.allchar", "re.comp")),
    "policy": ((), ("=", "str.prefixof", "str.prefixof", "str.suffixof", "str.contains", "str.in_re"),
               ("str.to_re", "re.++", "re.union", "re.*", "re.allchar")),
    "code": (("str.from_int", "str.++"), ("=", "str.to_int", "str.to_code", "str.<"), ()),
}


PLAIN = ["ab", "abc", "abcxyz", "ab01", "aZ9-/:", "4217", "a739"]
PIECES = ["s3", "arn:", "aws", ":", ":::", "get", "object", "foo", "bar", "foo*", "us-", "west-2", "/", "*", "012345678901", "-", "", "?"]
WIDE = ["a\u4e00", "0~\xe9", "A\uff00z", "!~", "\x01\u03b1\u4e2d"]
POLICY_NAMES = ["action", "resource", "resource_region", "resource_account", "|aws:referer|", "principal"]
POLICY_FLAGS = ["p0.0.action", "p0.allows", "p1.0.condition", "p1.denies", "|aws:referer_exists|", "p1.neutral"]
HOSTILE = ['a"b', "a\\ub{}0", "\x01\x7fa", "a\xe9b", "\u4e2d\u4e2ea", " ~a}", "!#$%&", "\ufffd\U0001f600z", "\n\tx", "09/:a"]


class Gen:
    def __init__(self, r, fam, nvars=3, alphabet=None):
        self.r, self.fam = r, fam
        self.sops, self.preds, self.rops = FAMILIES[fam]
        self.alpha = alphabet or r.choice(PLAIN if r.random() < 0.8 else HOSTILE)
        self.svars = ["s%d" % i for i in range(r.randint(1, nvars))]
        self.bvars = ["b%d" % i for i in range(r.randint(0, 2))]
        self.ivars = ["n%d" % i for i in range(r.randint(0, 1))] if "str.len" in self.preds or fam in ("int", "cut", "intre", "digit") else []
        if fam == "policy":  # the shape of the scripts the tool was written for
            self.alpha = "s3:getobj-*/"
            self.svars = [v.strip("|") for v in r.sample(POLICY_NAMES, len(self.svars))]
            self.bvars = [v.strip("|") for v in r.sample(POLICY_FLAGS, r.randint(1, 4))]
        n = r.randint(1, 5)
        self.pool = []
        for _ in range(n):
            if self.pool and r.random() < 0.5:  # related literals: extensions, pieces
                p = r.choice(self.pool)
                k = r.randrange(4)
                q = [p + self.word(2), self.word(2) + p, p[: max(1, len(p) // 2)], p[len(p) // 2:]][k]
                self.pool.append(q[:20 if fam == "policy" else 8])
            else:
                self.pool.append(self.word(5))
        if r.random() < 0.3:
            self.pool.append("")
        self.also = None

    def beside(self, fams):
        """Makes the scripts consist of two parts: what the other one does with its own variables (and partly the
        same literals) must not matter."""
        r = self.r
        wide = r.random() < 0.3
        fam = r.choice(["regex", "regex2", "intre", "affixre"] if wide and r.random() < 0.7 else fams)
        g = self.also = Gen(r, fam, nvars=2, alphabet=r.choice(WIDE) if wide else self.alpha if r.random() < 0.4 else None)
        g.svars, g.bvars, g.ivars = (["%s%d" % (c, i) for i in range(len(v))] for c, v in (("t", g.svars), ("c", g.bvars), ("m", g.ivars)))
        if r.random() < 0.5:
            g.pool = [r.choice(self.pool) if r.random() < 0.4 else w for w in g.pool]
        return self

    def word(self, n):
        if self.fam == "policy":
            return "".join(self.r.choice(PIECES) for _ in range(self.r.randint(1, n))) or "*"
        return "".join(self.r.choice(self.alpha) for _ in range(self.r.randint(1, n)))

    def enc(self, s):
        """A literal that denotes the string, with its escape sequences written at random."""
        r, out = self.r, []
        for ch in s:
            n = ord(ch)
            if 32 <= n < 127 and ch != "\\" and r.random() > 0.02:
                out.append(ch)
            elif n <= 0xFFFF and r.random() < 0.3:
                out.append("\\u%04x" % n)
            else:
                out.append("\\u{%s}" % r.choice(("%x", "%X", "%04x"))  % n)
        return S("".join(out))

    def lit(self):
        return self.enc(self.r.choice(self.pool))

    def string(self, d=2):
        r = self.r
        if d == 0 or not self.sops or r.random() < 0.5:
            return r.choice(self.svars) if r.random() < 0.7 else self.lit()
        op = r.choice(self.sops)
        if op == "str.++":
            return (op,) + tuple(self.string(d - 1) for _ in range(r.randint(2, 3)))
        if op == "str.at":
            return (op, self.string(d - 1), self.small(d))
        if op == "str.substr":
            return (op, self.string(d - 1), self.small(d), self.small(d))
        if op == "str.from_int":
            return (op, self.int(d - 1))
        return (op, self.string(d - 1), self.lit() if r.random() < 0.6 else self.string(0), self.lit() if r.random() < 0.6 else self.string(0))

    def small(self, d):
        if self.ivars and self.r.random() < 0.3:
            v = self.r.choice(self.ivars)
            return (self.r.choice("+-"), v, self.r.randint(0, 2)) if self.r.random() < 0.3 else v
        return self.r.randint(0, 3)

    def int(self, d=1):
        r = self.r
        if d > 0 and r.random() < 0.2:
            op = r.choice(("+", "+", "-", "*", "ite"))
            if op == "*":
                return (op, r.randint(2, 3), self.int(d - 1))
            if op == "ite":
                return (op, self.atom() if r.random() < 0.3 else r.choice(self.bvars or ["true"]), self.int(d - 1), self.int(d - 1))
            return (op, self.int(d - 1), self.int(d - 1))
        opts = [p for p in ("str.len", "str.indexof", "str.to_int", "str.to_code") if p in self.preds]
        if opts and r.random() < 0.6:
            op = r.choice(opts)
            if op == "str.indexof":
                return (op, self.string(1), self.lit() if r.random() < 0.7 else self.string(0), r.randint(0, 2))
            return (op, self.string(1))
        if self.ivars and r.random() < 0.5:
            return r.choice(self.ivars)
        if self.fam in ("int", "intre", "num", "digit"):
            words = [w for w in self.pool if w.isascii() and w.isdigit()]
            return int(r.choice(words)) if words and r.random() < 0.4 else r.randint(0, 12)
        return r.randint(0, 5)

    def regex(self, d=3):
        r = self.r
        op = r.choice(self.rops) if d > 0 else "str.to_re"
        if self.fam == "policy" and d == 3:  # literal pieces and wildcards
            wild = ("re.*", "re.allchar")
            return ("re.++",) + tuple(r.choice((wild, self.regex(1), ("str.to_re", self.enc(self.word(1))))) for _ in range(r.randint(2, 4)))
        if op == "str.to_re":
            return (op, self.lit())
        if op in ("re.allchar", "re.all", "re.none"):
            return op
        if op == "re.range":
            a, b = sorted((r.choice(self.alpha), r.choice(self.alpha)))
            if a == b and r.random() < 0.9:
                return ("str.to_re", self.enc(a))
            if r.random() < 0.05:
                a, b = b, a  # empty
            elif r.random() < 0.01:
                b += a  # empty, too
            return (op, self.enc(a), self.enc(b))
        if op in ("re.++", "re.union", "re.inter", "re.diff"):
            return (op,) + tuple(self.regex(d - 1) for _ in range(2 if op == "re.diff" else r.randint(2, 3)))
        if op == "re.loop":
            lo = r.randint(0, 2)
            return (("_", op, lo, lo + r.randint(0, 2)), self.regex(d - 1))
        if op == "re.^":
            return (("_", op, r.randint(0, 3)), self.regex(d - 1))
        return (op, self.regex(d - 1))

    def atom(self):
        r = self.r
        if self.bvars and r.random() < 0.1:
            return r.choice(self.bvars)
        if self.fam == "policy" and r.random() < 0.12:  # a named condition
            f = [self.atom() for _ in range(r.randint(1, 3))]
            return ("=", r.choice(self.bvars), f[0] if len(f) == 1 else (r.choice(("and", "or")),) + tuple(f))
        if r.random() < 0.06:  # equations of formulas, and equations of a term with itself
            a = self.atom()
            if r.random() < 0.4:
                a, b = (a[1], a[1]) if type(a) is tuple and len(a) == 3 and a[0] not in ("str.in_re", "not") else (a, a)
                return ("=", a, b)
            b = self.atom() if r.random() < 0.4 else (r.choice(("and", "or", "xor")), self.atom(), self.atom())
            return ("=", a, b)
        op = r.choice(self.preds)
        if op in ("=", "distinct"):
            return (op,) + tuple(self.string() for _ in range(2 if op == "=" or r.random() < 0.5 else 3))
        if op in ("str.prefixof", "str.suffixof"):
            return (op, self.lit() if r.random() < 0.7 else self.string(1), self.string(1))
        if op == "str.contains":
            return (op, self.string(1), self.lit() if r.random() < 0.7 else self.string(1))
        if op == "str.in_re":
            return (op, self.string(1), self.regex())
        if op == "str.is_digit":
            return (op, self.string(1))
        return (r.choice(("=", "<=", "<", ">=")), self.int(), self.int())

    def formula(self, d=2):
        r = self.r
        if d == 0 or r.random() < 0.5:
            a = self.atom()
            return ("not", a) if r.random() < 0.3 else a
        op = r.choice(("and", "or", "or", "=>", "not", "xor", "ite"))
        if op == "not":
            return (op, self.formula(d - 1))
        if op == "ite":
            return (op,) + tuple(self.formula(d - 1) for _ in range(3))
        if op in ("=>", "xor"):
            return (op, self.formula(d - 1), self.formula(d - 1))
        return (op,) + tuple(self.formula(d - 1) for _ in range(r.randint(2, 3)))

    def script(self):
        decls = [(v, "String") for v in self.svars] + [(v, "Bool") for v in self.bvars] + [(v, "Int") for v in self.ivars]
        self.r.shuffle(decls)
        sc = Script(decls, [self.formula() for _ in range(self.r.randint(1, 4))])
        if self.also:
            two = self.also.script()
            sc.decls += two.decls
            sc.asserts += two.asserts
            self.r.shuffle(sc.asserts)
        return sc

    def pinned(self, flip=False):
        """All variables pinned to constants, then literals over atoms that are all true under the
        pins (all but one, if `flip`): satisfiable exactly if the evaluator says so."""
        r = self.r
        env = {v: r.choice(self.pool) for v in self.svars}
        env.update({v: r.random() < 0.5 for v in self.bvars})
        env.update({v: r.randint(0, 5) for v in self.ivars})
        decls = [(v, "String") for v in self.svars] + [(v, "Bool") for v in self.bvars] + [(v, "Int") for v in self.ivars]
        pins = []
        for i, v in enumerate(self.svars):
            same = [w for w in self.svars[:i] if env[w] == env[v]]
            rhs = r.choice(same) if same and r.random() < 0.7 else self.enc(env[v])
            pins.append(("=", v, rhs) if r.random() < 0.7 else ("=", rhs, v))
        pins += [v if env[v] else ("not", v) for v in self.bvars]
        pins += [("=", v, env[v]) for v in self.ivars]
        ev = Eval(env)
        atoms = []
        for _ in range(r.randint(2, 7)):
            f = self.formula(1)
            try:
                atoms.append(f if ev.ev(f) else ("not", f))
            except Cannot:
                pass
        if flip and atoms:
            i = r.randrange(len(atoms))
            atoms[i] = atoms[i][1] if atoms[i][0] == "not" else ("not", atoms[i])
        r.shuffle(decls)
        asserts = pins + atoms
        if r.random() < 0.5:
            r.shuffle(asserts)
        sc = Script(decls, asserts)
        sc.env, sc.pins = env, pins
        if self.also:
            two = self.also.pinned()
            sc.decls += two.decls
            sc.asserts += two.asserts
            if r.random() < 0.5:
                r.shuffle(sc.asserts)
            sc.env.update(two.env)
            sc.pins += two.pins
        return sc


def pins_of(asserts, names):
    """Values forced by top-level equations variable = literal / variable (to a fixpoint), signed
    Boolean variables included; None if they contradict each other."""
    env = {}
    changed = True
    while changed:
        changed = False
        for a in asserts:
            new = []
            if type(a) is str and a in names:
                new = [(a, True)]
            elif type(a) is tuple and len(a) == 2 and a[0] == "not" and type(a[1]) is str and a[1] in names:
                new = [(a[1], False)]
            elif type(a) is tuple and len(a) == 3 and a[0] == "=":
                for x, y in ((a[1], a[2]), (a[2], a[1])):
                    if type(x) is str and x in names:
                        if type(y) is S:
                            new.append((x, chars(y)))
                        elif type(y) is int:
                            new.append((x, y))
                        elif type(y) is str and y in env:
                            new.append((x, env[y]))
            for n, v in new:
                if n not in env:
                    env[n] = v
                    changed = True
    return env


def gen(r, fam):
    return Gen(r, fam).script()


# ------------------------------------------------------------------ deciding


def solve_z3(text, timeout_ms=2000):
    import z3

    ctx = z3.Context()
    s = z3.Solver(ctx=ctx)
    s.set("timeout", timeout_ms)
    s.from_string(text)
    r = str(s.check())
    return r, (s.model() if r == "sat" else None)


def z3_env(model, decls):
    """Values of the declared constants (z3 model), defaults for those it leaves out."""
    env = {}
    vals = {d.name(): model[d] for d in model.decls()} if model is not None else {}
    for n, sort in decls:
        v = vals.get(n)
        if sort == "Bool":
            env[n] = str(v) == "True"
        elif sort == "Int":
            env[n] = int(str(v)) if v is not None else 0
        else:
            env[n] = chars(v.as_string(), True) if v is not None else ""
    return env
