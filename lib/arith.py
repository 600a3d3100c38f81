"""Generators, an independent evaluator, and oracles for the eager-arithmetic crate.

Formulas are s-expressions (nested lists of atoms) with a list of declarations. The evaluator is
written from the SMT-LIB semantics and shares nothing with the code under test."""
import os
import re
import sys

import z3

from sexp import parse_all, show, unquote

sys.setrecursionlimit(max(20000, sys.getrecursionlimit()))  # benchmark scripts nest deeply


class Unsupported(Exception):
    pass


class BV(tuple):
    """(value, width)"""


# ------------------------------------------------------------------ evaluation

_NUM = re.compile(r"^[0-9]+$")


def evaluate(e, env, funs):
    if isinstance(e, str):
        if _NUM.match(e):
            return int(e)
        if e == "true":
            return True
        if e == "false":
            return False
        if e.startswith("#b"):
            return BV((int(e[2:], 2), len(e) - 2))
        if e.startswith("#x"):
            return BV((int(e[2:], 16), 4 * (len(e) - 2)))
        n = unquote(e)
        if n in env:
            return env[n]
        raise Unsupported("unbound " + e)
    h = e[0]
    if isinstance(h, list):
        raise Unsupported(show(h))
    if h == "let":
        new = dict(env)
        for v, t in e[1]:
            new[unquote(v)] = evaluate(t, env, funs)
        return evaluate(e[2], new, funs)
    if h == "_" and len(e) == 3 and e[1].startswith("bv"):
        w = int(e[2])
        return BV((int(e[1][2:]) % (1 << w), w))
    if h == "ite":
        return evaluate(e[2] if evaluate(e[1], env, funs) else e[3], env, funs)
    a = [evaluate(x, env, funs) for x in e[1:]]
    if h == "not":
        return not a[0]
    if h == "and":
        return all(a)
    if h == "or":
        return any(a)
    if h == "xor":
        r = a[0]
        for x in a[1:]:
            r = r != x
        return r
    if h == "=>":
        r = a[-1]
        for x in reversed(a[:-1]):
            r = (not x) or r
        return r
    if h == "=":
        return all(x == y for x, y in zip(a, a[1:]))
    if h == "distinct":
        return len(set(map(_key, a))) == len(a)
    if h == "+":
        return sum(a)
    if h == "-":
        return -a[0] if len(a) == 1 else a[0] - sum(a[1:])
    if h == "*":
        r = 1
        for x in a:
            r *= x
        return r
    if h in ("<", "<=", ">", ">="):
        op = {"<": int.__lt__, "<=": int.__le__, ">": int.__gt__, ">=": int.__ge__}[h]
        return all(op(x, y) for x, y in zip(a, a[1:]))
    if h == "bvule":
        return a[0][0] <= a[1][0]
    f = funs.get(unquote(h))
    if f is not None:
        return f(a, funs)
    raise Unsupported(h)


def _key(x):
    return (type(x).__name__, x)


# ------------------------------------------------------------------ scripts


class Problem:
    def __init__(self, decls, asserts, family, header="", meta=None):
        # decls: [(name, [arg sorts], sort)]
        self.decls, self.asserts, self.family, self.header = decls, asserts, family, header
        self.meta = meta or {}

    def text(self, style=0, header=True):
        out = [self.header] if self.header and header else []
        for n, args, s in self.decls:
            if not args and (style + len(n)) % 2 == 0:
                out.append("(declare-const %s %s)" % (n, show(s)))
            else:
                out.append("(declare-fun %s (%s) %s)" % (n, " ".join(show(a) for a in args), show(s)))
        for a in self.asserts:
            out.append("(assert %s)" % show(a))
        out.append("(check-sat)")
        return "\n".join(out)


def default(sort):
    if sort == "Int":
        return 0
    if sort == "Bool":
        return False
    if isinstance(sort, list) and sort[:2] == ["_", "BitVec"]:
        return BV((0, int(sort[2])))
    raise Unsupported(show(sort))


class BadModel(Exception):
    pass


def other_value(sort):
    if sort == "Int":
        return 1009
    if sort == "Bool":
        return True
    return BV(((1 << int(sort[2])) - 1, int(sort[2])))


def completions(text, decls):
    """Interpretations that the printed model stands for: whatever it leaves out may have any value."""
    yield parse_model(text, decls)
    yield parse_model(text, decls, other_value)


def parse_model(text, decls, default=default):
    """Reads the printed model `( (define-fun ..) .. )` against the declarations. Returns
    (env, funs). Raises BadModel when the model is not well-formed for these declarations."""
    try:
        top = parse_all(text)
    except Exception as e:
        raise BadModel("unreadable model: %s" % e)
    if len(top) != 1 or not isinstance(top[0], list):
        raise BadModel("model is not one parenthesised list")
    sig = {unquote(n): (args, s) for n, args, s in decls}
    env, funs, seen = {}, {}, set()
    for d in top[0]:
        if not (isinstance(d, list) and len(d) == 5 and d[0] == "define-fun"):
            raise BadModel("not a define-fun: %s" % show(d)[:200])
        n = unquote(d[1])
        if n not in sig:
            raise BadModel("defines undeclared symbol %s" % n)
        if n in seen:
            raise BadModel("defines %s twice" % n)
        seen.add(n)
        args, s = sig[n]
        if [p[1] for p in d[2]] != list(args) or d[3] != s:
            raise BadModel("signature of %s differs from its declaration" % n)
        params, body = [unquote(p[0]) for p in d[2]], d[4]
        if params:

            def f(vals, fs, params=params, body=body):
                return evaluate(body, dict(zip(params, vals)), {})

            funs[n] = f
        else:
            try:
                env[n] = evaluate(body, {}, {})
            except Unsupported as ex:
                raise BadModel("value of %s is not a constant: %s (%s)" % (n, show(body)[:200], ex))
            ok = {"Int": lambda v: type(v) is int, "Bool": lambda v: type(v) is bool}.get(
                s if isinstance(s, str) else "", lambda v: isinstance(v, BV) and v[1] == int(s[2])
            )
            if not ok(env[n]):
                raise BadModel("value of %s has the wrong sort" % n)
    for n, (args, s) in sig.items():
        if n in seen:
            continue
        if args:
            funs[n] = lambda vals, fs, s=s: default(s)
        else:
            env[n] = default(s)
    return env, funs


def failing_assert(problem, env, funs):
    for a in problem.asserts:
        try:
            if evaluate(a, env, funs) is not True:
                return a
        except Unsupported as ex:
            raise BadModel("cannot evaluate under the model: %s" % ex)
    return None


# ------------------------------------------------------------------ oracle


def oracle(problem, timeout_ms=4000):
    """('sat', env, funs) with a model that our evaluator confirmed, ('unsat',) confirmed by z3, or
    ('unknown',)."""
    s = z3.Solver()
    s.set("timeout", timeout_ms)
    try:
        s.from_string(problem.text(header=False))
    except z3.Z3Exception:
        return ("unknown",)
    r = s.check()
    if r == z3.unsat:
        return ("unsat",)
    if r != z3.sat:
        return ("unknown",)
    m = s.model()
    env, funs = {}, {}
    defs = {d.name(): d for d in m.decls()}
    for n, args, sort in problem.decls:
        n = unquote(n)
        if args:
            d = defs.get(n)
            if d is None:
                funs[n] = lambda vals, fs, sort=sort: default(sort)
            else:

                def f(vals, fs, d=d):
                    t = [z3.IntVal(v) if type(v) is int else z3.BoolVal(v) for v in vals]
                    return _val(m.eval(d(*t), model_completion=True))

                funs[n] = f
        else:
            d = defs.get(n)
            env[n] = default(sort) if d is None else _val(m[d])
    try:
        if failing_assert(problem, env, funs) is not None:
            return ("unknown",)
    except (BadModel, Unsupported):
        return ("unknown",)
    return ("sat", env, funs)


def _val(v):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_bv_value(v):
        return BV((v.as_long(), v.size()))
    raise Unsupported(str(v))


# ------------------------------------------------------------------ generators


def num(n):
    return str(n) if n >= 0 else ["-", str(-n)]


_SYL = ["x", "y", "z", "ab", "k1", "tmp", "v_", "Q", "lim", "n0", "pos", "w.w", "r$", "it!", "~u", "len"]


def fresh_names(r, n, avoid=()):
    out, used = [], set(avoid)
    while len(out) < n:
        s = r.choice(_SYL) + (str(r.randrange(100)) if r.random() < 0.8 else "")
        if r.random() < 0.03:
            s = "|%s %d|" % (s, r.randrange(9))
        if s not in used:
            used.add(s)
            out.append(s)
    return out


_LETVAR = re.compile(r"^L[0-9]$")


class Gen:
    """Random formulas over a fixed vocabulary."""

    def __init__(self, r, ints, bools, coef=3, const=8, ufs=(), features=()):
        self.r, self.ints, self.bools = r, ints, bools
        self.coef, self.const, self.ufs = coef, const, list(ufs)
        self.features = set(features)
        self.lastite = None
        self.lets_open = 0

    def k(self):
        r = self.r
        return r.randint(-self.const, self.const) if r.random() < 0.8 else r.choice([0, 0, 1, -1, self.const])

    def var(self):
        return self.r.choice(self.ints)

    def summand(self, d):
        r = self.r
        c = r.random()
        if c < 0.45:
            return self.var()
        if c < 0.7:
            # coefficients are only allowed on variables: a let-bound name may stand for a sum
            vs = [v for v in self.ints if not _LETVAR.match(v)]
            t = [num(r.randint(-self.coef, self.coef)), r.choice(vs)]
            if r.random() < 0.4:
                t.reverse()
            return ["*"] + t
        if c < 0.8:
            return num(self.k())
        if c < 0.87:
            return ["-", self.var()]
        return self.int(d - 1)

    def int(self, d):
        r = self.r
        c = r.random()
        if d <= 0:
            return self.var() if c < 0.75 else num(self.k())
        if c < 0.30:
            return ["+"] + [self.summand(d) for _ in range(r.randint(1, 4))]
        if c < 0.50:
            return ["-"] + [self.summand(d) for _ in range(r.randint(1, 3))]
        if c < 0.60 and "ite" in self.features:
            t = ["ite", self.bool(d - 1), self.int(d - 1), self.int(d - 1)]
            if self.lastite and not self.lets_open and r.random() < 0.4:
                keep = r.choice([[1], [1, 2], [1, 3], [2, 3]])  # nearly the same ite again
                t = [x if i not in keep else self.lastite[i] for i, x in enumerate(t)]
            if not self.lets_open:
                self.lastite = t
            return t
        if c < 0.72 and self.ufs:
            u = [u for u in self.ufs if u[2] == "Int"]
            if u:
                return self.app(r.choice(u), d)
        if c < 0.78 and "let" in self.features:
            v = "L%d" % r.randrange(4)
            bound = self.int(d - 1)
            self.ints = self.ints + [v]
            self.lets_open += 1
            body = self.int(d - 1)
            self.lets_open -= 1
            self.ints = self.ints[:-1]
            return ["let", [[v, bound]], body]
        if c < 0.88:
            return self.summand(d)
        return self.var()

    def app(self, u, d):
        return [u[0]] + [self.int(d - 1) if s == "Int" else self.bool(d - 1) for s in u[1]]

    def atom(self, d):
        r = self.r
        c = r.random()
        if self.bools and c < 0.18:
            return r.choice(self.bools)
        if self.ufs and c < 0.25:
            u = [u for u in self.ufs if u[2] == "Bool"]
            if u:
                return self.app(r.choice(u), d)
        if c < 0.30 and "const" in self.features:
            return r.choice(["true", "false"])
        op = r.choice(["<", "<=", ">", ">=", "=", "=", "distinct"])
        n = 2 if r.random() < 0.8 else 3
        if not self.ints:
            return r.choice(self.bools) if self.bools else "true"
        return [op] + [self.int(d - 1) for _ in range(n)]

    def bool(self, d):
        r = self.r
        c = r.random()
        if d <= 0 or c < 0.35:
            return self.atom(d)
        if c < 0.48:
            return ["not", self.bool(d - 1)]
        if c < 0.62:
            return ["and"] + [self.bool(d - 1) for _ in range(r.randint(1, 3))]
        if c < 0.78:
            return ["or"] + [self.bool(d - 1) for _ in range(r.randint(1, 3))]
        if c < 0.84:
            return ["xor"] + [self.bool(d - 1) for _ in range(r.choice([2, 2, 3, 4]))]
        if c < 0.90:
            return ["=>"] + [self.bool(d - 1) for _ in range(r.randint(2, 3))]
        if c < 0.94:
            return ["="] + [self.bool(d - 1) for _ in range(r.choice([2, 2, 3]))]
        if c < 0.96:
            return ["distinct"] + [self.bool(d - 1) for _ in range(r.choice([2, 2, 3]))]
        if "ite" in self.features:
            return ["ite", self.bool(d - 1), self.bool(d - 1), self.bool(d - 1)]
        if "let" in self.features and self.ints:
            v = "L%d" % r.randrange(4)
            bound = self.int(d - 1)
            self.ints = self.ints + [v]
            self.lets_open += 1
            body = self.bool(d - 1)
            self.lets_open -= 1
            self.ints = self.ints[:-1]
            return ["let", [[v, bound]], body]
        return self.atom(d)


def _decl(ints, bools=(), ufs=()):
    return [(n, [], "Int") for n in ints] + [(n, [], "Bool") for n in bools] + list(ufs)


def gen_lia(r):
    names = fresh_names(r, 6)
    ints, bools = names[: r.randint(1, 4)], names[4 : 4 + r.randint(0, 2)]
    g = Gen(r, ints, bools, coef=r.choice([1, 2, 3, 5]), const=r.choice([1, 3, 8, 20]),
            features=r.sample(["ite", "let", "const"], r.randint(0, 2)))
    asserts = [g.bool(r.randint(1, 3)) for _ in range(r.randint(1, 4))]
    return Problem(_decl(ints, bools), asserts, "lia")


def gen_conj(r):
    """Conjunctions of linear constraints: frequently unsat, small solution spaces."""
    ints = fresh_names(r, r.randint(2, 4))
    out = []
    for _ in range(r.randint(2, 6)):
        vs = r.sample(ints, r.randint(1, min(3, len(ints))))
        t = [["*", num(c), v] if c != 1 else v for v in vs for c in [r.choice([-3, -2, -1, 1, 1, 2, 3])]]
        lhs = ["+"] + t if len(t) > 1 or r.random() < 0.3 else t[0]
        rhs = num(r.randint(-9, 9)) if r.random() < 0.7 else r.choice(ints)
        c = [r.choice(["<", "<=", ">", ">=", "=", "=", "distinct"]), lhs, rhs]
        out.append(c if r.random() < 0.85 else ["not", c])
    return Problem(_decl(ints), out, "conj")


def gen_idl(r):
    ints = fresh_names(r, r.randint(2, 6))
    g = []
    for _ in range(r.randint(2, 9)):
        a, b = r.choice(ints), r.choice(ints)
        k = num(r.randint(-6, 6))
        c = r.choice([
            [r.choice(["<", "<=", ">", ">=", "="]), ["-", a, b], k],
            [r.choice(["<", "<=", ">", ">=", "="]), a, ["+", b, k]],
            [r.choice(["<", "<=", ">", ">=", "=", "distinct"]), a, b],
            [r.choice(["<", "<=", ">", ">="]), a, k],
        ])
        g.append(c)
    out = []
    while g:
        n = r.choice([1, 1, 1, 2])
        part, g = g[:n], g[n:]
        out.append(part[0] if len(part) == 1 else ["or"] + part)
    return Problem(_decl(ints), out, "idl")


def gen_eq(r):
    ints = fresh_names(r, r.randint(2, 6))
    out = []
    for _ in range(r.randint(1, 7)):
        a, b = r.choice(ints), r.choice(ints)
        e = ["=", a, b]
        out.append(r.choice([e, ["not", e], ["distinct", a, b], ["or", e, ["=", r.choice(ints), b]],
                             ["=>", e, ["not", ["=", r.choice(ints), a]]]]))
    if r.random() < 0.5:
        out.append(["distinct"] + r.sample(ints, r.randint(2, len(ints))))
    return Problem(_decl(ints), out, "eq")


def gen_tight(r):
    """Satisfiable by construction, with solutions close to what the solution bound must allow."""
    kind = r.choice(["double", "fib", "chain", "tri", "knap", "negchain", "combo"])
    n = r.randint(3, 9)
    v = fresh_names(r, n)
    out = []
    if kind in ("double", "negchain"):
        c = r.choice([2, 2, 3])
        s = -1 if kind == "negchain" else 1
        out.append([">=" if s > 0 else "<=", v[0], num(s * r.randint(1, 5))])
        for a, b in zip(v, v[1:]):
            rhs = ["*", num(c), a]
            out.append(r.choice([["=", b, rhs], ["=", rhs, b], ["=", ["-", b, rhs], "0"]]))
    elif kind == "fib":
        out += [[r.choice(["=", ">="]), v[0], "1"], [r.choice(["=", ">="]), v[1], "1"]]
        for a, b, c in zip(v, v[1:], v[2:]):
            out.append(r.choice([["=", c, ["+", a, b]], [">=", c, ["+", b, a]], ["=", ["-", c, a], b]]))
    elif kind == "chain":
        k = r.randint(1, 9)
        for a, b in zip(v, v[1:]):
            out.append(r.choice([[">=", ["-", b, a], num(k)], ["<=", ["-", a, b], num(-k)],
                                 [">", b, ["+", a, num(k)]]]))
        if r.random() < 0.5:
            out.append([">=", v[0], num(k)])
    elif kind == "tri":
        out.append([">=", v[0], num(r.randint(1, 4))])
        for i in range(1, n):
            out.append([r.choice(["=", ">="]), v[i], ["+"] + v[:i]] if i > 1 else ["=", v[1], v[0]])
    elif kind == "knap":
        a, b = r.choice([(7, 11), (5, 13), (9, 14), (3, 17)])
        out = [["=", ["+", ["*", num(a), v[0]], ["*", num(-b), v[1]]], num(r.randint(1, 6))],
               [">=", v[0], num(r.randint(0, 4))]]
        v = v[:2]
    else:
        out = [["=", v[0], num(r.randint(1, 3))]]
        for i in range(1, n):
            ws = r.sample(v[:i], min(i, r.randint(1, 2)))
            out.append(["=", v[i], ["+"] + [["*", num(r.choice([1, 2])), w] for w in ws] + [num(r.randint(0, 1))]])
    if r.random() < 0.5:
        r.shuffle(out)
    return Problem(_decl(v), out, "tight:" + kind)


def gen_uf(r):
    names = fresh_names(r, 8)
    ints = names[:3][: r.randint(1, 3)]
    bools = names[3:4] if r.random() < 0.3 else []
    ufs = [(names[4], ["Int"], "Int")]
    if r.random() < 0.5:
        ufs.append((names[5], ["Int", "Int"], "Int"))
    if r.random() < 0.4:
        ufs.append((names[6], ["Int"], "Bool"))
    if r.random() < 0.2:
        ufs.append((names[7], ["Bool", "Int"], "Int"))
    elif r.random() < 0.3:
        ufs.append((names[7], [r.choice(["Int", "Int", "Bool"]) for _ in range(r.randint(1, 4))], r.choice(["Int", "Bool"])))
    g = Gen(r, ints, bools, coef=2, const=4, ufs=ufs, features=r.sample(["ite", "let"], r.randint(0, 1)))
    asserts = [g.bool(r.randint(1, 3)) for _ in range(r.randint(2, 4))]
    f = names[4]
    if r.random() < 0.5:
        a, b = r.choice(ints), r.choice(ints)
        asserts.append(["not", ["=", [f, a], [f, ["+", b, num(r.choice([0, 0, 1]))]]]])
    return Problem(_decl(ints, bools, ufs), asserts, "uf")


def gen_bool(r):
    bools = fresh_names(r, r.randint(1, 5))
    g = Gen(r, [], bools, features=["ite", "const"])
    return Problem(_decl([], bools), [g.bool(4) for _ in range(r.randint(1, 4))], "bool")


def gen_big(r):
    """Constants and solutions beyond machine words."""
    ints = fresh_names(r, r.randint(1, 3))
    mag = r.choice([31, 32, 33, 62, 63, 64, 65, 80, 127, 128, 200])
    base = (1 << mag) + r.choice([-1, 0, 1, r.randrange(1 << 20)])
    out = []
    for v in ints:
        s = r.choice([1, -1])
        lo = s * base + r.randint(-2, 2)
        out.append([r.choice([">=", ">", "="]), v, num(lo)] if r.random() < 0.7 else ["<=", v, num(lo)])
    if len(ints) > 1:
        out.append([r.choice(["<", "<=", "="]), ["-", ints[0], ints[1]], num(r.choice([1, -1]) * r.choice([0, 3, base]))])
    return Problem(_decl(ints), out, "big")


def gen_bv(r):
    """Bit-vector comparisons, alone or together with booleans and integers; several widths."""
    widths = [r.choice([1, 2, 3, 4, 5, 8, 12])]
    if r.random() < 0.3:
        widths.append(r.choice([1, 2, 7, 16, 31, 32, 33, 63, 64, 65, 100]))
    names = fresh_names(r, 8)
    by_width = [(w, names[3 * i:3 * i + r.randint(1, 3)]) for i, w in enumerate(widths)]
    bools = names[6:7] if r.random() < 0.4 else []
    ints = names[7:8] if r.random() < 0.25 else []

    def lit(w):
        n = r.choice([r.randrange(1 << w), r.randrange(1 << w), 0, 1, (1 << w) - 1, 1 << (w - 1)])
        return "#b" + format(n, "0%db" % w) if r.random() < 0.6 else ["_", "bv%d" % n, str(w)]

    def atom():
        c = r.random()
        if bools and c < 0.25:
            t = r.choice(bools)
        elif ints and c < 0.45:
            t = [r.choice(["<", "<=", "=", ">"]), r.choice(ints), num(r.randint(-9, 9))]
        else:
            w, vs = r.choice(by_width)
            a = r.choice(vs)
            b = r.choice(vs) if r.random() < 0.4 else lit(w)
            p = [a, b]
            r.shuffle(p)
            t = ["bvule"] + p
        return t if r.random() < 0.65 else ["not", t]

    out = [atom() if r.random() < 0.7 else [r.choice(["or", "and"]), atom(), atom()] for _ in range(r.randint(1, 7))]
    decls = [(v, [], ["_", "BitVec", str(w)]) for w, vs in by_width for v in vs]
    return Problem(decls + _decl(ints, bools), out, "bv")


def gen_degenerate(r):
    """Cancelling terms, zero coefficients, ground facts, unary sums, repeated variables."""
    ints = fresh_names(r, r.randint(1, 3))
    bools = fresh_names(r, 1, ints)

    def cancel():
        v = r.choice(ints)
        k = r.randint(1, 3)
        return r.choice([["-", v, v], ["*", "0", v], ["+", v, ["-", v]], ["-", ["*", num(k), v], ["*", num(k), v]],
                         ["+", ["*", num(-k), v], ["*", num(k), v]], ["-", ["+", v, num(k)], v],
                         ["-", ["-", v], ["-", v]], ["*", v, "0"]])

    def term():
        c = r.random()
        if c < 0.3:
            return cancel()
        if c < 0.5:
            return num(r.randint(-3, 3))
        if c < 0.65:
            return ["+", r.choice(ints)]
        if c < 0.8:
            return ["+", cancel(), r.choice(ints)]
        return ["+", r.choice(ints), r.choice(ints), num(r.randint(-2, 2)), ["-", r.choice(ints)]]

    out = []
    for _ in range(r.randint(1, 4)):
        c = [r.choice(["<", "<=", ">", ">=", "=", "distinct"]), term(), term()]
        if r.random() < 0.3:
            c = ["or", c, r.choice(bools)]
        out.append(c if r.random() < 0.8 else ["not", c])
    return Problem(_decl(ints, bools), out, "degenerate")


def gen_shared(r):
    """Few conditions and operands, combined again and again: ites, applications, sums and comparisons
    that differ in one operand only."""
    names = fresh_names(r, 7)
    ints, bools, f = names[:r.randint(1, 3)], names[3:3 + r.randint(1, 2)], names[5]
    ufs = [(f, ["Int", "Int"], "Int")] if r.random() < 0.3 else []
    leaf = ints + [num(r.randint(-2, 3)) for _ in range(2)]

    def cond():
        c = r.choice(bools) if r.random() < 0.7 else [r.choice(["<", ">=", "="]), r.choice(ints), r.choice(leaf)]
        return c if r.random() < 0.8 else ["not", c]

    conds = [cond() for _ in range(2)]

    def term(d=1):
        c = r.random()
        if c < 0.5:
            return ["ite", r.choice(conds)] + [term(d - 1) if d and r.random() < 0.3 else r.choice(leaf) for _ in range(2)]
        if c < 0.65 and ufs:
            return [f, r.choice(leaf), r.choice(leaf)]
        if c < 0.8:
            return [r.choice("+-"), r.choice(leaf), r.choice(ints)]
        return r.choice(leaf)

    out = []
    for _ in range(r.randint(1, 3)):
        a = [r.choice(["=", "=", "distinct", "<", "<=", ">"]), term(), term()]
        out.append(r.choice([a, a, a, ["or", a, r.choice(conds)], ["xor", a, r.choice(conds)], ["ite", r.choice(conds), a, ["not", a]]]))
    return Problem(_decl(ints, bools, ufs), out, "shared")


def gen_wide(r):
    """Many operands, deep nesting, and lets that bind several names at once or hide others."""
    names = fresh_names(r, 10)
    ints, bools = names[:r.randint(2, 4)], names[6:6 + r.randint(1, 3)]

    def sum_():
        t = []
        for _ in range(r.choice([3, 4, 5, 5, 6, 6, 8, 10])):
            v = r.choice(ints)
            t.append(r.choice([v, v, v, ["-", v], num(r.randint(-3, 3)), ["*", num(r.choice([-2, -1, 2])), v]]))
        return [r.choice("++-")] + t

    def side():
        return r.choice([r.choice(ints), r.choice(ints), num(r.randint(-6, 6)), sum_()])

    def atom():
        c = r.random()
        if c < 0.35:
            return [r.choice(["<", "<=", ">", ">=", "=", "distinct"]), sum_(), side()]
        if c < 0.65:
            op = r.choice(["<", "<=", ">", ">=", "=", "distinct"])
            return [op] + [side() if r.random() < 0.2 else r.choice(ints) for _ in range(r.randint(3, 5))]
        return r.choice(bools) if r.random() < 0.6 else [r.choice(["<", "=", ">="]), r.choice(ints), num(r.randint(-4, 4))]

    def lets(body):
        """Rebinds declared names: the new value of one is the old value of another, and so on."""
        vs = r.sample(ints, r.randint(1, min(3, len(ints))))
        b = [[v, r.choice([r.choice(ints), ["+", r.choice(ints), num(r.randint(-2, 2))], ["-", r.choice(ints), v], num(r.randint(-3, 3))])]
             for v in vs]
        if r.random() < 0.5:
            b.append([r.choice(bools), r.choice([r.choice(bools), ["not", r.choice(bools)], [r.choice(["<", "="]), r.choice(ints), r.choice(ints)]])])
        r.shuffle(b)
        return ["let", b, body]

    def simple():  # no coefficients: let-bound names may stand for sums
        return [r.choice(["<", "<=", ">", ">=", "=", "distinct"])] + [
            r.choice([r.choice(ints), r.choice(ints), ["-", r.choice(ints), r.choice(ints)], ["+", r.choice(ints), num(r.randint(-3, 3))]])
            for _ in range(r.choice([2, 2, 3]))]

    def nest(d):
        c = r.random()
        if d == 0:
            return atom()
        if c < 0.3:
            return [r.choice(["and", "or", "or"])] + [atom() for _ in range(r.randint(2, 8))]
        if c < 0.4:
            return ["xor"] + [atom() for _ in range(r.randint(2, 6))]
        if c < 0.5:
            return ["=>"] + [atom() for _ in range(r.randint(2, 6))]
        if c < 0.7:
            f = ["or" if r.random() < 0.5 else "and", simple(), r.choice(bools)]
            f = lets(f)
            return lets(f) if r.random() < 0.4 else f
        return [r.choice(["or", "and"]), nest(d - 1), ["not", nest(d - 1)]]

    out = [nest(r.randint(0, 2)) for _ in range(r.randint(1, 4))]
    if r.random() < 0.1:
        t = out.pop()
        for _ in range(r.randint(20, 80)):
            t = r.choice([["not", t], ["and", t, r.choice(bools)], ["or", r.choice(bools), t], ["=>", r.choice(bools), t]])
        out.append(t)
    return Problem(_decl(ints, bools), out, "wide")


# ------------------------------------------------------------------ the repository's own benchmarks

BENCHES = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "benches")
_BENCH = []


def bench_files(limit=10000):
    """The small benchmark scripts (nothing, when the tree has none)."""
    if not _BENCH:
        found = []
        for d, _, fs in os.walk(BENCHES):
            found += [os.path.join(d, f) for f in fs if f.endswith(".smt2") and os.path.getsize(os.path.join(d, f)) <= limit]
        _BENCH.append(sorted(found))
    return _BENCH[0]


_FLIP = {"<": ["<=", ">", "="], "<=": ["<", ">=", "="], ">": [">=", "<", "="], ">=": [">", "<=", "="],
         "and": ["or"], "or": ["and", "xor"], "distinct": ["="], "+": ["-"], "-": ["+"], "xor": ["or"], "=>": ["or"]}


def _perturb(e, r, path=()):
    """One random local change that keeps the sorts."""
    spots = []

    def walk(x, path):
        if isinstance(x, str):
            if _NUM.match(x):
                spots.append((path, str(max(0, int(x) + r.choice([-1, 1, 2])))))
            return
        if x[0] == "let":
            for i, b in enumerate(x[1]):
                walk(b[1], path + (1, i, 1))
            walk(x[2], path + (2,))
            return
        if isinstance(x[0], str) and x[0] in _FLIP:
            spots.append((path + (0,), r.choice(_FLIP[x[0]])))
        if x[0] in ("and", "or") and len(x) > 2:
            i = r.randrange(1, len(x))
            spots.append((path, x[:i] + x[i + 1:]))
            spots.append((path + (i,), ["not", x[i]]))
        if x[0] == "ite" and len(x) == 4:
            spots.append((path, ["ite", x[1], x[3], x[2]]))
        for i, y in enumerate(x[1:], 1):
            if isinstance(y, list) or _NUM.match(y):
                walk(y, path + (i,))

    walk(e, ())
    if not spots:
        return e
    at, new = r.choice(spots)
    if not at:
        return new
    root = cur = list(e)
    for i in at[:-1]:
        cur[i] = list(cur[i])
        cur = cur[i]
    cur[at[-1]] = new
    return root


def gen_bench(r):
    """A benchmark of the repository, as it is or with a few random changes."""
    f = r.choice(bench_files())
    decls, asserts = [], []
    with open(f) as fh:
        for c in parse_all(fh.read()):
            if c[0] == "declare-fun":
                decls.append((c[1], c[2], c[3]))
            elif c[0] == "assert":
                asserts.append(c[1])
    for _ in range(r.choice([0, 1, 1, 2, 3, 5])):
        i = r.randrange(len(asserts))
        asserts[i] = _perturb(asserts[i], r)
    return Problem(decls, asserts, "bench")


FAMILIES = {"shared": gen_shared, "wide": gen_wide,
    "lia": gen_lia, "conj": gen_conj, "idl": gen_idl, "eq": gen_eq, "tight": gen_tight, "uf": gen_uf,
    "bool": gen_bool, "big": gen_big, "bv": gen_bv, "degenerate": gen_degenerate,
}
_LOGIC = {"uf": "QF_UFLIA", "shared": "QF_UFLIA", "bv": "QF_BV", "idl": "QF_IDL", "eq": "QF_IDL", "bool": "QF_UF"}


def headers(family):
    l = _LOGIC.get(family, "QF_LIA")
    return ["", "(set-logic %s)" % l, "(set-info :status unknown)\n(set-logic %s)" % l,
            "(set-option :produce-models true)", "; a comment\n(set-logic ALL)"]


_INT_OPS, _BOOL_OPS = {"+", "-", "*"}, {"not", "and", "or", "xor", "=>", "=", "distinct", "<", "<=", ">", ">=", "bvule"}


def _sort_of(t, sig):
    """Int / Bool for the terms that may be shared, None for anything else (let-bound names included)."""
    if isinstance(t, str):
        if t in ("true", "false"):
            return "Bool"
        if _NUM.match(t):
            return "Int"
        s = sig.get(t)
        return s[1] if s and not s[0] and isinstance(s[1], str) else None
    if not isinstance(t[0], str) or t[0] == "let":
        return None
    if t[0] in _INT_OPS:
        return "Int"
    if t[0] in _BOOL_OPS:
        return "Bool"
    if t[0] == "ite":
        return _sort_of(t[2], sig) or _sort_of(t[3], sig)
    s = sig.get(t[0])
    return s[1] if s and s[0] else None


def _closed(t, sig):
    if isinstance(t, str):
        return bool(_NUM.match(t)) or t in ("true", "false") or t in sig or t.startswith("#")
    if t[0] == "_":
        return True
    if t[0] in ("let",):
        return False
    return all(_closed(x, sig) for x in t[1:])


def positions(asserts, sig, sort):
    """(path, term) of the closed terms of a sort that may be replaced."""
    out = []

    def walk(t, path, frozen):
        if isinstance(t, str):
            if not frozen and _sort_of(t, sig) == sort:
                out.append((path, t))
            return
        if t[0] == "_":
            return
        if t[0] == "let":
            walk(t[2], path + [2], frozen)
            return
        if not frozen and _sort_of(t, sig) == sort and _closed(t, sig):
            out.append((path, t))
        for i, x in enumerate(t[1:], 1):
            walk(x, path + [i], frozen or t[0] == "*")

    for i, a in enumerate(asserts):
        walk(a, [i], False)
    return out


def put(t, path, new):
    if not path:
        return new
    t = list(t)
    t[path[0]] = put(t[path[0]], path[1:], new)
    return t


def share(p, r):
    """Rewrites a problem so that equal and nearly equal subterms occur at several places: terms are
    copied to other positions of their sort, and variants of a term (one operand changed, swapped or
    the comparison turned round) are asserted next to it."""
    sig = {n: (args, s) for n, args, s in p.decls}
    pool, spots = {}, []

    def walk(t, path, frozen):
        if isinstance(t, str):
            if not frozen and _sort_of(t, sig):
                spots.append((path, _sort_of(t, sig)))
            return
        if t[0] in ("let", "_"):
            if t[0] == "let":
                walk(t[2], path + [2], frozen)
            return
        s = _sort_of(t, sig)
        if s and _closed(t, sig):
            pool.setdefault(s, []).append(t)
            if not frozen:
                spots.append((path, s))
        for i, x in enumerate(t[1:], 1):
            walk(x, path + [i], frozen or t[0] == "*")

    def size(t):
        return 1 if isinstance(t, str) else sum(map(size, t))

    def variant(t):
        if isinstance(t, str) or r.random() < 0.2:
            if isinstance(t, str) and _NUM.match(t):
                return num(int(t) + r.choice([-1, 1, 1]))
            s = _sort_of(t, sig)
            c = [n for n, (args, q) in sig.items() if not args and q == s]
            return r.choice(c) if c else t
        t = list(t)
        if t[0] in ("<", "<=", ">", ">=") and r.random() < 0.4:
            return [r.choice(["<", "<=", ">", ">=", "="])] + t[1:]
        args = sig.get(t[0], ([], None))[0]
        if len(t) > 2 and t[0] != "*" and r.random() < 0.4 and t[0] != "ite" and args == args[::-1]:
            return [t[0]] + t[:0:-1]
        ks = [k for k in range(1, len(t)) if t[0] != "*" or not isinstance(t[k], str) or t[k] in sig]
        if t[0] == "*":
            return t
        k = r.choice(ks)
        if _sort_of(t[k], sig):
            t[k] = variant(t[k])
        return t

    asserts = list(p.asserts)
    for _ in range(r.randint(1, 3)):
        pool.clear()
        spots.clear()
        for i, a in enumerate(asserts):
            walk(a, [i], False)
        c = r.random()
        if c < 0.4 and spots:
            path, s = r.choice(spots)
            cand = [t for t in pool.get(s, []) if size(t) < 25]
            if cand and len(path) > 1:
                asserts[path[0]] = put(asserts[path[0]], path[1:], r.choice(cand))
        elif c < 0.7 and pool.get("Int"):
            best = [t for t in pool["Int"] if not isinstance(t, str) and t[0] not in _INT_OPS]
            t = r.choice(best if best and r.random() < 0.5 else pool["Int"])
            if size(t) < 25:
                asserts.append([r.choice(["distinct", "=", "<", "<="]), t, variant(t)])
        elif pool.get("Bool"):
            t = r.choice(pool["Bool"])
            if size(t) < 25:
                v = variant(t)
                asserts.append(r.choice([v, ["not", v], ["xor", t, v], ["=", v, t], ["=>", v, t]]))
    return Problem(p.decls, asserts, p.family, p.header, p.meta)


def gen(family, r):
    if family == "bench":
        return gen_bench(r)
    p = FAMILIES[family](r)
    if family != "wide" and r.random() < 0.35:
        p = share(p, r)
    p.header = r.choice(headers(family))
    return p
