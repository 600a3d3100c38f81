"""Driving the string transformer's command line, and monitors over what it writes."""
import json
import os
import re
import tempfile

import strs
import vlib
from strs import S, chars

NAME = "amzn-smt-string-transformer"
TOOL = None
BAIL = "Encountered unsupported string function: BAILING OUT"
MODES = ("char-to-char", "no-reconstruct")
# families whose operators are all supported
SUPPORTED = [f for f in strs.FAMILIES if f != "code"]


def setup():
    global TOOL
    TOOL = vlib.build_repo_bins([NAME])[NAME]


def alive(op):
    """Environment of the tool: short panic messages."""
    return dict(vlib.ENV, RUST_BACKTRACE="0")


def convert(text, mode, d, stem="a", ext="smt2", glob=False, timeout=20, mapping=True):
    """-> (kind, transformed text, mapping): kind 'ok', 'bail', 'panic' or 'timeout'."""
    p = os.path.join(d, stem + "." + ext)
    with open(p, "w") as f:
        f.write(text)
    out = os.path.join(d, stem + "_transformed." + ext)
    mp = os.path.join(d, "global_mapping.json" if glob else stem + "_mapping.json")
    vlib.stale(out, text)
    if not glob:
        vlib.stale(mp, text)
    rc, so, se = vlib.run_cli(
        [TOOL, "convert", "--mapping", mode, "--input-file", p] + (["--use-global-map"] if glob else []),
        d, timeout, env=dict(vlib.ENV, RUST_BACKTRACE="0"), prompt=True)
    if rc is None:
        return "timeout", "", None
    if rc != 0:
        return "panic", se[-400:], None
    try:
        with open(out) as f:
            t = f.read()
        m = None
        if mapping:
            with open(mp) as f:
                m = json.load(f)
    except (OSError, ValueError) as e:
        return "panic", "exit 0 without readable output: %s" % e, None
    return ("bail" if t.strip() == BAIL else "ok"), t, m


# ------------------------------------------------------------------ verdicts of pinned scripts


def pinned_verdict(cmds):
    """True/False if the script's top-level equations fix all its variables, else None."""
    names = [c[1] for c in cmds if c[0] in ("declare-const", "declare-fun")]
    asserts = [c[1] for c in cmds if c[0] == "assert"]
    env = strs.pins_of(asserts, names)
    if set(names) - set(env):
        return None, None, env
    ev = strs.Eval(env)
    for a in asserts:
        if not ev.ev(a):
            return False, a, env
    return True, None, env


# ------------------------------------------------------------------ structure

START = ("set-logic", "set-info", "set-option", "declare-sort", "define-sort", "declare-datatypes", "declare-datatype")
DECL = ("declare-const", "declare-fun")


class Differs(Exception):
    pass


class Iso:
    """Compares a script with its transformed version: equal up to consistent renaming of declared and
    bound symbols and replacement of string literals. Collects renamings and literal pairs."""

    def __init__(self):
        self.names = {}
        self.lits = []  # (original, transformed, is a range endpoint)

    def fail(self, what, a, b):
        raise Differs("%s: %s became %s" % (what, strs.show(a) if a is not None else "-", strs.show(b) if b is not None else "-"))

    def term(self, a, b, bound, rng=False):
        if type(a) is S or type(b) is S:
            if type(a) is not type(b):
                self.fail("literal", a, b)
            self.lits.append((a, b, rng))
            return
        if type(a) is not type(b):
            self.fail("term", a, b)
        if type(a) is str:
            want = bound.get(a)
            if want is None and a in self.names:
                want = self.names[a]
            if want is None:
                want = a
                if b in self.fresh:
                    self.fail("free symbol", a, b)
            if b != want:
                self.fail("symbol", a, b)
            return
        if type(a) is not tuple:
            if a != b:
                self.fail("constant", a, b)
            return
        if len(a) != len(b):
            self.fail("application", a, b)
        if a and a[0] == "let":
            if len(a) != 3 or len(a[1]) != len(b[1]):
                self.fail("let", a, b)
            inner = dict(bound)
            for (n, t), (m, u) in zip(a[1], b[1]):
                self.term(t, u, bound)
            self.binders([x[0] for x in a[1]], [x[0] for x in b[1]], inner, a, b)
            self.term(a[2], b[2], inner)
            return
        if a and a[0] in ("forall", "exists"):
            if a[0] != b[0] or len(a[1]) != len(b[1]) or any(x[1] != y[1] for x, y in zip(a[1], b[1])):
                self.fail("quantifier", a, b)
            inner = dict(bound)
            self.binders([x[0] for x in a[1]], [x[0] for x in b[1]], inner, a, b)
            self.term(a[2], b[2], inner)
            return
        if a and type(a[0]) is tuple and a[0] and a[0][0] == "_":
            if a[0] != b[0]:
                self.fail("operator", a, b)
            for x, y in zip(a[1:], b[1:]):
                self.term(x, y, bound)
            return
        for x, y in zip(a, b):
            self.term(x, y, bound, a[0] == "re.range")

    def binders(self, xs, ys, scope, a, b):
        """A bound name must not capture anything: neither free symbols nor outer bound ones."""
        if len(set(ys)) != len(ys):
            self.fail("bound names clash", a, b)
        for x, y in zip(xs, ys):
            scope[x] = y
        for y in ys:
            hidden = [k for k, v in list(scope.items()) + [(k, v) for k, v in self.names.items() if k not in scope]
                      if v == y and k not in xs]
            used = strs_free(a[2])
            if any(h in used for h in hidden):
                self.fail("bound name captures", a, b)

    def scripts(self, orig, trans):
        os_, od, orest = split(orig)
        ts, td, trest = split(trans)
        if os_ != ts:
            raise Differs("settings or sorts differ: %r became %r" % (os_, ts))
        if len(od) != len(td):
            raise Differs("%d declarations became %d" % (len(od), len(td)))
        for x, y in zip(od, td):
            if x[2:] != y[2:] or x[0] != y[0]:
                self.fail("declaration", x, y)
            self.names[x[1]] = y[1]
        defs = [(x, y) for x, y in zip(orest, trest) if x[0] == "define-fun" and y[0] == "define-fun"]
        later = {x[1]: y[1] for x, y in defs}
        self.fresh = set(self.names.values()) | set(later.values())
        if len(orest) != len(trest):
            raise Differs("%d commands became %d" % (len(orest), len(trest)))
        for x, y in zip(orest, trest):
            if x[0] != y[0] or len(x) != len(y):
                self.fail("command", x, y)
            if x[0] in ("assert", "get-value"):
                self.term(x[1], y[1], {}) if x[0] == "assert" else [self.term(p, q, {}) for p, q in zip(x[1], y[1])]
            elif x[0] == "define-fun":
                if x[3] != y[3] or len(x[2]) != len(y[2]) or any(p[1] != q[1] for p, q in zip(x[2], y[2])):
                    self.fail("definition", x, y)
                scope = {}
                self.binders([p[0] for p in x[2]], [q[0] for q in y[2]], scope, (0, 0, x[4]), y)
                self.term(x[4], y[4], scope)
                self.names[x[1]] = y[1]
            elif x != y:
                self.fail("command", x, y)
        vals = list(self.names.values())
        if len(set(vals)) != len(vals):
            raise Differs("renaming is not injective: %r" % self.names)


def strs_free(t, bound=frozenset()):
    """Free symbols of a term."""
    if type(t) is str:
        return set() if t in bound else {t}
    if type(t) is not tuple or not t:
        return set()
    if t[0] == "let":
        out = set()
        for n, u in t[1]:
            out |= strs_free(u, bound)
        return out | strs_free(t[2], bound | {n for n, _ in t[1]})
    if t[0] in ("forall", "exists"):
        return strs_free(t[2], bound | {n for n, _ in t[1]})
    out = set()
    for x in t:
        out |= strs_free(x, bound)
    return out


def decoded(t):
    """The term with the strings that literals denote instead of their spelling."""
    return ("lit", chars(t)) if type(t) is S else tuple(decoded(x) for x in t) if type(t) is tuple else t


def split(cmds):
    return ([c for c in cmds if c[0] in START], [c for c in cmds if c[0] in DECL],
            [c for c in cmds if c[0] not in START and c[0] not in DECL])


# ------------------------------------------------------------------ richer scripts

NAMES = ["a0", "a1", "a2", "new_var0", "new_var1", "b0", "b1", "v0", "x", "y", "str", "A0", "a b", "new_var", "a", "x!1", "s"]


def rename(t, m):
    if type(t) is str:
        return m.get(t, t)
    if type(t) is tuple:
        return tuple(rename(x, m) for x in t)
    return t


def nest(r, depth, ints, bools):
    """A Boolean term with binders in binders, side by side and shadowing; the outer names are used again after the inner ones end."""
    num = lambda: r.choice(ints) if r.random() < 0.8 else r.randint(0, 5)
    atom = lambda: r.choice(bools) if bools and r.random() < 0.4 else (r.choice((">=", "<")), ("+", num(), r.randint(1, 9)), num())
    if depth == 0:
        return atom()
    ps = r.sample(NAMES, r.randint(1, 2))
    boo = [p for p in ps if r.random() < 0.3]
    ii = [n for n in ints if n not in boo] + [p for p in ps if p not in boo]
    bb = [n for n in bools if n not in ps] + boo
    ii = [n for n in ii if n not in bb] or [1]
    body = (r.choice(("and", "or")),) + tuple(r.choice([nest(r, depth - 1, ii, bb), nest(r, 0, ii, bb)]) for _ in range(r.randint(1, 2)))
    uses = tuple((p if p in boo else ("<", p, r.choice(ii))) for p in ps)
    body += r.choice([uses, (), uses]) + (nest(r, 0, ii, bb),)
    if r.random() < 0.5:
        return ("let", tuple((p, atom() if p in boo else num()) for p in ps), body)
    return (r.choice(("exists", "forall")), tuple((p, "Bool" if p in boo else "Int") for p in ps), body)


def decorated(r, fam, pinned=False):
    """Commands of a random script of the family with settings, sorts, functions, definitions, binders,
    scopes, queries and awkward names mixed in (all of it supported by the transformer)."""
    g = strs.Gen(r, fam)
    if r.random() < 0.25:
        g.beside(SUPPORTED)
    sc = g.pinned(r.random() < 0.3) if pinned else g.script()
    decls = [(("declare-const", n, s) if r.random() < 0.6 else ("declare-fun", n, (), s)) for n, s in sc.decls]
    asserts = [("assert", a) for a in sc.asserts]
    names = [n for n, _ in sc.decls]
    num = (("str.len", r.choice(g.svars)) if "str.len" in g.preds else r.randint(0, 4))
    num2 = r.choice([i for i in g.ivars] or [r.randint(0, 4)])
    loc = lambda: r.choice(NAMES + names)
    atom = g.formula(1)
    defs, extra = [], []

    def maybe(p):
        return r.random() < p

    if maybe(0.2):
        decls.append(("declare-fun", "fi", ("Int",), "Int"))
        extra.append(("assert", ("or", ("=", ("fi", num), num2), (">=", ("fi", ("fi", num2)), 0))))
    if maybe(0.2):
        p = loc()
        defs.append(("define-fun", "df", ((p, "Int"),), "Bool", (">=", p, num2 if p != num2 else 1)))
        extra.append(("assert", ("or", ("df", num), ("not", ("df", 3)))))
    if maybe(0.15):
        defs.append(("define-fun", "dc", (), "Bool", atom))
        extra.append(("assert", ("or", "dc", ("not", "dc"))))
    if maybe(0.3):
        p, q = r.sample(NAMES, 2) if maybe(0.5) else r.sample(sorted(set(NAMES + names)), 2)
        body = ("or", p, ("not", p), (">=", q, 0), (">=", num if not {p, q} & strs_free(num) else 1, 0))
        extra.append(("assert", ("let", ((p, atom), (q, num2)), body)))
    if maybe(0.2):
        p = loc()
        extra.append(("assert", (r.choice(("exists", "forall")), ((p, "Int"),), ("or", (">", p, num2 if p != num2 else 2), ("<=", p, 7)))))
    if maybe(0.15):
        p, q = r.sample(NAMES, 2)
        extra.append(("assert", ("let", ((p, num2),), ("let", ((q, ("+", p, 1)), (p, 5)), (">=", ("+", p, q), 6)))))
    if maybe(0.2) and not pinned:
        extra.append(("assert", nest(r, r.randint(2, 3), [i for i in g.ivars] or [1], [])))
    if maybe(0.15):
        decls.append(("declare-const", "us", "U"))
        extra.append(("assert", ("=", "us", "us")))
    sorts = [("declare-sort", "U", 0)] if any(c[-1] == "U" for c in decls) else []
    body = asserts + extra
    if maybe(0.5) and not pinned:
        r.shuffle(body)
    types = []
    if maybe(0.1) and not pinned:
        types.append(("declare-datatypes", (("D", 0),), ((("dn",), ("dm", ("d1", "Int"), ("d2", "D"))),)))
        decls.append(("declare-const", "dd", "D"))
        body.insert(r.randint(0, len(body)), ("assert", ("or", ("=", "dd", "dn"), ("=", ("d1", "dd"), num2))))
    if maybe(0.2) and not pinned:  # the same assertion again, or one that is trivial
        a = r.choice(body)
        body.insert(r.randint(0, len(body)), a if maybe(0.7) else ("assert", ("=", a[1], a[1])))
    if maybe(0.2):
        k = r.randint(0, len(body))
        body = body[:k] + [("push", 1)] + body[k:] + [("check-sat",), ("pop", 1)]
    elif maybe(0.2) and not pinned:  # scopes in scopes, one after the other, the same assertion in several of them
        a, b = r.choice(body), r.choice(body)
        k = r.randint(0, len(body))
        body = body[:k] + [("push", 1), a, ("check-sat",), ("push", r.randint(1, 2)), b, a, ("check-sat",), ("pop", 1), a,
                           ("pop", 1), ("push", 1), ("check-sat",), ("pop", 1)] + body[k:]
    if maybe(0.1) and not pinned:
        body.insert(r.randint(0, len(body)), r.choice([("echo", S("ab c")), ("get-info", ":name"), ("check-sat-assuming", ("true",)),
                                                        ("check-sat",), ("get-assertions",)]))
    head = []
    if maybe(0.6):
        head.append(("set-logic", r.choice(["ALL", "QF_S", "QF_SLIA"])))
    if maybe(0.3):
        head.append(("set-info", ":status", r.choice(["sat", "unknown"])))
    if maybe(0.3):
        head.append(("set-option", ":produce-models", "true"))
    tail = [("check-sat",)]
    if maybe(0.4):
        tail.append(("get-model",))
    if maybe(0.2):
        tail.append(("get-value", (r.choice(names),)))
    if maybe(0.2):
        tail.append(("exit",))
    m = {}
    if maybe(0.7):
        under = {}  # free symbol -> names bound around its occurrences
        for x in defs + body:
            if x[0] in ("define-fun", "assert"):
                scopes(x[-1], tuple(p[0] for p in x[2]) if x[0] == "define-fun" else (), under)
        for _ in range(20):
            new = [n for n in NAMES]
            r.shuffle(new)
            m = dict(zip(names + ["fi", "df", "dc", "us"], new))
            if not any(m.get(n, n) in bs for n, bs in under.items()):
                break
            m = {}
    out = head + sorts + types + decls + defs + body + tail
    return [rename_free(c, m) for c in out], sc, m


def rename_free(c, m):
    if c[0] in DECL:
        return c[:1] + (m.get(c[1], c[1]),) + c[2:]
    if c[0] == "assert":
        return ("assert", rfree(c[1], m))
    if c[0] == "define-fun":
        return (c[0], m.get(c[1], c[1]), c[2], c[3], rfree(c[4], {k: v for k, v in m.items() if k not in [p[0] for p in c[2]]}, [p[0] for p in c[2]]))
    if c[0] == "get-value":
        return (c[0], tuple(m.get(x, x) for x in c[1]))
    return c


def scopes(t, bound, out):
    """Collects, for each free symbol, the names bound around its occurrences."""
    if type(t) is str:
        if t not in bound:
            out.setdefault(t, set()).update(bound)
    elif type(t) is tuple and t:
        if t[0] == "let":
            for _, u in t[1]:
                scopes(u, bound, out)
            scopes(t[2], tuple(bound) + tuple(n for n, _ in t[1]), out)
        elif t[0] in ("forall", "exists"):
            scopes(t[2], tuple(bound) + tuple(n for n, _ in t[1]), out)
        else:
            for x in t:
                scopes(x, bound, out)


def rfree(t, m, bound=()):
    """Renames free symbols (the caller has made sure that no binder captures the new names)."""
    if type(t) is str:
        return t if t in bound else m.get(t, t)
    if type(t) is not tuple or not t:
        return t
    if t[0] == "let":
        ns = [n for n, _ in t[1]]
        return ("let", tuple((n, rfree(u, m, bound)) for n, u in t[1]), rfree(t[2], m, tuple(bound) + tuple(ns)))
    if t[0] in ("forall", "exists"):
        ns = [n for n, _ in t[1]]
        return (t[0], t[1], rfree(t[2], m, tuple(bound) + tuple(ns)))
    return tuple(rfree(x, m, bound) for x in t)


def text(cmds):
    return "\n".join(strs.show(c) if type(c) is tuple else c for c in cmds) + "\n"


# ------------------------------------------------------------------ solvers


def cli_solver(which, text, d, secs=3):
    """First word of the answer of z3-new / cvc5 run as a program on the text, else 'none'."""
    p = os.path.join(d, "q_%s.smt2" % which)
    with open(p, "w") as f:
        f.write(text)
    if which == "z3":
        argv = ["z3-new", "-T:%d" % secs, "-memory:1500", "model_validate=false", p]
    else:
        argv = ["cvc5", "--tlimit=%d" % (secs * 1000), "--strings-exp", "--produce-models", "--lang=smt2.6", p]
    rc, so, se = vlib.run_cli(argv, d, secs + 4)
    so = so or ""
    return (so.split("\n", 1) + [""])[0].strip() or "none", so.split("\n", 1)[1] if "\n" in so else ""


def model_env(out, decls):
    """Environment from a printed model (define-funs of constants), defaults for what it leaves out."""
    env = {}
    ev = strs.Eval({})
    for c in (strs.read(out) or [()])[0]:
        if type(c) is tuple and len(c) == 5 and c[0] == "define-fun" and c[2] == () and any(c[1] == n for n, _ in decls):
            env[c[1]] = ev.ev(neg(c[4]))
    for n, s in decls:
        env.setdefault(n, {"String": "", "Int": 0, "Bool": False}[s])
    return env


def neg(t):
    return -t[1] if type(t) is tuple and len(t) == 2 and t[0] == "-" and type(t[1]) is int else t


def consts(cmds):
    return [(c[1], c[-1]) for c in cmds if c[0] in DECL]


def holds(cmds, env):
    """First assertion that is false under env (None: all hold)."""
    ev = strs.Eval(env)
    for c in cmds:
        if c[0] == "assert" and not ev.ev(c[1]):
            return c[1]
    return None


def confirmed_sat(text, d):
    """A model of the text, confirmed by our evaluator, or None."""
    cmds = strs.read(text)
    ans, out = cli_solver("z3", text, d)
    if ans != "sat":
        return None
    try:
        env = model_env(out, consts(cmds))
        return env if holds(cmds, env) is None else None
    except (strs.Cannot, strs.BadText, IndexError, KeyError, RecursionError):
        return None


def refuted(text, d):
    """Both solvers say unsat."""
    return cli_solver("z3", text, d, 5)[0] == "unsat" and cli_solver("cvc5", text, d, 5)[0] == "unsat"
