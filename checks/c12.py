"""C12: every script is either transformed correctly or explicitly bailed out of; supported ones are transformed."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import strs, strx, vlib
from strs import S, chars

c = vlib.Check(
    "C12",
    "(a) decorated random scripts of 13 families whose operators are all supported, also large and deeply nested "
    "ones, converted in both modes: the program must end normally and must not bail out; (b) scripts with pinned "
    "variables into which string constructs outside the supported set are planted (order, codes, regular "
    "expression replacement, ite / let / quantifiers / definitions over strings, ranges that are empty, single or "
    "ill-formed): the program must end normally and either bail out or keep the verdict that our evaluator computes "
    "for both scripts; (c) scripts with an invalid token between commands: must be reported; non-trivial: supported scripts transformed and unsupported ones judged; distinct by script "
    "and mode", min_nontrivial=200)
strx.setup()


class Ev(strs.Eval):
    """Evaluator with definitions and with quantifiers over values fixed by an equation."""
    defs = {}

    def ev(self, t, loc=None):
        if type(t) is str and t in self.defs and not (loc and t in loc):
            return self.ev(self.defs[t][1], {})
        if type(t) is tuple and t and type(t[0]) is str:
            if t[0] in self.defs:
                ps, body = self.defs[t[0]]
                return self.ev(body, dict(zip(ps, [self.ev(x, loc) for x in t[1:]])))
            if t[0] in ("exists", "forall"):
                z, body = t[1][0][0], t[2]
                if len(t[1]) != 1 or body[0] != ("and" if t[0] == "exists" else "=>") or body[1][0] != "=" or body[1][1] != z:
                    raise strs.Cannot("quantifier")
                return self.ev(body[2], {**(loc or {}), z: self.ev(body[1][2], loc)})
        return strs.Eval.ev(self, t, loc)


def verdict(cmds):
    names = [n for n, _ in strx.consts(cmds)]
    asserts = [x[1] for x in cmds if x[0] == "assert"]
    env = strs.pins_of(asserts, names)
    if set(names) - set(env):
        return None
    ev = Ev(env)
    ev.defs = {x[1]: ([p[0] for p in x[2]], x[4]) for x in cmds if x[0] == "define-fun"}
    return all([ev.ev(a) for a in asserts])


def plant(r, g):
    """(definitions, Boolean term) with a construct outside the supported set."""
    s, u = (lambda: r.choice(g.svars)), (lambda: g.lit() if r.random() < 0.6 else r.choice(g.svars))
    pred = lambda z: r.choice([("=", z, u()), ("str.prefixof", g.lit(), z), ("str.contains", z, g.lit()),
                               ("str.suffixof", z, u()), ("=", ("str.len", z), r.randint(0, 5)),
                               ("str.in_re", z, ("re.*", ("str.to_re", g.lit())))])
    k = r.randrange(14)
    z = r.choice(["z", "a0", "new_var0"])
    if k == 0:
        return [], (r.choice(("str.<", "str.<=")), u(), u())
    if k == 1:
        return [], (r.choice(("<=", "=")), ("str.to_code", u()), r.choice([97, 98, ("str.to_code", u()), -1 + 2]))
    if k == 2:
        return [], ("=", ("str.from_code", r.choice([97, 98, ("+", ("str.to_code", u()), 1)])), u())
    if k == 3:
        return [], ("=", ("str.replace_re", u(), ("re.+", ("str.to_re", g.lit())), g.lit()), u())
    if k == 4:
        return [], ("=", ("str.replace_re_all", u(), ("re.+", ("str.to_re", g.lit())), g.lit()), u())
    if k == 5:
        return [], pred(("ite", ("=", u(), u()), u(), u()))
    if k == 6:
        return [], ("let", ((z, u()),), pred(z))
    if k == 7:
        return [], ("let", ((z, ("str.++", u(), u())),), pred(("ite", pred(z), z, u())))
    if k == 8:
        return [], ("exists", ((z, "String"),), ("and", ("=", z, g.lit()), pred(z)))
    if k == 9:
        return [], ("forall", ((z, "String"),), ("=>", ("=", z, g.lit()), pred(z)))
    if k == 10:
        return [("define-fun", "df", ((z, "String"),), "Bool", pred(z))], ("df", u())
    if k == 11:
        return [("define-fun", "dk", (), "String", g.lit())], pred("dk")
    a, b = r.choice(g.alpha), r.choice(g.alpha)
    rng = ("re.range", g.enc(a), g.enc(r.choice([a, min(a, b), b + a, ""])))
    if k == 12:
        return [], ("str.in_re", s(), r.choice([rng, ("re.+", ("re.union", rng, ("str.to_re", g.lit())))]))
    return [("define-fun", "dr", ((z, "String"),), "String", ("str.++", z, g.lit()))], pred(("dr", s()))


def odd_range(t):
    return type(t) is tuple and (bool(t and t[0] == "re.range" and not (
        len(chars(t[1])) == len(chars(t[2])) == 1 and chars(t[1]) < chars(t[2])
        # there are no characters to map the surrogate code points to
        and not chars(t[1]) < "\ud800" < chars(t[2]))) or any(odd_range(x) for x in t))


def big(r, fam):
    g = strs.Gen(r, fam)
    sc = g.script()
    k = r.randrange(4)
    if k == 0:  # many literals
        g.pool += [g.word(20) for _ in range(40)]
        sc.asserts += [g.formula(2) for _ in range(15)]
    elif k == 1:  # long ones
        g.pool += [g.word(400)[:1] + "".join(r.choice(g.alpha) for _ in range(600)) for _ in range(2)]
        sc.asserts += [g.formula(2) for _ in range(4)]
    elif k == 2:  # deep
        f = sc.asserts[0]
        for _ in range(120):
            f = r.choice([("not", f), ("and", f, "true"), ("or", f, g.atom()), ("=>", g.atom(), f)])
        sc.asserts.append(f)
    else:  # many variables
        new = ["w%d" % i for i in range(25)]
        sc.decls += [(v, "String") for v in new]
        g.svars += new
        sc.asserts += [g.formula(1) for _ in range(25)]
    return strs.read(sc.text())


def run(i):
    r = vlib.rng("C12", i)
    res = []
    fam = r.choice(strx.SUPPORTED + ["eq"] * 3)
    sup = r.random() < 0.5
    if sup:
        cmds = big(r, fam) if r.random() < 0.1 else strx.decorated(r, fam)[0]
        if any(odd_range(x) for x in cmds):
            sup = None
    else:
        g = strs.Gen(r, fam)
        sc = g.pinned()
        defs, extra = plant(r, g)
        ev = Ev(sc.env)
        ev.defs = {x[1]: ([p[0] for p in x[2]], x[4]) for x in defs}
        if ev.ev(extra) is False and r.random() < 0.8:
            extra = ("not", extra)
        sc.asserts.append(extra)
        sc.head += defs
        cmds = strs.read(sc.text())
    t = strx.text(cmds)
    if i % 25 == 7:
        t = vlib.broken(r, t)
        with vlib.Scratch() as d:
            mode = r.choice(strx.MODES)
            kind, tt, mp = strx.convert(t, mode, d)
            return fam, "malformed", t, [(mode, kind, tt, "malformed script isn't reported" if kind == "ok" else None)]
    with vlib.Scratch() as d:
        for mode in strx.MODES:
            kind, tt, mp = strx.convert(t, mode, d)
            if kind == "timeout":
                kind, tt, mp = strx.convert(t, mode, d, timeout=120)
            err = None
            if kind == "panic":
                err = tt
            elif kind == "timeout":
                err = "no result in 120 s"
            elif kind == "bail" and sup:
                err = "bails out of a supported script"
            elif kind == "ok" and sup is False:
                try:
                    a, b = verdict(strs.read(t)), verdict(strs.read(tt))
                    if a is None or b is None:
                        kind = "not pinned"
                    elif a != b:
                        err = "verdict %s became %s" % (a, b)
                except (strs.Cannot, strs.BadText) as e:
                    kind = "cannot: %s" % type(e).__name__
            res.append((mode, kind, tt, err))
    return fam, sup, t, res


for fam, sup, t, res in vlib.fanout(run, range(vlib.scale(5000, 60000)), budget=vlib.scale(60, 700)):
    for mode, kind, tt, err in res:
        if err:
            c.violation("malformed" if sup == "malformed" else "not total" if sup else "not bailed out", err, {"script": t, "mode": mode, "transformed": tt, "error": err})
        if kind not in ("ok", "bail", "panic", "timeout"):
            c.unsure(kind)
            continue
        c.seen((t, mode), sup is not None, {"script": t, "mode": mode, "outcome": kind})
        c.count(("malformed: " if sup == "malformed" else "supported: " if sup else "unsupported: ") + kind)
        c.count("family:" + fam)
sys.exit(c.finish())
