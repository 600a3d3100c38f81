"""C10: the transformed script is equisatisfiable with the original."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import strs, strx, vlib

c = vlib.Check(
    "C10",
    "random scripts of 15 families converted in both modes: (a) scripts whose equations pin all variables, so that "
    "our evaluator decides both the original and the transformed script exactly, with satisfiable and "
    "minimally unsatisfiable bodies; (b) scripts with a known solution that is not spelled out; (c) free random "
    "scripts, where one side's model is confirmed by the evaluator and z3 and cvc5 must not both refute the other; "
    "(b) and (c) in the no-reconstruct mode only for equalities and lengths, the fragment whose string "
    "properties it tracks without the solution being written down; non-trivial: scripts with both sides "
    "decided; distinct by script and mode", min_nontrivial=300)
strx.setup()

# The no-reconstruct mode relates literals pairwise (affixes, containment, lengths) but neither literals that
# can overlap inside a variable nor repetitions of them. Known findings, by the script.
KNOWN = [
    '(declare-const x String)\n(assert (str.in_re x (re.+ (str.to_re "ab"))))\n(assert (str.contains x "ba"))\n'
    '(check-sat)\n(get-model)\n',
    '(declare-const x String)\n(assert (str.in_re x (re.++ re.allchar (re.+ (str.to_re "ab")))))\n'
    '(assert (str.in_re x (re.++ (re.+ (str.to_re "ab")) re.allchar)))\n(check-sat)\n(get-model)\n',
]


def known(k):
    t, bad = KNOWN[k], None
    with vlib.Scratch() as d:
        for _ in range(8):
            kind, tt, mp = strx.convert(t, "no-reconstruct", d)
            if kind == "ok" and any(strx.confirmed_sat(a, d) is not None and strx.refuted(b, d) for a, b in ((t, tt), (tt, t))):
                return t, tt
    return t, None


def compare(t, mode, d, exact, env):
    kind, tt, mp = strx.convert(t, mode, d)
    if kind != "ok":
        return kind, None, tt
    try:
        orig, trans = strs.read(t), strs.read(tt)
        if exact:
            a, why, _ = strx.pinned_verdict(orig)
            b, why2, _ = strx.pinned_verdict(trans)
            if a is None or b is None:
                return "not pinned", None, tt
            return "ok", (None if a == b else "%s became %s: %s" % (
                a, b, strs.show(why2 if why2 is not None else why))), tt
        env = env if env is not None and strx.holds(orig, env) is None else strx.confirmed_sat(t, d)
        if env is not None:
            env2 = strx.confirmed_sat(tt, d)
            if env2 is not None:
                return "ok", None, tt
            if strx.refuted(tt, d):
                return "ok", "satisfied by %r, but the transformed script is unsatisfiable" % env, tt
            return "undecided", None, tt
        env2 = strx.confirmed_sat(tt, d)
        if env2 is not None:
            if strx.refuted(t, d):
                return "ok", "unsatisfiable, but the transformed script is satisfied by %r" % env2, tt
            return "undecided", None, tt
        return "undecided", None, tt
    except (strs.Cannot, strs.BadText, RecursionError) as e:
        return "cannot: %s" % type(e).__name__, None, tt


def run(i):
    r = vlib.rng("C10", i)
    k = r.random()
    fam = r.choice(strx.SUPPORTED if k < 0.9 else strx.SUPPORTED + ["code"])
    exact = k < 0.85 or fam == "code"
    g = strs.Gen(r, fam)
    if exact and r.random() < 0.25:
        g.beside(strx.SUPPORTED)
    if exact:
        sc = g.pinned(r.random() < 0.4)
        env = sc.env
        what = "pinned"
    elif r.random() < 0.6:
        sc = g.pinned()
        pins = [id(p) for p in sc.pins]
        sc.asserts = [a for a in sc.asserts if id(a) not in pins]
        env, what = sc.env, "planted"
    else:
        sc = g.script()
        env, what = None, "free"
    t = sc.text(r.random() < 0.5)
    res = []
    with vlib.Scratch() as d:
        for mode in strx.MODES:
            if not exact and mode == "no-reconstruct" and fam not in ("eq", "len"):
                continue
            res.append((mode,) + compare(t, mode, d, exact, env))
    return fam, what, t, res


for t, tt in map(known, range(len(KNOWN))):
    if tt is not None:
        c.violation("satisfiability", "known script", {"script": t, "mode": "no-reconstruct", "transformed": tt}, t)
for fam, what, t, res in vlib.fanout(run, range(vlib.scale(7000, 80000)), budget=vlib.scale(60, 700)):
    for mode, kind, err, tt in res:
        if kind != "ok":
            c.unsure(kind)
            continue
        c.seen((t, mode), True, {"script": t, "mode": mode, "transformed": tt, "kind": what})
        c.count(what)
        c.count("family:" + fam)
        if err:
            c.violation("satisfiability", err, {"script": t, "mode": mode, "transformed": tt, "error": err})
sys.exit(c.finish())
