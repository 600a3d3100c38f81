"""C11: reconstruct turns any solution of a char-to-char transformed script into one of the original."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import strs, strx, vlib

c = vlib.Check(
    "C11",
    "random scripts of 15 families, converted with char-to-char; solutions of the transformed script come from a "
    "solver and from planted solutions (with characters that no literal has, escapes, quotes, any order and "
    "layout of the printed model; some with a declared sort and what solvers print for it), each confirmed by our evaluator; monitor: the program reports "
    "`SAT: model reconstructed`, and the query it writes is the original one with one equation per affected "
    "variable added, whose values (with the solution's Booleans and integers) satisfy every assertion; plus the "
    "answers unsat, unknown, timeout and sat without model, and missing files; non-trivial: reconstructed "
    "solutions with a non-empty string; distinct by script and solution", min_nontrivial=200)
strx.setup()
FRESH = "\u00e9\u4e2d~ \"\\Qq7|;()\x07\U0001f600"


SORT = "El"  # a declared sort
# what solvers print into models besides the values of constants
EXTRA = [";; universe for El:\n  ;;   El!val!0 \n  ;; -----------\n  ;; definitions for universe elements:\n  (declare-fun El!val!0 () El)",
         "  ;; cardinality constraint:\n  (forall ((x El)) (= x El!val!0))\n  ;; -----------",
         "  (define-fun el () El\n    El!val!0)", "(define-fun el () El (as @El_0 El))", "; cardinality of El is 1\n; rep: (as @El_0 El)",
         "  (define-fun g ((x!0 El)) String\n    (ite (= x!0 El!val!0) \"e\"\n      \"\"))", "(define-fun g ((_arg_1 El)) String \"e\")",
         "; don't", "(declare-datatypes ((T 0)) (((c))))"]


def consts(cmds):
    return [(n, s) for n, s in strx.consts(cmds) if s in ("String", "Int", "Bool")]


def literal(r, s):
    """Any legal spelling of the string."""
    out = []
    for i, ch in enumerate(s):
        n = ord(ch)
        if 32 <= n < 127 and ch != "\\" and r.random() > 0.05:
            out.append('""' if ch == '"' else ch)
        elif n <= 0xFFFF and r.random() < 0.3:
            out.append("\\u%04x" % n)
        else:
            out.append("\\u{%x}" % n)
    return '"%s"' % "".join(out)


def printed(r, env, decls, extra):
    """A model in a solver's layout."""
    ds = list(decls)
    r.shuffle(ds)
    more = [e for e in EXTRA if r.random() < 0.4] if extra else []
    nl = r.choice(["\n    ", " "])
    val = lambda v: literal(r, v) if type(v) is str else strs.show(v)
    lines = ["  (define-fun %s () %s%s%s)" % (strs.show(n), s, nl, val(env[n])) for n, s in ds]
    for e in more:
        lines.insert(r.randint(0, len(lines)), e)
    return "%s\n%s\n)\n" % (r.choice(["(", "(model"]), "\n".join(lines))


def solution(r, sc, tt, mp, d):
    """(printed model, its environment) for the transformed script, confirmed by the evaluator."""
    trans = strs.read(tt)
    decls = consts(trans)
    extra = len(decls) < len(strx.consts(trans))
    env = getattr(sc, "env", None)
    if env is not None and r.random() < 0.6:
        f, al = dict(mp["char_map"]), dict(mp["alpha_renaming_map"])
        used, fresh = set(f.values()), iter(FRESH)
        for v in env.values():
            for ch in v if type(v) is str else ():
                if ch not in f:
                    f[ch] = ch if ch not in used else next(x for x in fresh if x not in used)
                    used.add(f[ch])
        env2 = {al[n]: "".join(f[ch] for ch in v) if type(v) is str else v for n, v in env.items()}
        if strx.holds(trans, env2) is None:
            # lengthen strings with characters that no literal has, as long as that still is a solution
            for n, v in sorted(env2.items()):
                if type(v) is str and r.random() < 0.5:
                    w = r.choice([ch for ch in FRESH if ch not in f.values() and ch not in f])
                    e = dict(env2)
                    e[n] = v + w if r.random() < 0.5 else w + v
                    if strx.holds(trans, e) is None:
                        env2 = e
            return printed(r, env2, decls, extra), env2
    ans, out = strx.cli_solver("z3", tt, d)
    if ans != "sat":
        return None
    env2 = strx.model_env(out, decls)
    return (out, env2) if strx.holds(trans, env2) is None else None


def reconstruct(d, stem, ext):
    return vlib.run_cli([strx.TOOL, "reconstruct", "--input-file", os.path.join(d, stem + "." + ext)], d, 20,
                        env=dict(vlib.ENV, RUST_BACKTRACE="0"), prompt=True)


def answers(d, stem, ext):
    """The other answers a solver can give."""
    res = os.path.join(d, stem + "_transformed.out")
    chk = os.path.join(d, stem + "_recon_check." + ext)
    for got, want in (("unsat\n", "UNSAT"), ("unknown\n", "unknown"), ("timeout\n", "timeout"), ("sat\n", "SAT: no model"),
                      ("unsat\n(error \"line 9 column 10: model is not available\")\n", "UNSAT"), (None, None), ("", None),
                      ("(error \"line 1\")\n", None)):
        if os.path.exists(res):
            os.unlink(res)
        if got is not None:
            with open(res, "w") as f:
                f.write(got)
        rc, so, se = reconstruct(d, stem, ext)
        if want is not None and (rc != 0 or so.strip() != want):
            return "solver output %r: %r (exit %s), expected %r" % (got, so, rc, want)
        if want is None and (rc == 0 or "SAT" in so):
            return "solver output %r: %r (exit %s)" % (got, so, rc)
        if os.path.exists(chk):
            return "solver output %r: a query was written" % got
    return None


def monitor(sc, orig, env2, mp, check):
    al = dict(mp["alpha_renaming_map"])
    try:
        rc = strs.read(check)
    except strs.BadText as e:
        return "the written query can't be read: %s" % e, {}
    if ("check-sat",) not in rc:
        return "the written query doesn't ask anything", {}
    k = next(i for i, x in enumerate(rc) if x == ("check-sat",))
    first = orig.index(("check-sat",))
    new = rc[first:k]
    if strx.decoded(tuple(rc[:first])) != strx.decoded(tuple(orig[:first])) or rc[k:] != orig[first:]:
        return "the written query is not the original one with assertions added", {}
    env = {n: env2[al[n]] for n, s in consts(orig) if s != "String"}
    for x in new:
        if not (x[0] == "assert" and type(x[1]) is tuple and len(x[1]) == 3 and x[1][0] == "=" and type(x[1][1]) is str
                and type(x[1][2]) is strs.S) or x[1][1] in env:
            return "not an equation for one variable: %s" % strs.show(x), {}
        env[x[1][1]] = strs.chars(x[1][2])
    aff = set(mp["affected_constraint_vars"])  # names of the transformed script
    for n, s in consts(orig):
        if s == "String" and n not in env:
            if al[n] in aff:
                return "no value for affected variable %s" % n, {}
            env[n] = env2[al[n]]  # not affected: any value of the solution
    bad = strx.holds(orig, env)
    return (None if bad is None else "%s is false under the reconstructed %r" % (strs.show(bad), env)), env


def run(i):
    r = vlib.rng("C11", i)
    fam = r.choice(strx.SUPPORTED)
    g = strs.Gen(r, fam)
    if r.random() < 0.25:
        g.beside(strx.SUPPORTED)
    if r.random() < 0.7:
        sc = g.pinned()
        if r.random() < 0.8:
            pins = [id(p) for p in sc.pins]
            sc.asserts = [a for a in sc.asserts if id(a) not in pins]
    else:
        sc = g.script()
    if r.random() < 0.4:  # names that the transformed script uses as well
        new = list(strx.NAMES)
        r.shuffle(new)
        m = dict(zip([n for n, _ in sc.decls], new))
        sc.asserts = [strx.rename(a, m) for a in sc.asserts]
        sc.decls = [(m[n], s) for n, s in sc.decls]
        if hasattr(sc, "env"):
            sc.env = {m[n]: v for n, v in sc.env.items()}
    t = sc.text(r.random() < 0.5)
    if r.random() < 0.25:
        t = t.replace("(declare-", "(declare-sort %s 0)\n(declare-const el %s)\n(declare-" % (SORT, SORT), 1)
    stem, ext = r.choice(["a", "q-1", "x_y"]), r.choice(["smt2", "smtlib"])
    with vlib.Scratch() as d:
        kind, tt, mp = strx.convert(t, "char-to-char", d, stem, ext)
        if kind != "ok":
            return fam, t, kind, None, None, None, None
        if i % 20 == 0:
            err = answers(d, stem, ext)
            if err:
                return fam, t, "answers", err, tt, None, None
        try:
            s = solution(r, sc, tt, mp, d)
            if s is None:
                return fam, t, "no solution", None, tt, None, None
            with open(os.path.join(d, stem + "_transformed.out"), "w") as f:
                f.write("sat\n" + s[0])
            vlib.stale(os.path.join(d, stem + "_recon_check." + ext), t)
            rc, so, se = reconstruct(d, stem, ext)
            if rc is None:
                return fam, t, "timeout", None, tt, s[0], None
            if rc != 0 or so.strip() != "SAT: model reconstructed":
                return fam, t, "ok", "exit %s: %s %s" % (rc, so[:200], se[:300]), tt, s[0], None
            try:
                with open(os.path.join(d, stem + "_recon_check." + ext)) as f:
                    check = f.read()
            except (OSError, ValueError) as e:
                return fam, t, "ok", "no readable query: %s" % e, tt, s[0], None
            err, env = monitor(sc, strs.read(t), s[1], mp, check)
            return fam, t, "ok", err, tt, s[0], env
        except (strs.Cannot, strs.BadText, RecursionError) as e:
            return fam, t, "cannot: " + type(e).__name__, None, tt, None, None


for fam, t, kind, err, tt, model, env in vlib.fanout(run, range(vlib.scale(4000, 60000)), budget=vlib.scale(60, 700)):
    if kind not in ("ok", "answers"):
        c.unsure(kind)
        continue
    if kind == "ok":
        c.seen((t, model), bool(env) and any(type(v) is str and v for v in env.values()),
               {"script": t, "transformed": tt, "model": model, "reconstructed": env})
        c.count("family:" + fam)
        c.count("special_characters", sum(any(ch < " " or ch > "~" or ch in '"\\' for ch in v) for v in (env or {}).values() if type(v) is str))
    if err:
        c.violation("reconstruction", err, {"script": t, "transformed": tt, "model": model, "error": err})
sys.exit(c.finish())
