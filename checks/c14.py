"""C14: sub-formula lists exactly the function applications of a script, variables named by appearance."""
import json, os, sys
from collections import Counter
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import strs, strx, vlib
from strs import S

c = vlib.Check(
    "C14",
    "random scripts of 15 families with definitions, binders, functions, scopes and awkward names (also v0, v1, "
    "...), arithmetic, arrays and bit-vectors; monitor: the written list is, as a multiset, the list of all "
    "function applications of all assertions, definitions and get-value terms by our own reader, each with its variables "
    "renamed to v0, v1, ... in order of appearance; applications that contain a binder are only counted; "
    "non-trivial: lists with at least one renamed variable; distinct by script", min_nontrivial=200)
strx.setup()
NULLARY = ("true", "false", "re.all", "re.allchar", "re.none", "re.nostr")


def has_binder(t):
    return type(t) is tuple and bool(t) and (t[0] in ("let", "forall", "exists") or any(has_binder(x) for x in t))


def normal(t, m):
    """t with its variables renamed in order of appearance."""
    if type(t) is S:
        return ("lit", str.__str__(t))
    if type(t) is str:
        return t if t in NULLARY or t[0] == "#" or t[0].isdigit() else m.setdefault(t, "v%d" % len(m))
    if type(t) is tuple:
        return (t[0],) + tuple(normal(x, m) for x in t[1:])
    return t


def bare(t):
    """Output as read, with literals marked as in normal()."""
    return ("lit", str.__str__(t)) if type(t) is S else (t[:1] + tuple(bare(x) for x in t[1:])) if type(t) is tuple else t


def subs(t, out):
    """All function applications of the term, the binders' parts included."""
    if type(t) is str and type(t) is not S:
        if t in NULLARY:
            out.append(t)
        return
    if type(t) is not tuple or not t:
        return
    if t[0] == "!":
        return subs(t[1], out)
    if t[0] == "let":
        for _, u in t[1]:
            subs(u, out)
        return subs(t[2], out)
    if t[0] in ("forall", "exists"):
        return subs(t[2], out)
    for x in t[1:]:
        subs(x, out)
    out.append(t)


def expected(cmds):
    out = []
    for x in cmds:
        if x[0] == "assert" or x[0] == "define-fun":
            subs(x[-1], out)
        elif x[0] == "get-value":
            for u in x[1]:
                subs(u, out)
    return out


def listing(t, d, stem):
    p = os.path.join(d, "in", stem + ".smt2")
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w") as f:
        f.write(t)
    vlib.stale(os.path.join(d, stem + "_recon.json"), t)
    rc, so, se = vlib.run_cli([strx.TOOL, "sub-formula", "--input-file", p], d, 30, env=dict(vlib.ENV, RUST_BACKTRACE="0"), prompt=True)
    if rc is None:
        return None, "timeout"
    if rc != 0:
        return None, "exit %s: %s" % (rc, se[-300:])
    try:
        with open(os.path.join(d, stem + "_recon.json")) as f:
            return json.load(f)["sub_formula_list"], None
    except (OSError, ValueError, KeyError) as e:
        return None, "exit 0 without readable output: %s" % e


EXTRA = [
    ((("declare-const", "bv", ("_", "BitVec", 8)),), ("=", (("_", "extract", 3, 0), "bv"), "#xf")),
    ((("declare-const", "arr", ("Array", "Int", "Int")), ("declare-const", "ix", "Int")),
     ("=", ("select", ("store", "arr", "ix", 1), ("+", "ix", "ix")), "ix")),
    ((("declare-const", "xx", "Int"), ("declare-const", "yy", "Int")), ("distinct", ("-", "xx", "yy"), ("ite", ("<", "yy", "xx"), "xx", 7))),
    ((("declare-const", "rx", "Real"),), (">", ("/", "rx", "rx"), "1.5")),
    ((("declare-const", "pp", "Bool"), ("declare-const", "qq", "Bool")), ("!", ("=>", "qq", "true", ("and", "pp", "false")), ":named", "nn")),
    ((("declare-const", "ss", "String"),), ("=", (("_", "re.loop", 1, 2), ("str.to_re", "ss")), ("re.++", "re.all", "re.none"))),
    ((("declare-const", "lp", "Bool"),), ("and", "lp", ("let", (("z", ("not", "lp")),), ("or", "z", "lp", ("=", "z", "z"))))),
    ((("declare-const", "ep", "Bool"),), ("xor", ("exists", (("z", "Int"),), ("or", "ep", (">", "z", 3))), "ep")),
    ((), "true"),
    ((("declare-const", "bb", "Bool"),), "bb"),
]


def run(i):
    r = vlib.rng("C14", i)
    fam = r.choice(list(strs.FAMILIES))
    cmds, sc, m = strx.decorated(r, fam)
    for decls, a in r.sample(EXTRA, r.choice([0, 0, 1, 3])):
        if type(a) is tuple and a[0] == "=" and type(a[1]) is tuple and a[1][0] == ("_", "re.loop", 1, 2):
            a = ("str.in_re", "ss", ("re.union", a[1], a[2]))
        k = r.randint(0, len(cmds))
        first = max([j for j, x in enumerate(cmds) if x[0].startswith("set-")] + [-1]) + 1
        k = max(k, first)
        cmds = cmds[:k] + list(decls) + [("assert", a)] + cmds[k:]
    if r.random() < 0.3:
        cmds.append(("get-value", (r.choice([("str.len", "aa"), ("str.++", "aa", S("b"), "aa")]),)))
        cmds.insert(next(j for j, x in enumerate(cmds) if not x[0].startswith("set-")), ("declare-const", "aa", "String"))
    t = strx.text(cmds)
    with vlib.Scratch() as d:
        got, err = listing(t, d, "a")
        if err == "timeout":
            return t, 0, 0, 0, None, err
        if err:
            return t, 0, 0, 0, err, None
        want = expected(cmds)
        bare_got, plain, bound = [], 0, 0
        for g in got:
            x = strs.read(g)
            if len(x) != 1:
                return t, 0, 0, 0, "not a term: %r" % g, None
            bare_got.append(x[0])
        exp = Counter(normal(x, {}) for x in want if not has_binder(x))
        have = Counter(bare(x) for x in bare_got if not has_binder(x))
        nb = sum(has_binder(x) for x in want)
        if exp != have:
            err = "missing %r, unexpected %r" % ([strs.show(x) for x in (exp - have)][:3], [strs.show(x) for x in (have - exp)][:3])
        elif nb != sum(has_binder(x) for x in bare_got):
            err = "%d subformulas with binders, expected %d" % (sum(has_binder(x) for x in bare_got), nb)
        renamed = sum("v0" in str(x) for x in exp)
        return t, sum(exp.values()), nb, renamed, err, None


for t, plain, bound, renamed, err, un in vlib.fanout(run, range(vlib.scale(8000, 80000)), budget=vlib.scale(50, 600)):
    if un:
        c.unsure(un)
        continue
    c.seen(t, renamed > 0, {"script": t, "subformulas": plain})
    c.count("subformulas", plain)
    c.count("with_binders", bound)
    if err:
        c.violation("subformulas", err, {"script": t, "error": err})
sys.exit(c.finish())
