"""C07: a transformed script is the original up to renaming and replacement of string literals."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import strs, strx, vlib

c = vlib.Check(
    "C07",
    "random scripts of 15 families over the supported string functions with settings, sorts, functions, "
    "definitions, lets, quantifiers, scopes, queries and awkward (clashing) names, converted in both modes by the "
    "program; monitor: the transformed text, parsed by our own reader, is the original command by command and "
    "term by term, except for one injective capture-free renaming of the declared, defined and bound symbols (the "
    "one in the mapping file) and replaced string literals; non-trivial: transformed scripts with at least one "
    "renamed symbol compared to the end; distinct by script and mode", min_nontrivial=200)
strx.setup()


def run(i):
    r = vlib.rng("C07", i)
    fam = r.choice(strx.SUPPORTED)
    cmds, sc, m = strx.decorated(r, fam)
    t = strx.text(cmds)
    res = []
    with vlib.Scratch() as d:
        for mode in strx.MODES:
            ext = r.choice(["smt2", "smt2", "smt", "smtlib"])
            kind, tt, mp = strx.convert(t, mode, d, stem=r.choice(["a", "q.x", "x_y"]), ext=ext)
            err, iso = None, strx.Iso()
            if kind == "ok":
                try:
                    iso.scripts(strs.read(t), strs.read(tt))
                    al = dict(mp["alpha_renaming_map"])
                    if al != iso.names:
                        err = "the mapping file says %r, the script %r" % (al, iso.names)
                except (strx.Differs, strs.BadText) as e:
                    err = str(e)
            res.append((mode, kind, tt, err, len(iso.names), len(iso.lits)))
    return i, fam, t, res


for i, fam, t, res in vlib.fanout(run, range(vlib.scale(8000, 80000)), budget=vlib.scale(50, 600)):
    for mode, kind, tt, err, names, lits in res:
        if kind != "ok":
            c.unsure(kind)
            continue
        c.seen((t, mode), names > 0, {"script": t, "mode": mode, "transformed": tt})
        c.count("symbols_renamed", names)
        c.count("literals_aligned", lits)
        c.count("family:" + fam)
        if err:
            c.violation("not the same script", err, {"script": t, "mode": mode, "transformed": tt, "error": err})
sys.exit(c.finish())
