"""C08: literals are replaced consistently and injectively, as the mapping file says."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import strs, strx, vlib
from strs import chars

c = vlib.Check(
    "C08",
    "random scripts of 15 families (related, overlapping, hostile literals: quotes, backslashes, escapes, control "
    "and non-ASCII characters, digits), converted in both modes; monitor: over all literal occurrences aligned "
    "with the original ones, equal strings get equal strings, different ones different ones, \"\" stays, and the "
    "mapping file says the same; non-trivial: transformed scripts with at least two different literals; distinct "
    "by script and mode", min_nontrivial=200)
strx.setup()


def run(i):
    r = vlib.rng("C08", i)
    fam = r.choice(strx.SUPPORTED)
    cmds, sc, m = strx.decorated(r, fam)
    t = strx.text(cmds)
    res = []
    with vlib.Scratch() as d:
        for mode in strx.MODES:
            kind, tt, mp = strx.convert(t, mode, d)
            err, f = None, {}
            if kind == "ok":
                iso = strx.Iso()
                try:
                    iso.scripts(strs.read(t), strs.read(tt))
                except strs.BadText as e:
                    err = "not readable: %s" % e
                except strx.Differs as e:
                    kind = "unaligned"  # C07's business
                    if str(e).startswith("literal"):
                        err = str(e)
                back, sm = {}, {}
                for a, b in mp["string_map"]:
                    if sm.setdefault(a, b) != b:
                        err = "the mapping file maps %r to %r and %r" % (a, sm[a], b)
                for a, b, rng in iso.lits:
                    a, b = chars(a), chars(b)
                    if f.setdefault(a, b) != b:
                        err = "%r became %r and %r" % (a, f[a], b)
                    elif back.setdefault(b, a) != a:
                        err = "%r and %r both became %r" % (a, back[b], b)
                    elif a == "" and b != "":
                        err = "the empty string became %r" % b
                    elif a and sm.get(a) != b:
                        err = "%r became %r, the mapping file says %r" % (a, b, sm.get(a))
            res.append((mode, kind, tt, err, f))
    return i, fam, t, res


for i, fam, t, res in vlib.fanout(run, range(vlib.scale(8000, 80000)), budget=vlib.scale(50, 600)):
    for mode, kind, tt, err, f in res:
        if kind != "ok" and not err:
            c.unsure(kind)
            continue
        c.seen((t, mode), len(f) > 1, {"script": t, "mode": mode, "map": sorted(f.items())})
        c.count("literals", len(f))
        c.count("escaped_or_special", sum(any(ch < " " or ch > "~" or ch in '"\\' for ch in x) for x in f))
        c.count("family:" + fam)
        if err:
            c.violation("literal map", err, {"script": t, "mode": mode, "transformed": tt, "error": err})
sys.exit(c.finish())
