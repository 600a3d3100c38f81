"""C13: with the persistent global map every query is still transformed correctly, whatever came before."""
import json, os, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import strs, strx, vlib
from strs import chars

c = vlib.Check(
    "C13",
    "random sequences of up to 6 conversions that share one global map (related literals, changing families and "
    "modes, repeated queries, scripts that are bailed out of, the map file cut off at a random point as by a crash "
    "between two conversions), a quarter of them ended by 2 to 5 overlapping conversions and one behind them; monitor, for every step: the verdict of the transformed pinned script, by our "
    "evaluator, is that of the original; literals are mapped injectively and as the mapping says; a query over "
    "equalities only that is converted again right away gets the very same text; non-trivial: "
    "conversions with a map that an earlier conversion left; distinct by history", min_nontrivial=200)
strx.setup()


def literals(t, tt):
    iso = strx.Iso()
    iso.scripts(strs.read(t), strs.read(tt))
    f, back = {}, {}
    for a, b, rng in iso.lits:
        a, b = chars(a), chars(b)
        if f.setdefault(a, b) != b:
            return "%r became %r and %r" % (a, f[a], b)
        if back.setdefault(b, a) != a:
            return "%r and %r both became %r" % (a, back[b], b)
    return None


def judge(kind, t, tt):
    if kind in ("panic", "timeout"):
        return kind, "%s: %s" % (kind, tt)
    if kind == "ok":
        try:
            a, why, _ = strx.pinned_verdict(strs.read(t))
            b, why2, _ = strx.pinned_verdict(strs.read(tt))
            if a is not None and a != b:
                return kind, "%s became %s: %s" % (a, b, strs.show(why2 or why or ""))
            return kind, literals(t, tt)
        except (strs.BadText, strx.Differs) as e:
            return kind, "not the same script: %s" % e
        except strs.Cannot as e:
            return "cannot: " + type(e).__name__, None
    return kind, None


def script(r, base, pool, alpha):
    fam = base if r.random() < 0.5 else r.choice(strx.SUPPORTED)
    g = strs.Gen(r, fam, alphabet=alpha)
    if pool:
        g.pool = [r.choice(pool) if r.random() < 0.7 else w for w in g.pool]
    pool += g.pool
    if r.random() < 0.25:
        g.beside(strx.SUPPORTED)
    return g.pinned(r.random() < 0.35).text()


def run(i):
    r = vlib.rng("C13", i)
    alpha = r.choice(strs.PLAIN if r.random() < 0.85 else strs.HOSTILE)
    base = r.choice(strx.SUPPORTED + ["eq"] * 4)
    pool, hist, out, seen, plain = [], [], [], {}, True
    with vlib.Scratch() as d:
        gm = os.path.join(d, "global_mapping.json")
        for step in range(r.randint(2, 6)):
            mode = "no-reconstruct" if r.random() < 0.85 else "char-to-char"
            if hist and r.random() < 0.3:
                t = r.choice(hist)[1]
                if r.random() < 0.6:
                    mode, t, _ = hist[-1]
            else:
                t = script(r, base, pool, alpha)
            cut = None
            if os.path.exists(gm) and r.random() < 0.1:
                b = open(gm, "rb").read()
                cut = r.randrange(len(b))
                with open(gm, "wb") as f:
                    f.write(b[:cut])
                seen = {}
            had = os.path.exists(gm)
            kind, tt, mp = strx.convert(t, mode, d, glob=True)
            hist.append((mode, t, cut))
            again = 0
            if kind == "timeout":
                kind, tt, mp = strx.convert(t, mode, d, glob=True, timeout=120)
            ok = kind == "ok"
            kind, err = judge(kind, t, tt)
            functions = any(type(h) is str and h.startswith(("str.", "re.")) for x in strs.read(t) for h in strs.walk(x))
            plain = plain and not functions
            if ok and kind == "ok" and not err and not functions:
                if seen.get((mode, t), tt) != tt:
                    err = "the same query was transformed differently before:\n" + seen[mode, t]
                again += (mode, t) in seen
                # replacements that don't fit those of their substrings are dropped from the map
                kept = {s: x.get("mapped_to") for s, x in mp.get("persistent_string_map", [])}
                seen = {(mode, t): tt} if plain or all(kept.get(s) == x for s, x in mp["string_map"] if s) else {}
            else:
                seen = {}
            out.append((list(hist), had and cut is None, cut, kind, tt, err, again))
            if err:
                return out
        if r.random() < 0.25:  # conversions that overlap, and one that finds what they left behind
            ts = [(r.choice(strx.MODES), script(r, base, pool, alpha)) for _ in range(r.randint(2, 5))]
            jobs = [lambda m=m, t=t, j=j: strx.convert(t, m, d, stem="p%d" % j, glob=True, timeout=60, mapping=False) for j, (m, t) in enumerate(ts)]
            with ThreadPoolExecutor(len(jobs)) as ex:
                res = [x.result() for x in [ex.submit(f) for f in jobs]]
            m, t = r.choice(strx.MODES), r.choice([t for _, t in ts] + [script(r, base, pool, alpha)])
            for (m, t), (kind, tt, mp) in zip(ts + [(m, t)], res + [strx.convert(t, m, d, stem="p", glob=True, timeout=60)]):
                kind, err = ("overlapping timeout", None) if kind == "timeout" else judge(kind, t, tt)
                hist.append((m, t, "overlapping"))
                out.append((list(hist), True, None, kind, tt, err, 0))
    return out


for out in vlib.fanout(run, range(vlib.scale(4000, 40000)), budget=vlib.scale(60, 700)):
    for hist, had, cut, kind, tt, err, again in out:
        if err:
            c.violation("global map", err, {"history": hist, "transformed": tt, "error": err})
        if kind not in ("ok", "panic", "timeout"):
            c.unsure(kind)
            continue
        c.seen(hist, had, {"history": hist, "transformed": tt})
        c.count("steps")
        c.count("overlapping", hist[-1][2] == "overlapping")
        c.count("immediate_repeats", again)
        c.count("after_a_cut_off_map", cut is not None)
sys.exit(c.finish())
