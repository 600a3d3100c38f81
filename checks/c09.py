"""C09: char-to-char maps strings character by character with one injective, range-preserving map."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import strs, strx, vlib
from strs import chars

c = vlib.Check(
    "C09",
    "random scripts (regular expressions with overlapping and nested ranges, digit conversions, all other "
    "families) converted in char-to-char mode; monitor: all literal occurrences are mapped character by character "
    "by one injective function, contained in the mapping file's character map, which is itself injective; every "
    "range keeps its width and contains exactly the images of the characters it contained; digits stay "
    "themselves if the script converts between strings and numbers and stay digits if it tests for digits; "
    "non-trivial: transformed scripts with at least two different characters or a range; distinct by script",
    min_nontrivial=200)
strx.setup()
FAMS = ["regex", "regex2", "intre", "affixre", "intre", "int", "digit", "digit"] + strx.SUPPORTED


def ranges(t, u, out):
    if type(t) is tuple and type(u) is tuple:
        if t and t[0] == "re.range":
            out.append((chars(t[1]), chars(t[2]), chars(u[1]), chars(u[2])))
        for x, y in zip(t, u):
            ranges(x, y, out)


def heads(t, out):
    if type(t) is tuple and t:
        if type(t[0]) is str:
            out.add(t[0])
        for x in t:
            heads(x, out)


def monitor(t, tt, mp):
    orig, trans = strs.read(t), strs.read(tt)
    iso = strx.Iso()
    iso.scripts(orig, trans)
    f, back = {}, {}
    jmap, jback = {}, {}
    for a, b in mp["char_map"]:
        if jmap.setdefault(a, b) != b or jback.setdefault(b, a) != a:
            return "the mapping file's character map is not injective: %r" % ((a, b, jmap[a], jback.get(b)),), f, 0
    for a, b, rng in iso.lits:
        a, b = chars(a), chars(b)
        if len(a) != len(b):
            return "%r became %r" % (a, b), f, 0
        for x, y in zip(a, b):
            if f.setdefault(x, y) != y:
                return "character %r became %r and %r" % (x, f[x], y), f, 0
            if back.setdefault(y, x) != x:
                return "characters %r and %r became %r" % (x, back[y], y), f, 0
            if jmap.get(x) != y:
                return "character %r became %r, the mapping file says %r" % (x, y, jmap.get(x)), f, 0
    rs = []
    for x, y in zip(strx.split(orig)[2], strx.split(trans)[2]):
        ranges(x, y, rs)
    for a, b, a2, b2 in rs:
        if not len(a) == len(b) == len(a2) == len(b2) == 1:
            continue
        if ord(b) - ord(a) != ord(b2) - ord(a2):
            return "range %r-%r became %r-%r" % (a, b, a2, b2), f, len(rs)
        for x, y in list(f.items()) + list(jmap.items()):
            if (a <= x <= b) != (a2 <= y <= b2):
                return "%r is %sin range %r-%r, but %r is not so in %r-%r" % (x, "" if a <= x <= b else "not ", a, b, y, a2, b2), f, len(rs)
    ops = set()
    for x in orig:
        heads(x, ops)
    exact = ops & {"str.to_int", "str.from_int"}
    for x, y in f.items():
        dx, dy = x in "0123456789", y in "0123456789"
        if exact and (dx or dy) and x != y:
            return "%r became %r in spite of %s" % (x, y, sorted(exact)), f, len(rs)
        if "str.is_digit" in ops and dx != dy:
            return "%r became %r in spite of str.is_digit" % (x, y), f, len(rs)
    return None, f, len(rs)


def run(i):
    r = vlib.rng("C09", i)
    fam = r.choice(FAMS)
    cmds, sc, m = strx.decorated(r, fam)
    t = strx.text(cmds)
    with vlib.Scratch() as d:
        kind, tt, mp = strx.convert(t, "char-to-char", d)
    err, f, nr = None, {}, 0
    if kind == "ok":
        try:
            err, f, nr = monitor(t, tt, mp)
        except strs.BadText as e:
            err = "not readable: %s" % e
        except strx.Differs as e:
            kind = "unaligned"  # C07's business
            if str(e).startswith("literal"):
                err = str(e)
    return fam, t, kind, tt, err, f, nr


for fam, t, kind, tt, err, f, nr in vlib.fanout(run, range(vlib.scale(12000, 120000)), budget=vlib.scale(50, 600)):
    if kind != "ok" and not err:
        c.unsure(kind)
        continue
    c.seen(t, len(f) > 1 or nr, {"script": t, "map": sorted(f.items())})
    c.count("characters", len(f))
    c.count("ranges", nr)
    c.count("family:" + fam)
    if err:
        c.violation("character map", err, {"script": t, "transformed": tt, "error": err})
sys.exit(c.finish())
