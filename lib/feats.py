"""Our own count of the string operators in assertions: the offline features."""
from collections import Counter
import strs, strx, upd
from strs import S

# column -> operator (or operators), in the order of the full header
COLS = [("str_concat", "str.++"), ("len", "str.len"), ("lex_ord", "str.<"), ("to_re", "str.to_re"), ("in_re", "str.in_re"),
        ("re_none", "re.none"), ("re_all", "re.all"), ("re_all_char", "re.allchar"), ("re_concat", "re.++"), ("re_union", "re.union"),
        ("re_intersect", "re.inter"), ("re_kleene_star", "re.*"), ("ref_clos_lex_ord", "str.<="), ("sing_str_at", "str.at"),
        ("substr", "str.substr"), ("prefix_of", "str.prefixof"), ("suffix_of", "str.suffixof"), ("contains", "str.contains"),
        ("index_of", "str.indexof"), ("replace", "str.replace"), ("replace_all", "str.replace_all"), ("replace_re", "str.replace_re"),
        ("replace_re_all", "str.replace_re_all"), ("re_compl", "re.comp"), ("re_diff", "re.diff"), ("re_kleene_cross", "re.+"),
        ("re_opt", "re.opt"), ("re_range", "re.range"), ("re_pow", "re.^"), ("re_loop", "re.loop"), ("is_digit", "str.is_digit"),
        ("to_code", "str.to_code"), ("from_code", "str.from_code"), ("to_int", "str.to_int"), ("from_int", "str.from_int")]
OF = dict(COLS)
SETS = {"other": [n for n, _ in COLS], "kepler": ["str_concat", "len"],
        "smtcomp": "str_concat,len,to_re,in_re,re_concat,re_union,re_kleene_star,sing_str_at,substr,prefix_of,contains,index_of,replace,"
                   "re_kleene_cross,re_range,to_int,from_int".split(",")}
SETS["script"] = SETS["smtcomp"]
NULLARY = {"re.none", "re.all", "re.allchar"}


def count(t, out):
    if type(t) is S:
        return
    if type(t) is str:
        if t in NULLARY:
            out[t] += 1
        return
    if type(t) is not tuple or not t:
        return
    if t[0] == "let":
        for _, v in t[1]:
            count(v, out)
        return count(t[2], out)
    if t[0] in ("forall", "exists"):
        return count(t[2], out)
    if t[0] == "!":
        return count(t[1], out)
    h = t[0][1] if type(t[0]) is tuple else t[0]
    indexed = type(t[0]) is tuple
    if indexed == (h in ("re.loop", "re.^")):
        out[h] += 1
    for x in t[1:]:
        count(x, out)


def counts(cmds):
    out = Counter()
    for x in cmds:
        if x[0] == "assert":
            count(x[1], out)
    return out


NEW = [(op, n) for op, n in upd.OPS if op not in upd.HEADS]


def benchmark(r):
    k = r.random()
    if k < 0.35:
        cmds, _, _ = strx.decorated(r, r.choice(list(strs.FAMILIES)))
        return cmds
    g = upd.Wild(r, r.random() < 0.3)
    head, body = g.script(r.choice([0, 3, 12]))
    if r.random() < 0.5:
        body = [upd.update_command(x) for x in body]
    if r.random() < 0.4:  # the same term many times, and in chains
        t = upd.update(g.term(3))
        u = t
        for _ in range(r.randint(1, 6)):
            u = r.choice([("=", u, u), ("str.++", u, t), ("and", t, u, t), ("ite", t, u, t)])
        body.append(("assert", u))
    if r.random() < 0.3:
        body += [("assert", (op,) + tuple(r.choice(["x", "re.all", S("re.all")]) for _ in range(n if type(n) is int else n[0]))) for op, n in NEW]
    return head + body
