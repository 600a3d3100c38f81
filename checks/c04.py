"""C04: the solution-size bound the encoder reports and uses is the documented one."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import math
import arith, eager, vlib
from arith import Problem, num

c = vlib.Check(
    "C04",
    "random scripts already in the documented normal form (sum OP constant; several independent variable "
    "groups; separation constraints, equality logic, weighted sums) below and/or/not; the parameters and "
    "bit width printed per partition are compared with an independent reading of the documentation; "
    "non-trivial: at least one partition line was compared; distinct by script", min_nontrivial=100)
eager.setup()


def gen(r):
    """[(kind, {var: coef}, const)] per group, plus the script."""
    names = arith.fresh_names(r, 12)
    groups, cons, pos = r.randint(1, 4), [], 0
    for _ in range(groups):
        n = r.randint(1, 4)
        vs, pos = names[pos:pos + n], pos + n
        if len(vs) < n:
            break
        mode = r.choice(["eq", "sep", "mixed", "mixed", "lin"])
        zero = r.random() < 0.3
        seen = set()
        for _ in range(r.randint(1, 6)):
            kind = mode if mode != "mixed" else r.choice(["sep", "lin"])
            const = 0 if (zero or mode == "eq") else r.choice([-1, 1]) * r.choice([0, 1, 2, 3, 7, 8, 15, 16, 100, 2**31, 2**64 - 1, 2**64])
            op = "=" if mode == "eq" else r.choice([">=", "=", "<=", ">", "<"])
            if kind in ("eq", "sep"):
                k = min(len(vs), r.choice([1, 2, 2]) if kind == "sep" else 2)
                if kind == "eq" and k < 2:
                    continue
                x = r.sample(vs, k)
                lhs = {x[0]: 1} if k == 1 else {x[0]: 1, x[1]: -1}
            else:
                k = r.randint(1, len(vs))
                lhs = {v: r.choice([-5, -3, -2, -1, 1, 1, 2, 3, 4]) for v in r.sample(vs, k)}
                if sorted(lhs.values()) in ([1], [-1], [-1, 1]):
                    continue
            key = (frozenset(lhs), op == "=")  # distinct whatever the representation chosen
            if key in seen:
                continue
            seen.add(key)
            cons.append((op, lhs, const))
    return names[:pos], cons


def term(lhs, r):
    t = []
    for v, k in lhs.items():
        t.append(v if k == 1 else ["-", v] if k == -1 and r.random() < 0.6 else ["*", num(k), v])
    if len(t) == 1:
        return t[0]
    if len(t) == 2 and list(lhs.values()) == [1, -1] and r.random() < 0.7:
        return ["-"] + list(lhs)
    return ["+"] + t


def build(i):
    r = vlib.rng("C04", i)
    names, cons = gen(r)
    atoms = []
    for op, lhs, const in cons:
        a = [op, term(lhs, r), num(const)]
        atoms.append(a)
    out = []
    while atoms:
        k = r.choice([1, 1, 2, 3])
        part, atoms = atoms[:k], atoms[k:]
        part = [p if r.random() < 0.8 else ["not", p] for p in part]
        out.append(part[0] if len(part) == 1 else [r.choice(["or", "and"])] + part)
    used = [n for n in names if any(n in l for _, l, _ in cons)]
    return cons, used, Problem([(n, [], "Int") for n in used], out, "bounds")


def expected(cons, names):
    parent = {n: n for n in names}

    def find(x):
        while parent[x] != x:
            x = parent[x]
        return x

    for _, lhs, _ in cons:
        vs = list(lhs)
        for v in vs[1:]:
            parent[find(v)] = find(vs[0])
    comp = {}
    for n in names:
        comp.setdefault(find(n), []).append(n)
    res = []
    for root, vs in comp.items():
        cs = [x for x in cons if find(next(iter(x[1]))) == root]
        n, m = len(vs), len(cs)
        # strict comparisons may be normalized to >= over the integers: sum < b is not (sum >= b), and
        # no constant changes; so constants are those written
        a = max([1] + [abs(k) for _, l, _ in cs for k in l.values()])
        b = max([0] + [abs(x[2]) for x in cs])
        sep = [sorted(l.values()) in ([1], [-1], [-1, 1]) for _, l, _ in cs]
        k = sep.count(False)
        w = max([1] + [len(l) for _, l, _ in cs])
        if k == 0:
            bound = min(n, m) * (b + 1)
            if b == 0 and all(x[0] == "=" for x in cs):
                bound = max(bound, n)  # equality logic: as many values as variables
        else:
            bound = ((a * w) ** k) * (n + 2) * min(n + 1, m) * (b + 1)
        # ceil(log2(bound + 1) + 1), exactly
        bits = (bound + 1).bit_length() + (0 if (bound + 1) & bound == 0 else 1)
        res.append({"vars": frozenset(vs), "n": n, "m": m, "a": a, "b": b, "k": k, "w": w, "bits": bits})
    return res


def run(i):
    cons, names, p = build(i)
    r = eager.robust_solve(p, mode="encode") if cons else {"r": "empty", "log": []}
    return i, cons, names, p.text(), r["r"], r.get("msg"), r.get("log", [])


for i, cons, names, text, r, msg, log in vlib.fanout(run, range(vlib.scale(4000, 40000)), budget=vlib.scale(60, 500)):
    rp = {"script": text, "log": log, "index": i}
    parts = eager.partitions(log)
    c.count("encode:" + r)
    if r == "empty":
        continue
    if r in ("crash", "timeout"):
        c.unsure(r)
        c.seen(text, False)
        continue
    if r != "ok":
        c.violation("no-encoding", "%s %s\n%s" % (r, msg, text), rp)
        continue
    if not parts:
        c.violation("no-report", "no partition line printed for\n" + text, rp)
        continue
    want = expected(cons, names)
    c.seen(text, True, {"script": text, "partitions": [str(p) for p in parts]})
    if len(parts) != len(want):
        c.violation("partitions", "reported %d groups, script has %d\n%s" % (len(parts), len(want), text), rp)
        continue
    for sym, n, m, a, b, k, w, bits in parts:
        sym = sym.strip("|")
        e = [x for x in want if any(v.strip("|") == sym for v in x["vars"])]
        if len(e) != 1:
            c.violation("partitions", "partition of %s matches no group\n%s" % (sym, text), rp)
            continue
        e = e[0]
        c.count("partition_lines_compared")
        c.count("k=0" if e["k"] == 0 else "k>0")
        got = {"n": n, "m": m, "a": a, "b": b, "k": k}
        bad = {x: (got[x], e[x]) for x in got if got[x] != e[x]}
        if k > 0 and w != e["w"]:
            bad["w"] = (w, e["w"])
        if bad:
            c.violation("statistics", "group of %s: reported/documented differ: %s\n%s" % (sym, bad, text), rp)
        # one spare bit is tolerated (rounding), a missing one or more waste is not
        if not e["bits"] <= bits <= e["bits"] + 1:
            c.violation("bound", "group of %s: %d bits used, documented bound is %d\n%s" % (sym, bits, e["bits"], text), rp)
c.assumptions += ["the width printed in the partition line is the width used (C02 checks values against it)"]
sys.exit(c.finish())
