"""C06: scripts outside the supported fragment, malformed or unreadable ones never get a wrong verdict."""
import os, re, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import arith, eager, vlib
from arith import num
from sexp import show

c = vlib.Check(
    "C06",
    "supported random scripts mutated with one construct outside (or at the edge of) the supported fragment "
    "- other theories, definitions, quantifiers, nonlinear terms, retraction, assumptions, annotations, "
    "shadowing lets - run through the library built without debug assertions; a verdict, if given, must be "
    "the last verdict of the z3 program on the same text; syntactically truncated/corrupted scripts and "
    "readers failing part-way must give no verdict; non-trivial: a judged verdict or a rejection of a "
    "mutated script; distinct by script", min_nontrivial=100)
eager.setup(release=True)
Z3 = "/usr/bin/z3" if os.path.exists("/usr/bin/z3") else "z3"


def extra(r, p):
    """(kind, declarations, assertions as text)"""
    ints = [n for n, a, s in p.decls if s == "Int" and not a] or None
    x = r.choice(ints) if ints else "zz0"
    y = r.choice(ints) if ints else "zz0"
    pre = "" if ints else "(declare-const zz0 Int)"
    k = r.randint(1, 4)
    table = {
        "real": ("(declare-const rr Real)", ["(> rr 0)", "(< rr 1)"]),
        "real-frac": ("(declare-const rr Real)", ["(= (+ rr rr) 1)"]),
        "real-decimal": ("(declare-const rr Real)", ["(= rr 0.5)"]),
        "define-const": ("(define-fun dd () Int %d)" % k, ["(= %s dd)" % x, "(= %s %d)" % (x, k + 1)]),
        "define-fun": ("(define-fun dd ((a Int)) Int (+ a %d))" % k, ["(= (dd 1) %d)" % r.randint(2, 5)]),
        "define-bool": ("(define-fun dd () Bool false)", ["dd"]),
        "define-rec": ("(define-fun-rec dd ((a Int)) Int (+ a 1))", ["(= (dd 1) 3)"]),
        "exists": ("", ["(exists ((q Int)) (and (< q %s) (> q %s)))" % (x, x)]),
        "forall": ("", ["(forall ((q Int)) (> q %s))" % x]),
        "forall-bool": ("", ["(forall ((q Bool)) q)"]),
        "exists-bool": ("", ["(exists ((q Bool)) (and q (not q)))"]),
        "square": ("", ["(= (* %s %s) 2)" % (x, x)]),
        "product": ("", ["(= (* %s %s) 6)" % (x, y), "(> %s 6)" % x]),
        "scaled-sum": ("", ["(= (* 2 (+ %s %s)) %d)" % (x, y, 2 * k + 1)]),
        "scaled-const": ("", ["(= (* 2 3) %d)" % r.choice([5, 6])]),
        "ternary-product": ("", ["(= (* %s %s %s) %d)" % (num(r.choice([-2, 2])), num(r.choice([-3, 3])), x, 6 * k + r.choice([0, 0, 1])),
                                 "(%s %s 0)" % (r.choice("<>"), x)]),
        "scaled-neg": ("", ["(= (* 2 (- %s)) %d)" % (x, r.choice([3, 4]))]),
        "div": ("", ["(= (div %s 2) %d)" % (x, k), "(= %s %d)" % (x, 2 * k + r.choice([0, 1, 2]))]),
        "mod": ("", ["(= (mod %s 2) 1)" % x, "(= %s %d)" % (x, k)]),
        "abs": ("", ["(< (abs %s) 0)" % x]),
        "divisible": ("", ["((_ divisible 2) %s)" % x, "(= %s %d)" % (x, k)]),
        "string": ("(declare-const ss String)", ['(= ss "a")', "(= (str.len ss) %d)" % r.choice([1, 2])]),
        "string-eq": ("(declare-const ss String)(declare-const st String)", ["(= ss st)", "(not (= st ss))"]),
        "array": ("(declare-const ar (Array Int Int))", ["(not (= (select ar 0) (select ar 0)))"]),
        "sort": ("(declare-sort U 0)(declare-const u1 U)(declare-const u2 U)(declare-const u3 U)",
                 ["(= u1 u2)", r.choice(["(not (= u2 u1))", "(= u1 u3)"])]),
        "sort-fun": ("(declare-sort U 0)(declare-const u1 U)(declare-const u2 U)(declare-fun h (U) Int)",
                     ["(= u1 u2)", "(distinct (h u1) (h u2))"]),
        "bv-eq": ("(declare-const b1 (_ BitVec 4))(declare-const b2 (_ BitVec 4))",
                  ["(= b1 b2)", "(= b1 #b0001)", "(= b2 #b001%d)" % r.randint(0, 1)]),
        "bv-distinct": ("(declare-const b1 (_ BitVec 1))(declare-const b2 (_ BitVec 1))(declare-const b3 (_ BitVec 1))",
                        ["(distinct b1 b2 b3)"]),
        "bv-ult": ("(declare-const b1 (_ BitVec 3))", ["(bvult b1 #b000)"]),
        "bv-uge": ("(declare-const b1 (_ BitVec 3))", ["(bvuge #b000 b1)", "(bvugt b1 #b000)"]),
        "bv-sle": ("(declare-const b1 (_ BitVec 3))", ["(bvsle b1 #b011)", "(bvsle #b100 b1)"]),
        "bv-add": ("(declare-const b1 (_ BitVec 3))", ["(bvule (bvadd b1 #b001) #b000)", "(bvule b1 #b110)"]),
        "bv-hex": ("(declare-const b1 (_ BitVec 4))", ["(bvule b1 #x3)", "(bvule #x4 b1)"]),
        "bv-consts": ("", ["(bvule #b10 #b01)"]),
        "bv-ite": ("(declare-const b1 (_ BitVec 2))", ["(bvule (ite (bvule b1 #b01) #b10 #b11) #b01)"]),
        "named": ("", ["(! (>= %s %d) :named nm)" % (x, k), r.choice(["(not nm)", "(< %s %d)" % (x, k), "nm"])]),
        "let-shadow": ("", ["(let ((%s (+ %s 1))) (and (= %s 3) (let ((%s 7)) (= %s 7))))" % ((x,) * 5)]),
        "let-parallel": ("(declare-const w1 Int)(declare-const w2 Int)",
                         ["(let ((w1 w2) (w2 w1)) (and (= w1 1) (= w2 2)))", "(= w1 %d)" % r.choice([1, 2])]),
        "let-bool": ("", ["(let ((l1 (>= %s %d)) (l2 (< %s %d))) (%s l1 l2))" % (x, k, x, k, r.choice(["and", "or", "xor", "="]))]),
        "alias": ("(define-sort I () Int)(declare-const al I)", ["(< al %s)" % x, "(< %s al)" % x]),
        "fun-bool-arg": ("(declare-fun g (Bool) Int)", ["(= (g true) 1)", "(= (g (>= %s %s)) 2)" % (x, x)]),
        "fun-bool-ret": ("(declare-fun g (Int) Bool)", ["(g %s)" % x, "(not (g (+ %s 0)))" % x]),
        "nested-fun": ("(declare-fun g (Int) Int)", ["(= %s (g %s))" % (x, x), "(distinct (g (g (g %s))) %s)" % (x, x)]),
        "fun-ite": ("(declare-fun g (Int) Int)", ["(= (g (ite (>= %s 0) %s (- %s))) 1)" % (x, x, x), "(= (g %s) 2)" % x]),
        "xor3": ("(declare-const p1 Bool)(declare-const p2 Bool)(declare-const p3 Bool)",
                 ["(not (xor p1 p2 p3))", "p1", "(not (and p2 p3))", "(not (or p2 p3))"]),
        "chain": ("", ["(< %s %d %s)" % (x, k, x)]),
        "chain-eq": ("(declare-const w1 Int)(declare-const w2 Int)", ["(= w1 w2 %s)" % x, "(distinct w1 %s)" % x]),
        "implies3": ("(declare-const p1 Bool)(declare-const p2 Bool)",
                     ["(=> p1 p2 false)", "p1", r.choice(["p2", "(not p2)"])]),
    }
    kind = r.choice(sorted(table))
    d, a = table[kind]
    return kind, pre + d, a


def embedded(r):
    """A supported script in which a few integer or boolean subterms are replaced by applications of
    operators outside the fragment to terms of the script."""
    p = arith.gen(r.choice(["lia", "conj", "idl", "uf", "degenerate", "tight"]), r)
    sig = {n: (a, s) for n, a, s in p.decls}
    kinds = []
    for _ in range(r.randint(1, 2)):
        sort = "Int" if r.random() < 0.75 else "Bool"
        pos = arith.positions(p.asserts, sig, sort)
        if not pos:
            continue
        path, t = r.choice(pos)
        u = r.choice(pos)[1]
        cond = r.choice([x for _, x in arith.positions(p.asserts, sig, "Bool")] or ["true"])
        k = [num(r.choice([-3, -2, -1, 0, 1, 2, 3])) for _ in range(3)]
        new = r.choice([
            ["*", k[0], k[1], t], ["*", k[0], t, k[1]], ["*", t, k[0], k[1]], ["*", k[0], k[1], k[2]],
            ["*", k[0], ["*", k[1], t]], ["*", k[0], ["+", t, k[1]]], ["*", k[0], ["-", t, u]], ["*", t, u],
            ["*", ["+", k[0], k[1]], t], ["*", ["-", k[0]], t], ["*", k[0], ["ite", cond, t, u]], ["*", k[0], k[1]],
            ["*", t], ["div", t, num(r.choice([-3, -2, -1, 1, 2, 3]))], ["mod", t, num(r.choice([-2, 2, 3]))],
            ["abs", t], ["div", k[0], num(r.choice([1, 2, -2]))], ["to_int", ["to_real", t]],
            ["-", ["*", k[0], k[1], t]], ["str.len", ["str.from_int", t]], ["let", [["q0", t]], ["*", k[0], "q0"]],
            ["let", [["q0", t]], ["let", [["q0", ["+", "q0", k[0]]]], "q0"]],
        ]) if sort == "Int" else r.choice([
            ["exists", [["q0", "Int"]], ["and", t, ["<", "q0", "0"]]], ["forall", [["q0", "Bool"]], ["or", "q0", t]],
            ["!", t, ":named", "nm%d" % r.randrange(10 ** 6)], ["exists", [["q0", "Bool"]], ["=", "q0", t]],
            ["and"] + [t] * r.choice([1, 2]), ["=>", t, u, cond], ["xor", t, u, t], ["let", [["q0", t]], ["not", "q0"]],
            ["ite", t, ["not", u], u], ["distinct", t, u], ["distinct", t, u, cond],
        ])
        p.asserts = arith.put(p.asserts, path, new)
        kinds.append(new[0])
    return "embedded:" + "+".join(sorted(set(kinds))), p.text(header=False), None


def build(i):
    r = vlib.rng("C06", i)
    if i % 3 == 2:
        return embedded(r)
    base = arith.gen(r.choice(["lia", "conj", "idl", "eq", "bool", "degenerate"]), r)
    base.asserts = base.asserts[: r.randint(0, 2)]
    cls = r.choices(["theory", "retract", "corrupt", "fault"], [6, 3, 2, 2])[0]
    if cls == "theory":
        kind, d, a = extra(r, base)
        a = ["(assert %s)" % t for t in a] + ["(assert %s)" % show(t) for t in base.asserts]
        if r.random() < 0.3:
            r.shuffle(a)
            if kind == "named":
                a.sort(key=lambda t: ":named" not in t)
        t = base.text(header=False).split("\n")
        t = [l for l in t if l.startswith("(declare")]
        return kind, "\n".join(t + [d] + a + ["(check-sat)"]), None
    if cls == "retract":
        t = base.text(header=False).split("\n")
        d, a = [l for l in t if l.startswith("(declare")], [l for l in t if l.startswith("(assert")]
        ints = [n for n, ar, s in base.decls if s == "Int" and not ar]
        bad = "(assert (< %s %s))" % (ints[0], ints[0]) if ints and r.random() < 0.7 else "(assert false)"
        lit = "(not true)" if r.random() < 0.5 else (
            next((n for n, ar, s in base.decls if s == "Bool"), "false"))
        kind, body = r.choice([
            ("push-pop", a + ["(push 1)", bad, "(check-sat)", "(pop 1)", "(check-sat)"]),
            ("push-pop-2", ["(push 2)"] + a + [bad, "(pop 2)", "(check-sat)"]),
            ("push-only", ["(push 1)"] + a + ["(check-sat)"]),
            ("nested", a + ["(push 1)", "(push 1)", bad, "(pop 1)", "(check-sat)", "(pop 1)", "(check-sat)"]),
            ("reset", [bad, "(check-sat)", "(reset)"] + d + a + ["(check-sat)"]),
            ("reset-assertions", [bad, "(check-sat)", "(reset-assertions)"] + d + a + ["(check-sat)"]),
            ("assuming", a + ["(check-sat-assuming (%s))" % lit]),
            ("incremental", a + ["(check-sat)", bad, "(check-sat)"]),
            ("incremental-2", a[:1] + ["(check-sat)"] + a[1:] + ["(check-sat)"]),
        ])
        return "retract:" + kind, "\n".join(d + body), None
    t = base.text(header=False)
    if cls == "corrupt":
        kind = r.choice(["cut", "paren", "junk", "extra-paren", "no-op", "token", "token"])
        if kind == "cut":
            spots = [j for j in range(1, len(t)) if t[:j].count("(") > t[:j].count(")")]
            t = t[: r.choice(spots)]
        elif kind == "paren":
            spots = [j for j, ch in enumerate(t) if ch in ")"]
            j = r.choice(spots)
            t = t[:j] + t[j + 1:]
        elif kind == "extra-paren":
            t = t + ")" if r.random() < 0.5 else t.replace("\n", ")\n", 1)
        elif kind == "token":  # whatever comes behind it, this script isn't satisfiable
            return "corrupt:token", vlib.broken(r, t.replace("(check-sat)", "") + "\n(assert false)\n") + "(check-sat)\n", "unsat"
        elif kind == "junk":
            t = t.replace("\n", "\njunk ", 1)
        else:
            t = t.replace("(check-sat)", "(frobnicate)\n(check-sat)")
        return "corrupt:" + kind, t, "reject"
    return "fault", t, r.randrange(0, len(t.rstrip()))


def run(i):
    kind, t, how = build(i)
    if isinstance(how, int):
        q = {"id": 0, "mode": "read_fault", "smt": t, "at": how}
    else:
        q = {"id": 0, "mode": "solve", "smt": t}
    r = vlib.worker(eager.EXE).call(q, 30)
    v = None
    if how is None:
        z = subprocess.run([Z3, "-T:10", "-in"], input=t, capture_output=True, text=True)
        lines = z.stdout.split("\n")
        if not any(l.startswith("(error") for l in lines):
            v = next((l for l in reversed(lines) if l in ("sat", "unsat", "unknown")), None)
        else:
            v = "error"
    return i, kind, t, how, r["r"], r.get("msg"), v


for i, kind, t, how, got, msg, want in vlib.fanout(run, range(vlib.scale(6000, 60000)), budget=vlib.scale(60, 500)):
    rp = {"script": t, "kind": kind, "fault_at": how if isinstance(how, int) else None, "tool": got, "message": msg, "z3": want}
    verdict = got if got in ("sat", "unsat") else None
    if got in ("timeout",) or (got == "crash" and verdict is None):
        c.unsure(got)
    c.count("%s:%s" % (kind, got))
    if how is not None:
        c.seen(t, True, {"kind": kind, "script": t, "tool": got})
        if verdict and verdict != how:
            c.violation("verdict-on-broken-input", "%s: tool says %s on\n%s" % (kind, got, t), rp)
        continue
    if verdict is None:
        c.seen(t, got in ("error", "panic"))
        continue
    if want not in ("sat", "unsat"):
        c.unsure("z3: %s" % want)
        c.seen(t, False)
        continue
    c.seen(t, True, {"kind": kind, "script": t, "tool": got, "z3": want})
    c.count("verdicts_compared")
    if verdict != want:
        c.violation("wrong-verdict:" + kind, "tool says %s, z3 says %s on\n%s" % (got, want, t), rp)
c.assumptions += ["z3 is right", "one verdict for a script with several check-sat commands is that of the last one"]
sys.exit(c.finish())
