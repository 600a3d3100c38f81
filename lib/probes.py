"""Fixed scripts that are run on every occasion: regressions of repaired defects and the specific
inputs of the known findings (matched by name in known_findings.json)."""
import sexp
from arith import Problem, num


def script(text, family="probe"):
    decls, asserts = [], []
    for cmd in sexp.parse_all(text):
        if cmd[0] == "declare-const":
            decls.append((cmd[1], [], cmd[2]))
        elif cmd[0] == "declare-fun":
            decls.append((cmd[1], cmd[2], cmd[3]))
        elif cmd[0] == "assert":
            asserts.append(cmd[1])
    return Problem(decls, asserts, family)


def fib(n):
    v = ["x%d" % i for i in range(n)]
    a = [["=", v[0], "1"], ["=", v[1], "1"]]
    a += [["=", z, ["+", x, y]] for x, y, z in zip(v, v[1:], v[2:])]
    return Problem([(x, [], "Int") for x in v], a, "probe")


def doubling(n):
    v = ["x%d" % i for i in range(n)]
    a = [["=", v[0], "1"]] + [["=", y, ["*", "2", x]] for x, y in zip(v, v[1:])]
    return Problem([(x, [], "Int") for x in v], a, "probe")


def verdicts():
    x = "(declare-const x Int)"
    xy = x + "(declare-const y Int)"
    pqr = "(declare-const p Bool)(declare-const q Bool)(declare-const r Bool)"
    bv = "(declare-const b (_ BitVec 4))"
    out = [
        ("cancel", x + "(assert (>= (- x x) 1))"),
        ("zero-coefficient", x + "(assert (>= (* 0 x) 1))"),
        ("ground-true", "(assert (>= 2 1))"),
        ("ground-false", "(assert (= 2 1))"),
        ("ground-neg", x + "(assert (and (>= x 0) (< (- 5) (- 7))))"),
        ("big", x + "(assert (>= x 36893488147419103232))"),
        ("big-negative", x + "(assert (<= x (- 36893488147419103232)))"),
        ("bvule-const", bv + "(assert (bvule b #b0001))(assert (not (bvule b #b0000)))"),
        ("bvule-const-2", bv + "(assert (bvule #b1000 b))(assert (bvule b #b0111))"),
        ("bvule-dec", bv + "(assert (bvule (_ bv14 4) b))(assert (not (bvule (_ bv15 4) b)))"),
        ("distinct-bool", pqr + "(assert (distinct p q))(assert (distinct q r))(assert (= p r))"),
        ("distinct-bool-3", pqr + "(assert (distinct p q r))"),
        ("ite-int", xy + "(assert (= y (ite (>= x 0) x (- x))))(assert (< y 0))"),
        ("removed-application", x + "(declare-fun f (Int) Int)(declare-fun g (Int Int) Int)(declare-fun q (Int) Bool)"
         "(assert (< (- (* x 0) (- x)) (* (- 1) x)))(assert (>= (g (+ x x x) (f x)) (g x (f x))))"
         "(assert (=> (and (> x x (- 1)) (q (- 2)) (q x)) (=> (< x x) (> x x x) (> 3 x x))))"),
        ("xor-not-3", pqr + "(assert p)(assert (not q))(assert (not r))(assert (not (xor p q r)))"),
    ]
    res = [(n, script(t)) for n, t in out]
    for n in (14, 18):
        res.append(("fibonacci-%d" % n, fib(n)))
    res.append(("doubling-12", doubling(12)))
    return res
