"""C01: the verdict of the eager solver is the verdict of the script's SMT-LIB semantics."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import arith, eager, probes, vlib

c = vlib.Check(
    "C01",
    "random scripts of the families %s (linear arithmetic with nested boolean structure, difference/"
    "equality logic, tight-bound chains, uninterpreted functions, booleans, huge constants, bit-vector "
    "comparisons, cancelling/ground terms) and the repository's small benchmarks with random local changes, run through the real library; non-trivial: the library gave "
    "sat/unsat and the oracle (z3; sat answers re-evaluated by our own evaluator) gave a definite verdict; "
    "distinct by script text" % sorted(arith.FAMILIES), min_nontrivial=100)
eager.setup()


def run(item):
    o = eager.observe(item)
    o["oracle"] = arith.oracle(o["problem"])[0:2]
    if o["res"]["r"] == "sat":  # an independent confirmation of `sat`, when z3 gives up
        try:
            env, funs = arith.parse_model(o["res"]["model"]["text"], o["problem"].decls)
            o["confirmed"] = arith.failing_assert(o["problem"], env, funs) is None
        except arith.BadModel:
            o["confirmed"] = False
    o["log"] = o["res"].pop("log", [])
    return o


def judge(o, signature=None):
    p, r, orc = o["problem"], o["res"], o["oracle"]
    t, got = p.text(), r["r"]
    c.count("family:" + p.family.split(":")[0])
    c.count("tool:" + got)
    if r.get("retried"):
        c.count("retried_with_larger_limits")
    parts = eager.partitions(o["log"])
    if parts:
        c.count("max_partitions>1" if len(parts) > 1 else "single_partition")
    rp = {"script": t, "tool": got, "message": r.get("msg"), "oracle": orc, "item": o["item"]}
    if got in ("sat", "unsat"):
        if orc[0] == "unknown":
            if not o.get("confirmed"):
                c.unsure("oracle undecided")
            c.seen(t, bool(o.get("confirmed")))
            return
        c.seen(t, True, {"script": t, "tool": got, "oracle": orc[0]})
        c.count("%s:%s" % (p.family.split(":")[0], orc[0]))
        if got != orc[0]:
            if got == "sat" and o.get("confirmed"):
                c.unsure("z3 says unsat but the tool's model checks out")
            else:
                c.violation("wrong-verdict", "tool says %s, semantics say %s for\n%s" % (got, orc[0], t), rp, signature)
    elif got in ("error", "panic", "crash"):
        c.seen(t, False)
        if got == "crash" and "memory" in str(r.get("msg")):
            c.unsure("memory")
        elif got == "crash" and not r.get("retried"):
            c.unsure("crash")
        else:
            c.violation("no-verdict", "%s on a supported script: %s\n%s" % (got, r.get("msg"), t), rp, signature)
    else:
        c.seen(t, False)
        c.unsure("timeout")
        slow.append(o)


slow = []
for name, prob in probes.verdicts():
    o = {"item": ("probe", name), "problem": prob, "res": eager.robust_solve(prob)}
    o["oracle"], o["log"] = arith.oracle(prob)[0:2], o["res"].pop("log", [])
    judge(o, "probe:" + name)

N = vlib.scale(10000, 100000)
work = eager.benches(vlib.scale(250, 4000), "C01b") + list(eager.mix(N, list(arith.FAMILIES), "C01"))
for o in vlib.fanout(run, work, budget=vlib.scale(60, 700)):
    judge(o)
if len(slow) >= 3 and len(slow) * 20 > c.evaluations:
    c.violation("no-verdict", "no answer in time on %d of %d small scripts" % (len(slow), c.evaluations),
                {"scripts": [o["problem"].text() for o in slow[:5]]})
c.assumptions += ["z3 is right when it says unsat", "scripts stay inside the documented fragment, coefficients <= 5"]
sys.exit(c.finish())
