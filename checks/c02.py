"""C02: every model printed with `sat` is a well-formed assignment that satisfies the script."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import arith, eager, probes, vlib

c = vlib.Check(
    "C02",
    "random scripts of all families (weighted to satisfiable ones) and perturbed benchmarks of the repository; each `sat` answer's printed model is "
    "parsed against the declarations and every assertion is evaluated under it by an independent "
    "evaluator; non-trivial: a model with at least one definition was judged; distinct by (script, model)",
    min_nontrivial=100)
eager.setup()
FAMS = ["lia", "tight", "big", "uf", "degenerate", "bv", "idl", "tight", "conj", "uf", "eq", "bool", "big", "bv", "shared", "wide"]


def run(item):
    o = eager.observe(item)
    o["log"] = o["res"].pop("log", [])
    return o


def judge(o, sig=None):
    p, r = o["problem"], o["res"]
    c.count("tool:" + r["r"])
    if r["r"] != "sat":
        c.seen(p.text(), False)
        return
    text = r["model"]["text"]
    rp = {"script": p.text(), "model": text, "item": o["item"]}
    c.seen((p.text(), text), "define-fun" in text, rp)
    c.count("models:" + p.family.split(":")[0])
    try:
        env, funs = arith.parse_model(text, p.decls)
        c.count("definitions_checked", len(r["model"]["defns"]))
        bad = arith.failing_assert(p, env, funs)
        if bad is None:
            env2, funs2 = list(arith.completions(text, p.decls))[1]
            bad = arith.failing_assert(p, env2, funs2)
            c.count("partial_models", env2 != env)
        c.count("assertions_evaluated", len(p.asserts))
    except arith.BadModel as e:
        c.violation("malformed-model", "%s\n%s\n%s" % (e, p.text(), text), rp, sig)
        return
    if bad is not None:
        c.violation("model-violates-assertion",
                    "%s is not true under\n%s\nfor\n%s" % (arith.show(bad), text, p.text()), rp, sig)
    parts = eager.partitions(o["log"])
    if parts:
        bits = max(q[-1] for q in parts)
        for n, v in env.items():
            if type(v) is int and v:
                c.count("values_against_bound")
                if not -(1 << (bits - 1)) <= v < (1 << (bits - 1)):
                    c.violation("value-exceeds-reported-width",
                                "%s = %d but the widest reported bound is %d bits\n%s" % (n, v, bits, p.text()), rp, sig)
                if abs(v) >= 1 << 63:
                    c.count("values_beyond_64_bits")


for name, prob in probes.verdicts():
    r = eager.robust_solve(prob)
    judge({"item": ("probe", name), "problem": prob, "res": r, "log": r.pop("log", [])}, "probe:" + name)
work = eager.benches(vlib.scale(120, 2000), "C02b") + list(eager.mix(vlib.scale(5000, 60000), FAMS, "C02"))
for o in vlib.fanout(run, work, budget=vlib.scale(60, 600)):
    judge(o)
c.assumptions += ["our evaluator implements SMT-LIB semantics of the generated operators"]
sys.exit(c.finish())
