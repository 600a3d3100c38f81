"""C19: predictions are made from the features of their own problem."""
import json, os, re, shutil, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import arith, feats, pred, upd, vlib

c = vlib.Check(
    "C19",
    "runs of generate_predictions.py with stand-ins for SageMaker and CVC4 that record what they are given, and the real feature "
    "generators: random string scripts, solver outputs and configurations (buckets, means and deviations with zeros, FMF, verbosity, "
    "missing endpoints; relative, absolute and awkward paths); random integer scripts of 8 families and recorded statistics with many "
    "partitions, odd names and slow solvers; several predictions at once; run_eager_v_lazy.py with solvers of known speed; monitors: the "
    "features that the endpoints received are those our own counters find, and the printed answer is theirs; non-trivial: predictions "
    "with at least 3 features other than 0; distinct by features and configuration", min_nontrivial=60)
NAMES = ["amzn-smt-prediction", "amzn-smt-eager-arithmetic"]
TOOLS = vlib.build_repo_bins(NAMES)
RUNTIME = ["solve quickly", "solve slowly", "timeout (over"]
LAZY = ["Lazy Approach via CVC4", "Lazy Approach via Z3", "Eager Approach via SAT"]
PATHS = ["p.smt2", "a b.smt2", "sub/p.smt2", "../p.smt2", "/abs/p.smt2", "it's$x.smt2", "p", "x;y/.p.smt2", "p.smt2.smt2", "/abs/é e.smt2"]
FAMS = ["lia", "conj", "idl", "eq", "tight", "bool", "degenerate", "shared"]

EAGER = """#!/bin/sh
timeout 4 "%s" "$@" > "$3.seen" 2>&1 < /dev/null
cat "$3.seen"
"""
FAKE = """#!/bin/sh
[ "$1" = solve ] && [ "$2" = --instance ] || exit 2
cat "$3.seen"
[ -f "$3.slow" ] && exec sleep 30
exit 0
"""


def place(s, d, rel):
    """-> (path given to the script, real path)."""
    if rel.startswith("/abs/"):
        real = os.path.join(d, "elsewhere", rel[5:])
        given = real
    else:
        real = os.path.normpath(os.path.join(s, rel))
        given = rel
    os.makedirs(os.path.dirname(real), exist_ok=True)
    return given, real


def write(p, t):
    with open(p, "w") as f:
        f.write(t)


def close(a, b):
    return len(a) == len(b) and all(abs(x - y) <= 1e-9 * max(1, abs(x), abs(y)) for x, y in zip(a, b))


def answer(r, n):
    while True:
        a = [round(r.random(), 3) for _ in range(n)]
        if sorted(a)[-1] - sorted(a)[-2] > 0.01:
            return a


def config(path, req, opt):
    write(path, "[REQUIRED]\n%s\n[OPTIONAL]\n%s\n" % ("\n".join("%s = %s" % x for x in req), "\n".join("%s = %s" % x for x in opt)))


def told(so, labels, best, p):
    """The sentence with the prediction names the best label only, with its probability in percent."""
    ls = [l for l in so.split("\n") if "predicted" in l]
    m = re.search(r"([0-9.]+(?:e-?[0-9]+)?) ?%", ls[0]) if ls else None
    return bool(m) and [l in ls[0] for l in labels] == [l == best for l in labels] and abs(float(m.group(1)) - 100 * p) < 0.011


def detail(so, labels, want, a):
    """With full verbosity the features and probabilities are printed as well -> error."""
    ls = {l.split(": ", 1)[0]: l.split(": ", 1)[1] for l in so.split("\n")[::-1] if ": " in l}
    try:
        if labels:
            if len(ls["Feature Labels"].split(",")) != len(want):
                return "%s for %d features" % (ls["Feature Labels"], len(want))
            got = json.loads(ls["Feature Vector"])
        else:
            got = [int(x) for x in re.findall(r": (\d+)", ": " + ls["Feature Vector"])]
        if not close(got, want):
            return "printed features %s instead of %s" % (got, want)
        if not close(json.loads(ls["Probabilities"]), a):
            return "printed probabilities %s instead of %s" % (ls["Probabilities"], a)
    except (KeyError, ValueError) as e:
        return "features or probabilities aren't printed: %r" % e


def setup(d, eager=EAGER % TOOLS[NAMES[1]]):
    s = pred.tree(d)
    p = os.path.join(d, NAMES[0], "release", NAMES[0])
    os.makedirs(os.path.dirname(p))
    os.symlink(TOOLS[NAMES[0]], p)
    pred.exe(os.path.join(d, NAMES[1], "release", NAMES[1]), eager)
    pred.solver(s, "cvc4", os.path.join(d, "log"))
    return s


# ------------------------------------------------------------------ QF_SLIA

def strings(i):
    r = vlib.rng("C19s", i)
    cmds = feats.benchmark(r)
    buckets = pred.BUCKETS
    opt = []
    if r.random() < 0.7:
        if r.random() < 0.7:
            buckets = sorted(r.sample(range(1, 120), r.randint(1, 14)))
        opt.append(("Buckets", json.dumps(buckets)))
    out = "" if r.random() < 0.05 else pred.output(r, buckets)
    fmf = r.random() < 0.5
    if fmf or r.random() < 0.5:
        opt.append(("FMF", str(fmf)))
    n = len(feats.SETS["script"]) + len(buckets) + 1
    means, stds = [round(r.uniform(-3, 900), 3) for _ in range(n)], [r.choice([0, 0.0, 1, round(r.uniform(0.01, 500), 3)]) for _ in range(n)]
    k = r.random()
    if k < 0.6:
        opt += [("M1FeatureMeans", json.dumps(means)), ("M1FeatureStds", json.dumps(stds))]
    elif k < 0.7:
        opt.append(("M1FeatureMeans", json.dumps(means)))
    v = r.choice(["Full", "Pretty", "Vector", None])
    if v:
        opt.append(("Verbosity", v))
    r.shuffle(opt)
    miss = r.choice(["EndpointFmf", "EndpointRuntime"]) if r.random() < 0.1 else None
    req = [x for x in (("Theory", "QF_SLIA"), ("EndpointRuntime", "ep-1"), ("EndpointFmf", "ep-2"), ("EndpointEagerVLazy", "ep-3")) if x[0] != miss]
    a1, a2 = answer(r, 3), round(r.random(), 3)
    if round(a2 * 100, 2) == 50:
        a2 = 0.6
    off = feats.counts(cmds)
    off = [off[feats.OF[x]] for x in feats.SETS["script"]]
    on = pred.histogram(out, buckets) if out else [0] * (len(buckets) + 1)
    want = off + on
    if k < 0.6:
        want = [f if s == 0 else (f - m) / s for f, m, s in zip(want, means, stds)]
    rel = r.choice(PATHS)
    key = ("slia", tuple(off), tuple(on), tuple(opt), miss)
    with vlib.Scratch() as d:
        s = setup(d)
        given, real = place(s, d, rel)
        write(real, "\n".join(upd.show(x, r) for x in cmds) + "\n")
        write(real + ".out", "wrong one\n" if fmf else out + "\n" * bool(out))
        write(real + ".fmf.out", out + "\n" * bool(out) if fmf else "wrong one\n")
        config(os.path.join(d, "c.ini"), req, opt)
        env = pred.stubs(d)
        write(os.path.join(d, "stub", "answer_ep-1"), json.dumps(a1))
        write(os.path.join(d, "stub", "answer_ep-2"), json.dumps(a2))
        write(os.path.join(d, "stub", "answer_ep-3"), json.dumps([1, 0, 0]))
        rc, so, se = pred.run(s, "generate_predictions.py", [given, os.path.join(d, "c.ini")], 60, env)
        if rc is None:
            return key, 0, None, "timeout", {}
        got = [pred.calls(d, "ep-%d" % j) for j in (1, 2, 3)]
        left = [f for f in os.listdir(s) if f.startswith("off_features")]
        log = open(os.path.join(d, "log")).read().split() if os.path.exists(os.path.join(d, "log")) else []
    info = {"script": upd.show(cmds[0]) if len(cmds) == 1 else "\n".join(upd.show(x) for x in cmds), "output": out, "config": opt, "missing": miss,
            "path": rel, "got": got, "want": want, "on": on, "stdout": so[-600:], "stderr": se[-600:]}
    bad = None
    runtime, conf = miss != "EndpointRuntime", fmf and miss is None
    if (rc != 0) != (not runtime or (fmf and miss is not None)):
        bad = "exit %s" % rc
    elif [len(g) for g in got] != [int(runtime), int(conf), 0]:
        bad = "endpoints were called %s times" % [len(g) for g in got]
    elif runtime and not close(got[0][0], want):
        bad = "the runtime model got %s instead of %s" % (got[0][0], want)
    elif conf and got[1][0] != on:
        bad = "the configuration model got %s instead of %s" % (got[1][0], on)
    elif left:
        bad = "files left: %s" % left
    elif runtime and ("--strings-fmf" in log) != fmf:
        bad = "--strings-fmf is wrong: %s" % log
    elif runtime and v == "Vector" and (str(a1) not in so or conf and str(a2) not in so):
        bad = "the prediction isn't printed"
    elif runtime and v != "Vector" and not told(so, RUNTIME, RUNTIME[a1.index(max(a1))], max(a1)):
        bad = "the printed prediction isn't the endpoint's"
    elif runtime and v == "Full" and detail(so, True, want, a1):
        bad = detail(so, True, want, a1)
    elif conf and v != "Vector" and not told("\n".join(so.split("\n")[so[: so.index("predicted")].count("\n") + 1:]), ["--strings-fmf DISABLED", "--strings-fmf ENABLED"],
                                             "--strings-fmf ENABLED" if a2 > 0.5 else "--strings-fmf DISABLED", max(a2, 1 - a2)):
        bad = "the printed configuration isn't the endpoint's"
    return key, sum(x != 0 for x in off + on), bad, None, info


# ------------------------------------------------------------------ QF_LIA and QF_IDL

def stats(r):
    p = {"vars": r.randint(1, 40), "constraints": r.randint(1, 60), "a_max": r.choice([1, 1, 1, 2, 3, 9, 100]), "b_max": r.choice([0, 1, 5, 7, 300, 10 ** 6, 2 ** 63, 10 ** 25]),
         "k": r.choice([0, 0, 0, 1, 2, 5]), "w": r.choice([1, 1, 2, 3, 8])}
    if r.random() < 0.5:  # every summand and factor of the formula matters
        p = {"vars": r.randint(1, 5), "constraints": r.randint(1, 6), "a_max": r.randint(1, 3), "b_max": r.randint(0, 4), "k": r.choice([0, 1, 2]), "w": r.randint(1, 3)}
    p["bound"] = r.choice(sorted(pred.bounds(p)))
    return p


def shown(p, r):
    name = r.choice(["x", "|a b|", "|x{|", "|}|", "|y bits|", "|Stats { vars: 7|", "|, bound: 3 bits|", "|a: b|", "|Partition|", "'", "|it's|", "|é|"])
    return "Partition '%s': stats: Stats { vars: %d, constraints: %d, a_max: %d, b_max: %d, k: %d, w: %d }, bound: %d bits" % (
        (name,) + tuple(p[x] for x in ("vars", "constraints", "a_max", "b_max", "k", "w", "bound")))


def integers(i):
    r = vlib.rng("C19i", i)
    slow = i < 0
    fake = slow or r.random() < 0.4
    theory = r.choice(["QF_LIA", "QF_IDL"])
    v = r.choice(["Full", "Pretty", "Vector", None])
    a = answer(r, 3)
    rel = r.choice(PATHS)
    miss = not slow and r.random() < 0.07
    with vlib.Scratch() as d:
        s = setup(d, FAKE if fake else EAGER % TOOLS[NAMES[1]])
        given, real = place(s, d, rel)
        if fake:
            ps = [stats(r) for _ in range(r.choice([1, 1, 2, 3, 12]))]
            ls = ["Solving x", "Parse time: 1ms"] + [shown(p, r) for p in ps] + ["CNF: 3 vars, 4 clauses"] + ([] if slow else ["Solve time: 3ms", "sat", "(", "(define-fun x () Int 3)", ")"])
            write(real, "\n".join(map(str, ps)))
            write(real + ".seen", "\n".join(ls) + r.choice(["\n", ""]))
            if slow:
                write(real + ".slow", "")
        else:
            write(real, arith.gen(r.choice(FAMS), r).text())
        text = open(real).read()
        config(os.path.join(d, "c.ini"), [("Theory", theory), ("EndpointRuntime", "ep-1"), ("EndpointFmf", "ep-2")] + [("EndpointEagerVLazy", "ep-3")] * (not miss),
               ([("Verbosity", v)] if v else []) + r.choice([[], [("Buckets", "[1, 2]"), ("FMF", "False")]]))
        env = pred.stubs(d)
        for j, t in ((1, [1, 0, 0]), (2, 0.7), (3, a)):
            write(os.path.join(d, "stub", "answer_ep-%d" % j), json.dumps(t))
        rc, so, se = pred.run(s, "generate_predictions.py", [given, os.path.join(d, "c.ini")], 60, env)
        try:
            seen = open(real + ".seen").read()
        except OSError:
            seen = None
        got = [pred.calls(d, "ep-%d" % j) for j in (1, 2, 3)]
    if rc is None:
        return (i,), 0, None, "timeout", {}
    ps = pred.partitions(seen) if seen else []
    info = {"problem": text, "path": rel, "solver_printed": (seen or "")[-2000:], "got": got, "stdout": so[-600:], "stderr": se[-600:]}
    key = ("lia", tuple(tuple(p.values()) for p in ps), theory, v)
    bad = None
    if miss:
        if rc == 0 or got != [[], [], []]:
            bad = "exit %s without the endpoint that is needed" % rc
        return key, 0, bad, None, info
    if seen is None:
        bad = "the solver wasn't started on the problem"
    elif "Partition" in seen and not ps or fake and len(ps) != seen.count("\nPartition"):
        return key, 0, None, "unreadable statistics", info
    elif not ps:  # nothing to predict from
        if got != [[], [], []]:
            bad = "features of a problem without partitions: %s" % got
    elif rc != 0:
        bad = "exit %s: %s" % (rc, (so + se)[-300:])
    elif [len(g) for g in got] != [0, 0, 1]:
        bad = "endpoints were called %s times" % [len(g) for g in got]
    else:
        want, bounds = pred.merged(ps)
        if got[2][0][:6] != want or got[2][0][6] not in bounds or len(got[2][0]) != 7:
            bad = "the model got %s instead of %s with bound %s" % (got[2][0], want, sorted(bounds))
        elif v == "Vector" and str(a) not in so or v != "Vector" and not told(so, LAZY, LAZY[a.index(max(a))], max(a)):
            bad = "the printed prediction isn't the endpoint's"
        elif v == "Full":
            bad = detail(so, False, got[2][0], a)
    return key, sum(p["vars"] > 0 for p in ps) and 7, bad, None, info


# ------------------------------------------------------------------ several at once

def together(i):
    r = vlib.rng("C19t", i)
    n = r.randint(3, 6)
    probs = []
    with vlib.Scratch() as d:
        s = setup(d)
        e = dict(vlib.ENV, PYTHONDONTWRITEBYTECODE="1", **pred.stubs(d))
        for j in range(n):
            cmds, out = feats.benchmark(r), pred.output(r)
            given, real = place(s, d, "d%d/p.smt2" % j)
            write(real, "\n".join(upd.show(x, r) for x in cmds) + "\n")
            write(real + ".out", out + "\n")
            config(os.path.join(d, "c%d.ini" % j), [("Theory", "QF_SLIA"), ("EndpointRuntime", "ep-%d" % j)], [("Verbosity", "Vector")])
            write(os.path.join(d, "stub", "answer_ep-%d" % j), "[0.2, 0.3, 0.5]")
            n1 = feats.counts(cmds)
            probs.append((given, [n1[feats.OF[x]] for x in feats.SETS["script"]] + pred.histogram(out, pred.BUCKETS)))
        procs = [subprocess.Popen([sys.executable, "generate_predictions.py", g, os.path.join(d, "c%d.ini" % j)], cwd=s, env=e,
                                  stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE) for j, (g, _) in enumerate(probs)]
        bad = None
        un = None
        for j, p in enumerate(procs):
            try:
                _, err = p.communicate(timeout=60)
            except subprocess.TimeoutExpired:
                p.kill()
                un = "timeout"
                continue
            if p.returncode != 0:
                bad = bad or "exit %s: %s" % (p.returncode, err[-300:])
        got = [pred.calls(d, "ep-%d" % j) for j in range(n)]
    if un:
        return (i,), 0, None, un, {}
    for j, (g, w) in enumerate(probs):
        if not bad and got[j] != [w]:
            bad = "%s, of %d at once: the model got %s instead of %s" % (g, n, got[j], w)
    return ("together", tuple(tuple(w) for _, w in probs)), 7, bad, None, {"got": got, "want": [w for _, w in probs]}


# ------------------------------------------------------------------ eager versus lazy

TIMED = """#!/bin/sh
for a; do last=$a; done
case "$0" in *eager*) [ "$1" = solve ] && [ "$2" = --instance ] || exit 2; cat "$last.seen";; *) echo sat;; esac
. "$last.$(basename "$0")"
"""


def race(i, again=False):
    r = vlib.rng("C19r", i)
    n = r.randint(1, 3)
    names, want, ps = [], [], []
    with vlib.Scratch() as d:
        s = pred.tree(d)
        for t in ("z3", "cvc4", NAMES[1]):
            pred.exe(os.path.join(s, "..", "solvers", t), TIMED)
        for j in range(n):
            nm = "/" + r.choice(["", "d/", "a b/"]) + "b%d%s" % (j, r.choice([".smt2", "", "'.smt2"]))
            _, real = place(s, d, "../bench" + nm)
            times = dict(zip(("z3", "cvc4", NAMES[1]), r.sample([0, 2, 4] if r.random() < 0.6 else [0, 2, 7], 3)))
            for t, x in times.items():
                write(real + "." + t, "exec sleep %d\n" % x)
            p = [stats(r) for _ in range(r.choice([1, 1, 3]))]
            write(real, "")
            write(real + ".seen", "\n".join(shown(q, r) for q in p) + "\n")
            names.append(nm)
            ps.append(p)
            want.append({"z3": "z3", "cvc4": "cvc4", NAMES[1]: "sat"}[min(times, key=times.get)])
        write(os.path.join(s, "list"), "\n".join(names) + r.choice(["", "\n"]))
        rc, so, se = pred.run(s, "run_eager_v_lazy.py", ["list", "../bench"], 120, pred.stubs(d))
        if rc is None:
            return (i,), 0, None, "timeout", {}
        try:
            fast = open(os.path.join(s, "fastest_solver.csv")).read().splitlines()
            rows = open(os.path.join(s, "features.csv")).read().splitlines()
        except OSError:
            fast, rows = [], []
    info = {"names": names, "want": want, "got": fast, "stats": ps, "features": rows, "stderr": se[-500:]}
    bad = None
    if rc != 0 or len(rows) != n or len(fast) != n:
        bad = "exit %s, %d and %d rows for %d benchmarks: %s" % (rc, len(fast), len(rows), n, se[-300:])
    else:
        for p, g in zip(ps, rows):
            w, b = pred.merged(p)
            g = [int(x) for x in g.split(",")]
            if g[:6] != w or len(g) != 7 or g[6] not in b:
                bad = "features %s instead of %s with bound %s" % (g, w, sorted(b))
        if not bad and fast != want:
            if not again:  # the machine may have been too busy
                return race(i, True)
            bad = "fastest solvers %s instead of %s" % (fast, want)
    return ("race", tuple(names), tuple(map(str, ps))), 7, bad, None, info


def run(item):
    return item[0], {"s": strings, "i": integers, "t": together, "r": race}[item[0]](item[1])


q = vlib.quick()
items = [("i", -j) for j in range(1, 5 if q else 17)] + [("r", j) for j in range(6 if q else 60)]
items += [x for j in range(vlib.scale(200, 4000)) for x in ([("s", j), ("i", j)] + ([("t", j)] if j % 12 == 0 else []))]
for kind, (key, nz, bad, un, info) in vlib.fanout(run, items, budget=vlib.scale(100, 700)):
    if un:
        c.unsure(un)
        continue
    c.seen(key, nz >= 3, {"prediction": str(key)[:300]})
    c.count({"s": "string_predictions", "i": "integer_predictions", "t": "predictions_at_once", "r": "eager_vs_lazy_runs"}[kind])
    if kind == "i":
        c.count("partitions:%s" % min(len(key[1]), 5))
    if bad:
        c.violation("features", bad, dict(info, error=bad))
sys.exit(c.finish())
