"""C18: the online features of a benchmark are the word counts of its own solver output."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pred, vlib

c = vlib.Check(
    "C18",
    "lists of 1 to 6 benchmarks with related names (only other endings, other leading characters, directories, spaces and shell "
    "characters, dots), random solver outputs with line lengths around every bucket limit, both solvers, with and without "
    "--strings-fmf, solvers that exceed the time limit after some or no output; monitors: the rows that get_solver_output, "
    "get_word_counts and get_word_count_features write are, in the order of the list, the histograms of what the stand-in solver "
    "printed for that benchmark; labels match the buckets; the solver was started on the right file with the right options; "
    "non-trivial: lists of at least 2 benchmarks with different outputs; distinct by list and outputs", min_nontrivial=100)

STEMS = ["s", "m", "t", "2", "tt", "sm", "t2", "x", "x1", "a.b", "a b", "q$HOME", "it's", "x;y", "smt2", "m.smt2", "2s", "z=1", "a&b", "(p)", "é", "x-2.t", "stm"]
DIRS = ["", "d/", "s/", "2/", "smt/", "d d/", "mt.s/", "d/e/"]


def pipeline(d, names, outs, solver, fmf, thens=None, newline=True):
    """-> (rows, labels, log of the solver, error, undecided)."""
    s = pred.tree(d)
    log = os.path.join(d, "log")
    pred.solver(s, solver, log)
    root = os.path.join(d, "amzn-smt-prediction", "SMT_Comp_2020")
    for n, o in zip(names, outs):
        p = root + n
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "w").close()
        with open(p + ".out", "w") as f:
            f.write("not this one\n" if solver == "cvc4" and fmf else o + "\n")
        if solver == "cvc4" and fmf:
            with open(p + ".fmf.out", "w") as f:
                f.write(o + "\n")
        if thens and thens.get(n) is not None:
            with open(p + ".then", "w") as f:
                f.write(thens[n])
            if thens[n].startswith("#empty"):
                for e in (".out", ".fmf.out"):
                    open(p + e, "w").close()
    with open(os.path.join(s, "list"), "w") as f:
        f.write("\n".join(names) + ("\n" if newline else ""))
    lim = 60 + 15 * len(names)
    for script, args in (("get_solver_output.py", [solver, "list", "../SMT_Comp_2020"] + ([] if fmf else ["--no-strings-fmf"])),
                         ("get_word_counts.py", [solver, "list"]), ("get_word_count_features.py", [solver, "qf_slia", "list"])):
        rc, so, se = pred.run(s, script, args, lim, py=("/usr/bin/python3", "-E"))
        if rc is None:
            return None, None, None, None, "timeout of " + script
        if rc != 0:
            return None, None, None, "%s: exit %s: %s" % (script, rc, se[-300:]), None
    try:
        with open(os.path.join(s, "..", solver + "_output", "features", "on_features_qf_slia_%s.csv" % solver)) as f:
            rows = f.read().splitlines()
        with open(log) as f:
            calls = f.read().splitlines()
    except OSError as e:
        return None, None, None, "no output: %s" % e, None
    return rows[1:], rows[:1], calls, None, None


def judge(names, outs, solver, fmf, rows, lab, calls):
    if lab != [",".join(pred.labels(pred.BUCKETS))]:
        return "labels %r" % lab
    want = [",".join(map(str, pred.histogram(o, pred.BUCKETS))) if o else None for o in outs]
    if len(rows) != len(want):
        return "%d rows for %d benchmarks" % (len(rows), len(want))
    for n, w, g in zip(names, want, rows):
        if w is None:
            w = ",".join(["0"] * (len(pred.BUCKETS) + 1))
        if g != w:
            return "%s: features %s instead of %s" % (n, g, w)
    if len(calls) != len(names):
        return "%d calls of the solver for %d benchmarks" % (len(calls), len(names))
    for n, call in zip(names, calls):
        if not call.endswith("../SMT_Comp_2020" + n):
            return "%s: solver called with %r" % (n, call)
        if solver == "cvc4" and ("--strings-fmf" in call.split()) != fmf:
            return "%s: --strings-fmf is wrong: %r" % (n, call)


def run(i):
    r = vlib.rng("C18", i)
    slow = i < 0
    names = []
    seen = set()
    for _ in range(r.randint(1, 6) if not slow else 2):
        n = "/" + r.choice(DIRS) + r.choice(STEMS) + ".smt2"
        flat = n[1:].replace("/", "_")
        if flat not in seen:
            seen.add(flat)
            names.append(n)
    outs = [pred.output(r) for _ in names]
    solver = r.choice(["cvc4", "z3"])
    fmf = r.random() < 0.5
    thens = {}
    if slow:  # the solver goes on beyond the time limit
        k = r.randrange(len(names))
        if i % 2:
            thens[names[k]] = "#empty\nexec sleep 100\n"
            outs[k] = ""
        else:
            thens[names[k]] = "exec sleep 100\n"
    elif r.random() < 0.2:
        thens[r.choice(names)] = "exit 3\n"
    with vlib.Scratch() as d:
        rows, lab, calls, err, un = pipeline(d, names, outs, solver, fmf, thens, r.random() < 0.7)
    key = (solver, fmf, tuple(names), tuple(outs))
    err = err or (None if un else judge(names, outs, solver, fmf, rows, lab, calls))
    return key, len(names) > 1 and len(set(outs)) > 1, sum(o.count("\n") + 1 for o in outs if o), slow, err, un


items = list(range(-8 if vlib.quick() else -64, 0)) + list(range(vlib.scale(1000, 20000)))
for key, nt, lines, slow, err, un in vlib.fanout(run, items, budget=vlib.scale(60, 600)):
    if un:
        c.unsure(un)
        continue
    c.seen(key, nt, {"names": key[2]})
    c.count("benchmarks", len(key[2]))
    c.count("lines", lines)
    c.count("timeouts", int(slow))
    if err:
        c.violation("features", err, {"solver": key[0], "fmf": key[1], "names": key[2], "outputs": key[3], "error": err})

# benchmarks whose paths only differ in / and _ share their files (known)
pair, outs = ["/a/b.smt2", "/a_b.smt2"], ["sat", "x x x x x x x x x"]
with vlib.Scratch() as d:
    rows, lab, calls, err, un = pipeline(d, pair, outs, "z3", True)
err = err or (None if un else judge(pair, outs, "z3", True, rows, lab, calls))
if err:
    c.violation("features", err, {"names": pair, "error": err}, "/a/b.smt2 and /a_b.smt2")
sys.exit(c.finish())
