"""C17: the offline features of a benchmark are the numbers of string operators in its assertions."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import strx, upd, vlib
from feats import OF, SETS, benchmark, counts

c = vlib.Check(
    "C17",
    "lists of 1 to 8 random benchmarks (unsorted scripts over all theories and all string operators with binders, shared subterms, "
    "look-alike symbols and literals, definitions, several assertions; sorted scripts of 15 families), all data sets; missing and "
    "malformed benchmarks in the list; monitor: header and rows of the written CSV are, per benchmark and in the order of the list, the "
    "numbers of occurrences counted by our own reader; rows in front of a broken benchmark stay and the run fails; "
    "non-trivial: lists with at least 5 operators; distinct by scripts", min_nontrivial=200)
NAME = "amzn-smt-prediction"
TOOL = vlib.build_repo_bins([NAME])[NAME]
ENV = dict(vlib.ENV, RUST_BACKTRACE="0")

def run(i):
    r = vlib.rng("C17", i)
    ds = r.choice(list(SETS))
    files = [benchmark(r) for _ in range(r.randint(1, 8))]
    with vlib.Scratch() as d:
        base = os.path.join(d, "SMT_Comp_2020") if ds in ("smtcomp", "kepler") else d
        names = []
        for j, f in enumerate(files):
            n = r.choice(["", "sub/", "a b/", "x.y/"]) + "b%d%s" % (j, r.choice([".smt2", ".smtlib", "", ".smt2.smt2"]))
            p = os.path.join(base, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as fh:
                fh.write("\n".join(upd.show(x, r) for x in f) + "\n")
            names.append("/" + n)
        again = r.random() < 0.2
        if again:  # the same benchmark twice
            names.append(names[0])
            files.append(files[0])
        bad = None
        if r.random() < 0.2:
            bad = r.randint(0, len(names))
            names.insert(bad, "/broken")
            how = r.choice(["missing", "missing", "malformed", "token", "token", "directory"])
            if how == "directory":  # can be opened, but not read
                os.makedirs(os.path.join(base, "broken"))
            elif how == "token":
                with open(os.path.join(base, "broken"), "w") as fh:
                    fh.write(vlib.broken(r, "\n".join(upd.show(x, r) for x in r.choice(files)) + "\n(assert (= (str.len x) 1))\n"))
            elif how == "malformed":
                with open(os.path.join(base, "broken"), "w") as fh:
                    fh.write(r.choice(["(assert (= x", "(assert x))", "(assert (str.len))\n", "(assert \"a)"]))
        with open(os.path.join(d, "list"), "w") as fh:
            fh.write("\n".join(names) + r.choice(["\n", ""]))
        vlib.stale(os.path.join(d, "off_features_out.csv"), "".join(names))
        rc, so, se = vlib.run_cli([TOOL, ds, "list", "out"], d, 60, env=ENV, prompt=True)
        if rc is None:
            return files, ds, 0, 0, None, "timeout"
        key = "\n----\n".join(strx.text(f) for f in files)
        want = [",".join(SETS[ds])]
        total = 0
        for f in files[: bad]:
            n = counts(f)
            total += sum(n.values())
            want.append(",".join(str(n[OF[col]]) for col in SETS[ds]))
        if (rc != 0) != (bad is not None):
            return key, ds, total, 0, "exit %s: %s" % (rc, (so + se)[-300:]), None
        try:
            with open(os.path.join(d, "off_features_out.csv")) as fh:
                got = fh.read().splitlines()
        except OSError:
            got = []
        if got != want and not (bad == 0 and not got):  # a run that fails at once need not write anything
            j = next((j for j in range(max(len(got), len(want))) if got[j:j + 1] != want[j:j + 1]), 0)
            return key, ds, total, 0, "line %d is %r instead of %r" % (j, got[j:j + 1], want[j:j + 1]), None
        return key, ds, total, len(want) - 1, None, None


for key, ds, total, rows, err, un in vlib.fanout(run, range(vlib.scale(5000, 60000)), budget=vlib.scale(50, 600)):
    if un:
        c.unsure(un)
        continue
    c.seen((ds, key), total >= 5, {"benchmarks": key[:400]})
    c.count("dataset:" + ds)
    c.count("rows", rows)
    c.count("operators_counted", total)
    if err:
        c.violation("features", err, {"dataset": ds, "benchmarks": key, "error": err})
sys.exit(c.finish())
