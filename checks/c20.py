"""C20: the data sets that the scripts prepare hold each benchmark with its own values, in one order."""
import os, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pred, upd, strx, vlib

c = vlib.Check(
    "C20",
    "clean_smt_comp_results.py on random result files (all families, solvers, statuses, times at and around 30, 300, 330 and 1200 s, "
    "excluded benchmarks, look-alike paths), clean_eager_lazy_data.py on random and on the published results and statistics (several "
    "partitions, shuffled orders, ties, huge numbers), find_faster_fmf.py with solvers of known speed, modernize_benchmarks.py with the "
    "real updater (dots, spaces, directories, missing files); monitors: every written row is the one our own specification gives for "
    "that benchmark, and files that belong together have their rows in the same order; non-trivial: at least 2 rows written; "
    "distinct by inputs", min_nontrivial=200)
UPDATER = "amzn-smt-string-fct-updater"
TOOL = vlib.build_repo_bins([UPDATER])[UPDATER]
PY = ("/usr/bin/python3", "-E")


def write(p, t, **kw):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w", **kw) as f:
        f.write(t)


def lines(p):
    try:
        with open(p) as f:
            return f.read().splitlines()
    except OSError:
        return None


def same(a, b):
    """Rows of numbers."""
    try:
        return len(a) == len(b) and all(abs(float(x) - y) <= 1e-6 * max(1, abs(y)) for x, y in zip(a, b))
    except ValueError:
        return False


# ------------------------------------------------------------------ results of the competition

FAMS = [(["QF_SLIA", "2019-full_str_int"], True), (["QF_SLIA", "2019-Jiang"], True), (["QF_SLIA", "20180523-Reynolds", "pyex", "peterc-pyex-doc-cav17-z3"], True),
        (["QF_SLIA", "20180523-Reynolds", "pyex", "peterc-pyex-doc-cav17-zz"], False), (["QF_SLIA", "2018-Kepler"], False),
        (["QF_S", "2019-Jiang"], False), (["QF_S", "20180523-Reynolds", "pyex", "peterc-pyex-doc-cav17-z3"], False), (["QF_SLIA", "2019-JiangX"], False),
        (["QF_SLIA", "x", "2019-Jiang"], False), (["QF_SLIA", "2015-Norn", "ab"], False), (["QF_SLIA", "peterc-pyex-doc-cav17-z3"], False)]
TIMES = [0, 0.01, 29, 29.999, 30, 30.0, 30.5, 100, 299.99, 300, 300.0, 300.01, 315, 329.99, 330, 330.0, 330.25, 600, 1199.5, 1200, 1200.1]


def comp(i):
    r = vlib.rng("C20c", i)
    pool = []
    for _ in range(r.randint(2, 12)):
        fam, ok = r.choice(FAMS)
        parts = fam + ["sub"] * r.randint(0, 2) + ["b%d%s" % (len(pool), r.choice([".smt2", ".x.smt2", ""]))]
        pool.append(("/".join(parts), ok and len(parts) > len(fam)))
    ex = [n for n, _ in pool if r.random() < 0.2]
    near = [n + "x" for n, _ in pool if r.random() < 0.1] + [n[:-1] for n, _ in pool if r.random() < 0.1]
    rows, want = [], ([], [])
    for n, ok in pool:
        for solver in r.sample(["CVC4-sq-final", "Z3str4 SMTCOMP2020 v1.1", "z3-4.8.8", "CVC4-sq-final2", "CVC4"], r.randint(1, 4)):
            status = "complete" if r.random() < 0.8 else "timeout (wallclock)"
            if not ok and not n.startswith("QF_SLIA") and r.random() < 0.3:
                status = r.choice(["memout", "run script error"])
            t = r.choice(TIMES) if r.random() < 0.7 else round(r.uniform(0, 1300), 4)
            rows.append((n, solver, status, t))
    if r.random() < 0.7:
        r.shuffle(rows)
    text = ["pair id,benchmark,benchmark id,solver,solver id,configuration,configuration id,status,cpu time,wallclock time,memory usage,result,expected"]
    for j, (n, solver, status, t) in enumerate(rows):
        text.append("%d,%s/%s,%d,%s,1,%s,2,%s,%s,%s,%d,%s,%s" % (j, r.choice(["non-incremental", "Job", "CVC4-sq-final"]), n, j, solver, r.choice(["default", "CVC4-sq-final"]),
                                                                 status, round(r.uniform(0, 1500), 3), t, r.randint(1, 9999), r.choice(["sat", "unsat", "starexec-unknown"]), r.choice(["sat", "--"])))
        if dict(pool)[n] and n not in ex and solver == "CVC4-sq-final":
            t = 1200 if status != "complete" else t
            if 30 <= t < 300:
                want[0].append(("/non-incremental/" + n, t))
            elif t >= 330:
                want[1].append(("/non-incremental/" + n, t - 300))
    with vlib.Scratch() as d:
        s = pred.tree(d)
        base = os.path.join(os.path.dirname(s), "SMT_Comp_2020")
        os.makedirs(os.path.join(base, "experiments_QF_SLIA"))
        write(os.path.join(base, "Job_info_orig.csv"), "\n".join(text) + r.choice(["\n", ""]))
        a = [n for n in ex if r.random() < 0.5]
        for f, l in (("disagreements_SLIA", a + near), ("excluded_SLIA", [n for n in ex if n not in a])):
            write(os.path.join(base, "excluded_benchmarks", f), "\n".join(l) + ("\n" if r.random() < 0.5 else ""))
        rc, so, se = pred.run(s, "clean_smt_comp_results.py", [], 60, py=PY)
        if rc is None:
            return (), 0, None, "timeout", {}
        got = [(lines(os.path.join(base, "experiments_QF_SLIA/benchmarks_QF_SLIA_%s.csv" % x)), lines(os.path.join(base, "experiments_QF_SLIA/times_QF_SLIA_%s.csv" % x)))
               for x in ("30-to-300", "300-to-1200")]
    bad = None
    if rc != 0:
        bad = "exit %s: %s" % (rc, (so + se)[-300:])
    for (gb, gt), w, x in zip(got, want, ("30-to-300", "300-to-1200")):
        if not bad and (gb != [n for n, _ in w] or not gt or gt[0] != "time" or not same(gt[1:], [t for _, t in w])):
            bad = "%s: %s, %s instead of %s" % (x, gb, gt, w)
    return ("comp", tuple(text)), len(want[0]) + len(want[1]), bad, None, {"results": text, "excluded": ex, "got": got, "want": want}


# ------------------------------------------------------------------ eager versus lazy

def stats(r, tiny=False):
    if tiny:  # every summand and factor of the formula matters
        p = {"vars": r.randint(1, 5), "constraints": r.randint(1, 6), "a_max": r.randint(1, 3), "b_max": r.randint(0, 4), "k": r.choice([0, 1, 2]), "w": r.randint(1, 3)}
        p["bound"] = r.choice(sorted(pred.bounds(p)))
        return p
    p = {"vars": r.randint(1, 4000), "constraints": r.randint(1, 20000), "a_max": r.choice([1, 1, 1, 2, 3, 100]), "b_max": r.choice([0, 1, 5, 300, 2 ** 31 - 1, 2 ** 63, 10 ** 25]),
         "k": r.choice([0, 0, 0, 1, 6, 14]), "w": r.choice([1, 2, 3, 8])}
    p["bound"] = r.choice(sorted(pred.bounds(p)))
    return p


def clean(s, theory, results, params):
    """-> error, undecided, rows of the three files."""
    base = os.path.join(os.path.dirname(s), "Eager_Lazy")
    write(os.path.join(base, theory + "_results.csv"), results, encoding="utf-8")
    write(os.path.join(base, theory + "_params.out"), params)
    rc, so, se = pred.run(s, "clean_eager_lazy_data.py", [theory], 60, env={"PYTHONIOENCODING": "utf-8", "LC_ALL": "C.UTF-8"}, py=PY)
    if rc is None:
        return None, "timeout", None
    return (None if rc == 0 else "exit %s: %s" % (rc, (so + se)[-300:])), None, [lines(os.path.join(base, "%s_%s.csv" % (x, theory))) for x in ("benchmarks", "best_solver", "features")]


def judge(bench, best, sets, got):
    if got[0] != ["benchmarks"] + bench:
        return "benchmarks %s instead of %s" % (got[0], bench)
    if not got[1] or got[1][0] != "solver" or len(got[1]) != len(best) + 1 or any(g not in b for g, b in zip(got[1][1:], best)):
        return "fastest solvers %s instead of %s" % (got[1], best)
    if not got[2] or got[2][0] != "vars,constraints,a_max,b_max,k,w,bound" or len(got[2]) != len(bench) + 1:
        return "features %s" % got[2]
    for b, l in zip(bench, got[2][1:]):
        w, bounds = pred.merged(sets[b])
        g = [int(x) for x in l.split(",")]
        if g[:6] != w or len(g) != 7 or g[6] not in bounds:
            return "%s: features %s instead of %s with bound %s" % (b, g, w, sorted(bounds))


def param_text(order, sets, r):
    out = []
    for b in order:
        out.append("Encoding %s%s" % (r.choice(["/home/x/QF_LIA/", "./", "/", "/a b/c/"]), b))
        out += ["vars: %d, constraints: %d, a_max: %d, b_max: %d, k: %d, w: %d, bound: %d bits" % tuple(p[x] for x in ("vars", "constraints", "a_max", "b_max", "k", "w", "bound")) for p in sets[b]]
    return "\n".join(out)


def eager(i):
    r = vlib.rng("C20e", i)
    theory = r.choice(["idl", "lia"])
    solvers = r.sample(["cvc4", "z3", "sat"], 3)
    if r.random() < 0.3:
        solvers = solvers[:2] + ["yices"] + solvers[2:]
    bench = ["b%d%s" % (j, r.choice([".smt2", ".slack.smt2", "", "-1.smt2"])) for j in range(r.randint(1, 12))]
    r.shuffle(bench)
    tiny = {b: r.random() < 0.5 for b in bench}
    sets = {b: [stats(r, tiny.get(b)) for _ in range(r.choice([1, 1, 2, 2, 3, 8]))] for b in bench + ["unused.smt2"]}
    best, res = [], [r.choice(["bench", "\ufeffbench"]) + "," + ",".join(solvers)]
    for b in bench:
        ts = [r.choice([0.035, 3600.1, 3600.917, 5, 17.0, round(r.uniform(0, 4000), 3), 9.5, 10]) for _ in solvers]
        best.append([s for s, t in zip(solvers, ts) if t == min(ts)])
        res.append("%s,%s" % (b, ",".join(map(str, ts))))
    order = list(sets)
    r.shuffle(order)
    results, params = "\n".join(res) + r.choice(["\n", ""]), param_text(order, sets, r) + r.choice(["\n", ""])
    with vlib.Scratch() as d:
        bad, un, got = clean(pred.tree(d), theory, results, params)
    if un:
        return (), 0, None, un, {}
    return ("eager", results, params), len(bench), bad or judge(bench, best, sets, got), None, {"results": results, "params": params, "got": got}


def published(theory):
    """The files that come with the repository."""
    base = os.path.join(vlib.REPO, "amzn-smt-prediction", "Eager_Lazy")
    with open(os.path.join(base, theory + "_results.csv"), encoding="utf-8") as f:
        results = f.read()
    with open(os.path.join(base, theory + "_params.out")) as f:
        params = f.read()
    rows = [l.split(",") for l in results.splitlines()]
    bench, best = [l[0] for l in rows[1:]], []
    for l in rows[1:]:
        ts = [float(x) for x in l[1:]]
        best.append([s for s, t in zip(rows[0][1:], ts) if t == min(ts)])
    sets, cur = {}, None
    for l in params.splitlines():
        if l.startswith("Encoding"):
            cur = sets.setdefault(l.split("/")[-1], [])
        elif l.strip():
            cur.append({k: int(x.split()[0]) for k, x in (y.split(": ") for y in l.split(", "))})
    with vlib.Scratch() as d:
        bad, un, got = clean(pred.tree(d), theory, results, params)
    if un:
        return (), 0, None, un, {}
    return ("published", theory), len(bench), bad or judge(bench, best, sets, got), None, {"theory": theory, "got": got}


# ------------------------------------------------------------------ with and without --strings-fmf

RACER = """#!/bin/sh
for a; do last=$a; done
case " $* " in *" --strings-exp "*) ;; *) exit 1;; esac
case " $* " in *" --strings-fmf "*) exec sleep $(cat "$last.fmf");; *) exec sleep $(cat "$last.nofmf");; esac
"""


def faster(i, again=False):
    r = vlib.rng("C20f", i)
    names, want, times = [], ([], []), []
    with vlib.Scratch() as d:
        s = pred.tree(d)
        pred.exe(os.path.join(s, "..", "solvers", "cvc4"), RACER)
        for j in range(r.randint(2, 3)):
            n = "/" + r.choice(["", "d/", "a b/", "x.y/"]) + "b%d%s" % (j, r.choice([".smt2", "", "'.smt2", "$x.smt2"]))
            a, b = r.choice([(0, 2), (2, 0), (0.5, 2.5), (3, 1)])
            write(os.path.join(d, "amzn-smt-prediction", "bench" + n + ".fmf"), str(a))
            write(os.path.join(d, "amzn-smt-prediction", "bench" + n + ".nofmf"), str(b))
            names.append(n)
            times.append((a, b))
            want[a > b].append(n)
        write(os.path.join(s, "list"), "\n".join(names) + r.choice(["\n", ""]))
        rc, so, se = pred.run(s, "find_faster_fmf.py", ["list", "../bench"], 120, py=PY)
        if rc is None:
            return (), 0, None, "timeout", {}
        got = [lines(os.path.join(s, x)) for x in ("faster_fmf.csv", "slower_fmf.csv", "runtimes_fmf_exp.csv")]
    bad = None
    if rc != 0:
        bad = "exit %s: %s" % (rc, se[-300:])
    elif got[0] != want[0] or got[1] != want[1]:
        bad = "faster %s, slower %s instead of %s" % (got[0], got[1], want)
    else:
        try:
            rows = [tuple(map(float, l.split(","))) for l in got[2]]
            if len(rows) != len(times) or any(x < a - 0.01 or y < b - 0.01 or (x < y) != (a < b) for (x, y), (a, b) in zip(rows, times)):
                bad = "runtimes %s instead of about %s" % (rows, times)
        except ValueError:
            bad = "runtimes %s" % got[2]
    if bad and not again:  # the machine may have been too busy
        return faster(i, True)
    return ("faster", tuple(names), tuple(times)), len(names), bad, None, {"names": names, "times": times, "got": got}


# ------------------------------------------------------------------ modernized benchmarks

def modern(i):
    r = vlib.rng("C20m", i)
    files, names = {}, []
    with vlib.Scratch() as d:
        s = pred.tree(d)
        p = os.path.join(d, UPDATER, "release", UPDATER)
        os.makedirs(os.path.dirname(p))
        os.symlink(TOOL, p)
        root = os.path.join(d, "amzn-smt-prediction", "bench")
        for j in range(r.randint(1, 6)):
            stem = "/" + r.choice(["", "d/", "a b/", "x.y/", "d_upt/"]) + "b%d%s" % (j, r.choice(["", ".z", "_upt", " c", "'$", ".smt2"]))
            ext = r.choice([".smt2", ".smtlib"])
            g = upd.Wild(r, True)
            head, body = g.script(r.choice([0, 3]))
            head = [x for x in head if x[0] != "set-logic"]
            cmds = [("set-logic", "ALL")] + head + body
            write(root + stem + ext, "\n".join(upd.show(x, r) for x in cmds) + "\n")
            rc, so, se = vlib.run_cli([TOOL, root + stem], d, 30)
            try:
                with open(root + stem + "_upt" + ext) as f:
                    files[stem + "_upt" + ext] = f.read()
                os.remove(root + stem + "_upt" + ext)
            except OSError:
                files[stem + "_upt" + ext] = None
            names.append(stem + "_upt" + ext)
        if r.random() < 0.2:
            names.insert(r.randint(0, len(names)), "/missing_upt.smt2")
        write(os.path.join(s, "list"), "\n".join(names) + r.choice(["\n", ""]))
        before = {os.path.join(a, f) for a, _, fs in os.walk(d) for f in fs}
        rc, so, se = pred.run(s, "modernize_benchmarks.py", ["list", "../bench"], 120, py=PY)
        if rc is None:
            return (), 0, None, "timeout", {}
        got = {}
        for n in files:
            try:
                with open(root + n) as f:
                    got[n] = f.read()
            except OSError:
                got[n] = None
        extra = {os.path.join(a, f) for a, _, fs in os.walk(d) for f in fs} - before - {root + n for n in files}
    bad = None
    if rc != 0:
        bad = "exit %s: %s" % (rc, se[-300:])
    elif extra:
        bad = "files that aren't in the list: %s" % sorted(extra)
    else:
        for n, w in files.items():
            if got[n] != w:
                bad = "%s is %r instead of %r" % (n, got[n] and got[n][:200], w and w[:200])
    return ("modern", tuple(files.items())), len(files), bad, None, {"names": names}


def run(item):
    return item[0], {"comp": comp, "eager": eager, "published": published, "faster": faster, "modern": modern}[item[0]](item[1])


items = [("published", "idl"), ("published", "lia")] + [("faster", j) for j in range(vlib.scale(8, 60))]
items += [x for j in range(vlib.scale(500, 8000)) for x in (("comp", j), ("eager", j)) + ((("modern", j),) if j % 4 == 0 else ())]
for kind, (key, rows, bad, un, info) in vlib.fanout(run, items, budget=vlib.scale(80, 600)):
    if un:
        c.unsure(un)
        continue
    c.seen(key, rows >= 2, {"input": str(key)[:300]})
    c.count(kind)
    c.count("rows", rows)
    if bad:
        c.violation("rows", "%s: %s" % (kind, bad), dict(info, kind=kind, error=bad))
sys.exit(c.finish())
