"""C21: data_processing.py tells what happened in an experiment, one row per query."""
import json, math, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "..", "lib"))
import vlib

c = vlib.Check(
    "C21",
    "data_processing.py (with stand-ins for pandas and matplotlib, which aren't installed) on directories as test_and_transform.sh "
    "leaves them: simulated experiments of known course (results of all kinds, stages that print to stderr, crash or are killed at any "
    "point, lists of queries, subdirectories, unrelated files) and experiments really run through the script with stand-in solvers; "
    "pairwise_diff_count.sh on directories of transformed queries; parallel_test_transform_list.sh (with stand-ins for parallel and the script it runs) "
    "on lists of queries; "
    "monitors: every row and every number of the summary is the one that the course of the experiment gives; non-trivial: at least 2 "
    "queries in the table; distinct by directory contents", min_nontrivial=100)
LIB = os.path.join(HERE, "..", "lib")
SCRIPT = os.path.join(vlib.REPO, "amzn-smt-string-transformer", "data_processing.py")
RUNNER = os.path.join(vlib.REPO, "amzn-smt-string-transformer", "test_and_transform.sh")
TIMEOUT = 3600
COLS = ["query", "orig_res", "trans_res", "recon_res", "orig_solver_time", "convert_time", "trans_solver_time", "orig_size", "trans_size",
        "map_size", "num_char_to_char_lits"]


def write(p, t):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w") as f:
        f.write(t)


def duration(r):
    m = r.choice([0, 0, 0, 0, 1, 2, 9, 10, 59])
    ms = r.choice([0, 1, 3, 10, 999, 1000, 59999, r.randint(0, 59999)])
    return "%dm%d.%03ds" % (m, ms // 1000, ms % 1000), m * 60 + ms / 1000


OUTPUTS = [("sat\n", "sat"), ("unsat\n", "unsat"), ("unknown\n", "unknown"), ("timeout\n", "timeout"), ("sat\n(model\n  (define-fun x () String \"unsat\")\n)\n", "sat"),
           ("sat\n((x \"a\"))\n", "sat"), ("unsat\n(error \"line 3 column 10: model is not available\")\n", "unsat"), ("sat", "sat"), ("unsat", "unsat"),
           ("(error \"line 1 column 2: sat\")\n", "error"), ("(error \"Parse Error: x\")\nsat\n", "error"), ("", "no_check_sat"), ("\n", "no_check_sat"), ("\nsat\n", "no_check_sat"),
           ("\"\"\n", "gnu_timeout"), ("SAT\n", "sat"), ("Unsat\n", "unsat"), ("sat: no model\n", "sat: no model"), ("sat: No model\n", "sat: no model"), ("unsupported\n", "unsupported"), ("?\n", "?"),
           ("cvc4 interrupted by timeout.\n", "cvc4 interrupted by timeout.")]
NOISE = ["Error: Differs\n", "warning: unused option\n", "./test_and_transform.sh: line 22: 12345 Segmentation fault      (core dumped) $solver $solver_option\n",
         "\n", "Error: Unable to open /x/y.smtlib\n\nCaused by:\n    No such file or directory (os error 2)\n", "thread 'main' panicked at src/x.rs:3\nnote: run with `RUST_BACKTRACE=1`\n",
         "real problems ahead\n", "the user is warned\n", "sys: 3\n", "z3 a.smtlib\n"]


def stage(r, command, kill, noisy):
    """-> text in the file of times, seconds of the user or None, whether the script goes on"""
    out = command + "\n" + ("".join(r.choice(NOISE) for _ in range(r.randint(1, 2))) if noisy else "")
    if kill:
        return out, None, False
    real, user, sys_ = duration(r), duration(r), duration(r)
    return out + "\nreal\t%s\nuser\t%s\nsys\t%s\n" % (real[0], user[0], sys_[0]), user[1], True


def query(r, d, q):
    """Writes the files of an experiment with q; -> expected row."""
    p = os.path.join(d, q)
    solver = r.choice(["z3", "cvc4 --lang=smtlib --strings-exp", "/usr/bin/z3 -T:600", "cvc4 --produce-models"])
    where = r.choice(["./", "TestDirectory/", "/home/me/x/", "", "a/../"])
    killed = r.choice([0, 1, 2, 3]) if r.random() < 0.25 else None
    row = dict.fromkeys(COLS)
    row["query"] = q
    row["num_char_to_char_lits"] = 0
    text = "x" * r.choice([0, 1, 100, r.randint(0, 5000)])
    times = ""
    smt = r.random() < 0.95
    if smt:
        write(p + ".smtlib", text)
        row["orig_size"] = len(text)
    row["orig_res"] = row["trans_res"] = row["recon_res"] = "not_run"

    def output(suffix):
        t, res = r.choice(OUTPUTS[:4] + OUTPUTS)
        write(p + suffix + ".out", t)
        return res

    go = True
    t, row["orig_solver_time"], go = stage(r, "%s %s%s.smtlib" % (solver, where, q), killed == 0, r.random() < 0.15)
    times += t
    row["orig_res"] = output("")
    if go:
        t, row["convert_time"], go = stage(r, "./release/release/amzn-smt-string-transformer convert %s%s" % (where, q), killed == 1, r.random() < 0.2)
        times += t
        if r.random() < 0.85:
            n = r.choice([0, 1, 5, 3000])
            write(p + "_transformed.smtlib", "y" * n)
            row["trans_size"] = n
        c2c = r.choice([[], ["a"], ["a", "b", ""], [str(k) for k in range(r.randint(0, 40))]])
        mapping = {"char_map": [["a", "b"]], "string_map": [["a", "b"]], "char_to_char_string_lits": c2c, "persistent_string_map": [["q", "r"]] * r.randint(0, 3)}
        x = r.random()
        if x < 0.8:
            js = json.dumps(mapping, indent=r.choice([None, 2]))
            row["num_char_to_char_lits"] = len(c2c)
        elif x < 0.85:
            del mapping["char_to_char_string_lits"]
            js = json.dumps(mapping)
        elif x < 0.9:
            js = json.dumps(mapping)[:-1 - r.randint(0, 10)]
        else:
            js = None
        if js is not None:
            write(p + "_mapping.json", js)
            row["map_size"] = len(js)
    if go:
        t, row["trans_solver_time"], go = stage(r, "%s %s%s_transformed.smtlib" % (solver, where, q), killed == 2, r.random() < 0.15)
        times += t
        row["trans_res"] = output("_transformed")
    if go and r.random() < 0.3:
        row["recon_res"] = output("_recon_check")
    if killed == 0 and r.random() < 0.3:
        times = times[:r.randint(0, len(times) - 1)]
        if r.random() < 0.3:
            times = None
    if times is not None:
        write(p + "_times.out", times)
    if row["orig_solver_time"] is None:
        row["orig_res"] = "gnu_timeout"
    if row["trans_solver_time"] is None:
        row["trans_res"] = "gnu_timeout"
    return row, times is not None


def close(a, b):
    if a is None or b is None:
        return a is b
    if isinstance(b, str) or isinstance(a, str):
        return a == b
    return abs(a - b) <= 1e-9 * max(1, abs(b))


def mean(v):
    v = [x for x in v if x is not None]
    return sum(v) / len(v) if v else None


def std(v):
    v = [x for x in v if x is not None]
    return math.sqrt(sum((x - mean(v)) ** 2 for x in v) / (len(v) - 1)) if len(v) > 1 else None


def summary(rows):
    def n(f):
        return sum(1 for x in rows if f(x["orig_res"], x["trans_res"]))
    counts = {
        "no_check_sat": n(lambda o, t: o == "no_check_sat"),
        "all_gnup_timeout": n(lambda o, t: o == t == "gnu_timeout"),
        "trans_only_gnup_timeout": n(lambda o, t: o != "gnu_timeout" == t),
        "both_unsat": n(lambda o, t: o == t == "unsat"),
        "both_sat": n(lambda o, t: o == "sat" and t in ("sat", "sat: no model")),
        "sat_no_model": n(lambda o, t: t == "sat: no model"),
        "both_timeout": n(lambda o, t: o == t == "timeout"),
        "orig_only_timeout": n(lambda o, t: o == "timeout" != t),
        "trans_only_timeout": n(lambda o, t: o != "timeout" == t),
        "orig_sat_trans_unsat": n(lambda o, t: (o, t) == ("sat", "unsat")),
        "orig_unsat_trans_sat": n(lambda o, t: (o, t) == ("unsat", "sat"))}
    col = lambda k: [x[k] for x in rows]
    pair = lambda names: {"%s_%s_%s" % (a, w, x): f(col(k)) for a, x, k in names for w, f in (("avg", mean), ("stdev", std))}
    return [counts,
            pair([("orig", "time", "orig_solver_time"), ("trans", "time", "trans_solver_time"), ("convert", "time", "convert_time")]),
            pair([("orig", "size", "orig_size"), ("trans", "size", "trans_size"), ("map", "size", "map_size")])]


def rows_of(t):
    cols = t["columns"]
    n = len(t["index"])
    return [{k: v[i] for k, v in cols.items()} for i in range(n)]


def judge(got, want, ordered):
    """-> description of the first difference, or None"""
    if "error" in got:
        return "exception: " + got["error"][-600:]
    ret, rel = rows_of(got["ret"]), rows_of(got["rel"])
    if ordered and [x["query"] for x in ret] != [x["query"] for x in want]:
        return "queries %s instead of %s" % ([x["query"] for x in ret], [x["query"] for x in want])
    if sorted(x["query"] for x in ret) != sorted(x["query"] for x in want):
        return "queries %s instead of %s" % (sorted(x["query"] for x in ret), sorted(x["query"] for x in want))
    by = {x["query"]: x for x in want}
    for x in ret:
        for k in COLS:
            if k not in x or not close(x[k], by[x["query"]][k]):
                return "%s of %s is %r instead of %r" % (k, x["query"], x.get(k), by[x["query"]][k])
    # the rows that the user works with: unknown times count as the timeout
    want_rel = [dict(x) for x in want if x["orig_res"] != "not_run"]
    for x in want_rel:
        for k in ("orig_solver_time", "trans_solver_time"):
            x[k] = TIMEOUT if x[k] is None else x[k]
    if sorted(x["query"] for x in rel) != sorted(x["query"] for x in want_rel):
        return "rel_results has %s instead of %s" % (sorted(x["query"] for x in rel), sorted(x["query"] for x in want_rel))
    by = {x["query"]: x for x in want_rel}
    for x in rel:
        for k in COLS:
            if not close(x.get(k), by[x["query"]][k]):
                return "rel_results: %s of %s is %r instead of %r" % (k, x["query"], x.get(k), by[x["query"]][k])
    for name, rows in (("ret_frame", want), ("rel_results", want_rel)):
        for t, w in zip(got["summary_" + name], summary(rows)):
            vals = list(t["columns"].values())
            g = dict(zip(t["index"], vals[0])) if len(vals) == 1 else None
            if g is None or set(g) != set(w):
                return "summary of %s: %s instead of %s" % (name, t, w)
            for k in w:
                if not close(g[k], w[k]):
                    return "summary of %s: %s is %r instead of %r" % (name, k, g[k], w[k])
    if got["csv"] != got["csv_expected"]:
        return "printDFToFile wrote %r" % got["csv"][:300]
    return None


def run(d, args, cwd):
    out = os.path.join(d, "result.json")
    rc, so, se = vlib.run_cli(["/usr/bin/python3", "-E", os.path.join(LIB, "dp_driver.py"), os.path.join(LIB, "stubs"), SCRIPT, out] + args, cwd=cwd, timeout=60, prompt=True)
    if rc is None:
        return None
    try:
        with open(out) as f:
            return json.load(f)
    except (OSError, ValueError):
        return {"error": "no result: exit %s %s" % (rc, (so + se)[-500:])}


NAMES = ["q%d", "example%d", "bench-%d_in", "p_%d", "Query_%d", "in%d", "%d", "a_b_%d_in", "times%d", "transformed_%d"]
JUNK = ["README.md", "notes.txt", "filenames.txt", "job.log", "plot.png", "old.csv", "in.txt"]


def simulated(i):
    r = vlib.rng("C21", i)
    listed = r.random() < 0.4
    with vlib.Scratch() as d:
        data = os.path.join(d, r.choice(["TestDirectory", "data.d", "x"]))
        os.makedirs(data)
        want, files = [], []
        for k in range(r.choice([1, 2, 3, 5, 8, 12])):
            q = r.choice(NAMES) % k
            if listed and r.random() < 0.2:
                q = r.choice(["sub/", "sub/dir/"]) + q
            row, seen = query(r, data, q)
            files.append(q + ".smtlib")
            # the directory alone doesn't tell that a query was run whose script was killed at once
            if seen or listed:
                want.append(row)
            else:
                for s in (".out", ".smtlib"):
                    if os.path.exists(os.path.join(data, q + s)):
                        os.remove(os.path.join(data, q + s))
        for j in JUNK:
            if r.random() < 0.2:
                write(os.path.join(data, j), "sat\n")
        args = [data]
        if listed:
            keep = [k for k in range(len(files)) if r.random() < 0.9] or [0]
            if r.random() < 0.5:
                r.shuffle(keep)
            want = [want[k] for k in keep]
            write(os.path.join(d, "list.txt"), "\n".join(files[k] for k in keep) + r.choice(["", "\n", "\n"]))
            args = [r.choice([data, os.path.basename(data)]), r.choice([os.path.join(d, "list.txt"), "list.txt"])]
        if not want:
            return (), 0, None, "nothing", {}
        content = {}
        for base, _, fs in os.walk(d):
            for f in fs:
                with open(os.path.join(base, f)) as h:
                    content[os.path.relpath(os.path.join(base, f), d)] = h.read()[:2000]
        got = run(d, args, d)
    if got is None:
        return (), 0, None, "timeout", {}
    if "gap" in got:
        return (), 0, None, "stand-in lacks " + got["gap"], {}
    bad = judge(got, want, listed)
    return (json.dumps(content, sort_keys=True),), len(want), bad, None, {"args": args, "files": content, "want": want, "got": got}


SOLVER = """#!/bin/bash
f="${@: -1}"
case "$f" in *loud*) echo "warning: $f" >&2;; esac
case "$f" in *crash*) kill -SEGV $$;; esac
if [ ! -f "$f" ]; then echo "(error \\"no such file\\")"; exit 1; fi
head -n 1 "$f"
"""
TOOL = """#!/bin/bash
while [ $# -gt 0 ]; do case "$1" in --input-file) f="$2"; shift;; esac; shift; done
case "$f" in *fails*) echo "Error: Differs" >&2; exit 1;; esac
b="${f%.smtlib}"
cp "$f" "${b}_transformed.smtlib"
echo '{"char_to_char_string_lits": ["a", "b"]}' > "${b}_mapping.json"
"""


def real(i):
    """An experiment that is really run through the script (with stand-ins for solver and transformer)."""
    r = vlib.rng("C21r", i)
    with vlib.Scratch() as d:
        data = os.path.join(d, "data")
        os.makedirs(data)
        write(os.path.join(d, "solver"), SOLVER)
        tool = os.path.join(d, "release", "release", "amzn-smt-string-transformer")
        write(tool, TOOL)
        for p in (os.path.join(d, "solver"), tool):
            os.chmod(p, 0o755)
        want = []
        for k in range(r.randint(2, 4)):
            q = r.choice(["plain%d", "loud%d", "fails%d", "loud-fails%d", "crash%d", "plain%d_in"]) % k
            res = r.choice(["sat", "unsat", "unknown"])
            write(os.path.join(data, q + ".smtlib"), res + "\n(model)\n")
            p = subprocess.run(["bash", RUNNER, "./solver", "data/%s.smtlib" % q, "false"] + r.choice([[], ["-T:60"]]), cwd=d, stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, env={"PATH": "/usr/bin:/bin", "LC_ALL": "C"})
            users = []
            with open(os.path.join(data, q + "_times.out")) as f:
                for line in f:
                    if line.startswith("user\t"):
                        m, s = line[5:].strip().rstrip("s").split("m")
                        users.append(int(m) * 60 + float(s))
            if len(users) != 3:
                return (), 0, None, "script didn't complete", {}
            failed, crash = "fails" in q, "crash" in q
            size = len(res) + 9
            want.append(dict(zip(COLS, [
                q, "no_check_sat" if crash else res, "no_check_sat" if crash else "error" if failed else res, "not_run"] + users
                + [size, None if failed else size, None if failed else os.path.getsize(os.path.join(data, q + "_mapping.json")), 0 if failed else 2])))
        got = run(d, [data], d)
    if got is None:
        return (), 0, None, "timeout", {}
    if "gap" in got:
        return (), 0, None, "stand-in lacks " + got["gap"], {}
    return ("real", i), len(want), judge(got, want, False), None, {"want": want, "got": got}


COMPARE = os.path.join(vlib.REPO, "amzn-smt-string-transformer", "pairwise_diff_count.sh")


def compared(i):
    """pairwise_diff_count.sh lists, for each transformed query of a directory, those that equal it."""
    r = vlib.rng("C21p", i)
    texts = r.sample(["", "\n", "(check-sat)\n", "(check-sat)", "(check-sat)\n\n", "(check-sat) \n", "(Check-sat)\n", "a\nb\n", "b\na\n", "\t(check-sat)\n", "\u00e4\n", "x" * 70000, "x" * 69999 + "y"],
                     r.randint(1, 5))
    with vlib.Scratch() as d:
        data = os.path.join(d, r.choice(["data", "data.d", "d1", "my data", "a*"]))
        os.makedirs(data)
        files = {}
        for k in range(r.choice([1, 2, 3, 5, 9])):
            q = (r.choice(NAMES) % k + "_transformed.smtlib" if r.random() < 0.9 else r.choice(["with space %d", "star*%d", "[%d]", "-%d"]) % k + "_transformed.smtlib")
            files[q] = r.choice(texts)
        others = {j: r.choice(texts) for j in ("q.smtlib", "q_transformed.out", "q_transformed.smt2", "_transformed.smtlib.old") if r.random() < 0.5}
        for q, t in list(files.items()) + list(others.items()):
            write(os.path.join(data, q), t)
        arg = r.choice([data, os.path.basename(data)])
        try:
            p = subprocess.run(["bash", COMPARE, arg], cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60,
                               env={"PATH": "/usr/bin:/bin", "LC_ALL": "C"})
        except subprocess.TimeoutExpired:
            return (), 0, None, "timeout", {}
        after = {q: open(os.path.join(data, q), encoding="utf-8", newline="").read() for q in os.listdir(data)}
    bad = "it changes the files" if after != dict(files, **others) else None
    got, same = {}, []
    for line in p.stdout.decode("utf-8", "replace").splitlines():
        if line.startswith(" --- "):
            same.append(line[5:].strip())
        elif line.strip():
            q, _, n = line.rpartition(":")
            if q.strip() in got:
                bad = bad or "%r is listed twice" % q.strip()
            got[q.strip()] = (sorted(same), n.strip())
            same = []
    want = {}
    for q in files:
        eq = sorted("%s/%s" % (arg, x) for x in files if files[x] == files[q])
        want["%s/%s" % (arg, q)] = (eq, str(len(eq)))
    if got != want and not bad:
        k = [x for x in sorted(set(got) | set(want)) if got.get(x) != want.get(x)][0]
        bad = "%s: %s instead of %s" % (k, got.get(k), want.get(k))
    return ("compared", arg, json.dumps(files, sort_keys=True)), len(files), bad, None, {"want": [], "files": files, "arg": arg, "expected": want, "stdout": p.stdout.decode("utf-8", "replace")}


BATCH = os.path.join(vlib.REPO, "amzn-smt-string-transformer", "parallel_test_transform_list.sh")
# as much of GNU parallel as such a script may use: -j, -a, --timeout, --joblog, {} (quoted for the shell), the list on stdin
PARALLEL = r"""#!/usr/bin/python3 -E
import concurrent.futures, os, shlex, subprocess, sys
a = sys.argv[1:]
src, jobs, log = None, 8, None
values = {"-j": "jobs", "--jobs": "jobs", "-a": "src", "--arg-file": "src", "--timeout": "t", "--joblog": "log"}
flags = {"--will-cite", "--no-notice", "--gnu", "--line-buffer", "--lb", "-k", "--keep-order", "--bar", "--progress"}
got = {}
while a and a[0].startswith("-"):
    o, _, v = a[0].partition("=")
    if o in values and "=" in a[0]:
        got[values[o]] = v; a = a[1:]
    elif a[0] in values:
        got[values[a[0]]] = a[1]; a = a[2:]
    elif a[0] in flags:
        a = a[1:]
    else:
        open(os.environ["GAP"], "w").write(a[0]); sys.exit(255)
if any(":::" in x for x in a) or got.get("t", "1")[-1:] not in "0123456789smhd%":
    open(os.environ["GAP"], "w").write("syntax"); sys.exit(255)
lines = (open(got["src"]) if "src" in got else sys.stdin).read().splitlines()
cmd = " ".join(a)
if "{" in cmd.replace("{}", ""):
    open(os.environ["GAP"], "w").write("replacement"); sys.exit(255)
def one(l):
    c = cmd.replace("{}", shlex.quote(l)) if "{}" in cmd else cmd + " " + shlex.quote(l)
    return subprocess.run(["bash", "-c", c], stdin=subprocess.DEVNULL).returncode
with concurrent.futures.ThreadPoolExecutor(4) as e:
    rcs = list(e.map(one, lines))
if "log" in got:
    open(got["log"], "w").write("Seq\n" + "".join("%d\n" % k for k in rcs))
sys.exit(min(101, sum(k != 0 for k in rcs)))
"""
ONE = """#!/usr/bin/python3 -E
import json, os, sys
with open(os.path.join("rec", str(os.getpid())), "w") as f:
    json.dump(sys.argv[1:], f)
sys.exit(len(sys.argv[2]) % 2)
"""


def batch(i):
    """parallel_test_transform_list.sh runs each query of a list once, as its arguments say."""
    r = vlib.rng("C21b", i)
    with vlib.Scratch() as d:
        for n, t in (("bin/parallel", PARALLEL), ("test_and_transform.sh", ONE)):
            write(os.path.join(d, n), t)
            os.chmod(os.path.join(d, n), 0o755)
        os.makedirs(os.path.join(d, "rec"))
        files = [r.choice(["q%d.smtlib", "sub/q%d.smt2", "a-b_%d.smt2", "x.y%d.smt2", "10_%d", "a b%d.smt2", "it's%d.smt2", "$x%d.smt2", "[%d].smt2"]) % k for k in range(r.choice([1, 2, 3, 10, 40]))]
        write(os.path.join(d, "list.txt"), "\n".join(files) + r.choice(["", "\n"]))
        solver, path, flag = r.choice(["z3", "cvc4-1.7", "./solver"]), r.choice([".", "TestDirectory", "TestDirectory/", "a/b", "/d"]), r.choice(["true", "false"])
        opts = r.sample(["--lang=smtlib", "--strings-exp", "--produce-models", "--quiet", "-T:600", "-j", "8", "false", "--timeout"], r.choice([0, 0, 1, 2, 4, 9]))
        p = subprocess.run(["bash", BATCH, r.choice(["list.txt", os.path.join(d, "list.txt")]), solver, path, flag] + opts, cwd=d, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120,
                           env={"PATH": os.path.join(d, "bin") + ":/usr/bin:/bin", "LC_ALL": "C", "GAP": os.path.join(d, "gap"), "HOME": d})
        if os.path.exists(os.path.join(d, "gap")):
            return (), 0, None, "stand-in for parallel lacks something", {}
        got = []
        for n in os.listdir(os.path.join(d, "rec")):
            with open(os.path.join(d, "rec", n)) as f:
                got.append(json.load(f))
    got = sorted([a[0], os.path.normpath(a[1])] + a[2:] if len(a) > 1 else a for a in got)
    want = sorted([solver, os.path.normpath(path + "/" + q), flag] + opts for q in files)
    bad = None
    if got != want:
        extra, missing = [x for x in got if x not in want], [x for x in want if x not in got]
        bad = "runs %s that aren't asked for, lacks %s, %d runs for %d queries" % (extra[:2], missing[:2], len(got), len(want))
    return ("batch", json.dumps(want)), len(want), bad, None, {"want": [], "expected": want, "got": got, "output": p.stdout.decode("utf-8", "replace")[-500:]}


def item(x):
    kind, i = x
    try:
        return x, {"simulated": simulated, "real": real, "compared": compared, "batch": batch}[kind](i)
    except subprocess.TimeoutExpired:
        return x, ((), 0, None, "timeout", {})


items = [("simulated", i) for i in range(vlib.scale(900, 12000))]
reals = [x for i in range(vlib.scale(60, 600)) for x in (("real", i), ("compared", 2 * i), ("compared", 2 * i + 1), ("batch", i))]
step = max(1, len(items) // len(reals))
todo = []
for k, x in enumerate(items):
    todo.append(x)
    if k % step == 0 and reals:
        todo.append(reals.pop())
for x, (key, n, bad, unsure, info) in vlib.fanout(item, todo, budget=vlib.scale(60, 600)):
    c.count(x[0])
    if unsure:
        c.unsure(unsure)
        if unsure == "timeout" and c.inconclusive[unsure] >= 3:  # it takes a tenth of a second
            c.violation("no-answer", "the script doesn't finish", {"item": list(x)})
        continue
    c.seen(key, nontrivial=n >= 2, sample=str(info.get("want"))[:600])
    for row in info["want"]:
        for k in ("orig_res", "trans_res", "recon_res"):
            c.count("%s:%s" % (k, row[k]))
        c.count("stages_timed", sum(row[k] is not None for k in ("orig_solver_time", "convert_time", "trans_solver_time")))
        c.count("rows")
    if bad:
        c.violation("compared: wrong list of equal queries" if x[0] == "compared" else "batch: wrong runs" if x[0] == "batch" else "%s: the table doesn't tell what happened" % x[0], bad, dict(info, item=list(x), difference=bad))
sys.exit(c.finish())
