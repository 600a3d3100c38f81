"""C05: `solve` with an external SAT solver: honest solvers give right answers, faulty ones never a verdict."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import arith, eager, vlib

c = vlib.Check(
    "C05",
    "the shipped program's `solve` on random scripts, with a real SAT solver (varisat behind a "
    "SAT-competition interface) wrapped by stand-ins that vary the legal output format or inject a fault "
    "(crash before/after reading, kill, garbage, truncation, missing or contradictory answer, non-UTF-8, "
    "missing program); the oracle is z3 + our evaluator on the printed model; non-trivial: the stand-in ran "
    "and the program's exit code and output were judged; distinct by (script, behaviour)",
    level="fault_enumeration", min_nontrivial=50)

# name -> (script, class). `honest`: must be answered as the semantics demand; `fault`: must fail.
HEAD = "#!/bin/bash\n"
BEHAVIOURS = {
    "plain": (HEAD + 'exec "$REAL"\n', "honest"),
    "comments": (HEAD + 'echo "c hello s SATISFIABLE"; echo "c"; "$REAL" | sed "s/^v/v/; i c between"; exit 0\n', "honest"),
    "one-v-line": (HEAD + '"$REAL" > "$T"; grep "^s" "$T"; grep -q "^v" "$T" && { printf v; grep "^v" "$T" | sed "s/^v//" | tr -d "\\n"; echo; }; exit 10\n', "honest"),
    "literal-per-line": (HEAD + '"$REAL" > "$T"; grep "^s" "$T"; grep "^v" "$T" | sed "s/^v //" | tr " " "\\n" | sed "s/^/v /"; exit 0\n', "honest"),
    "slow": (HEAD + 'sleep 0.3; "$REAL" > "$T"; sleep 0.2; cat "$T"\n', "honest"),
    "stderr-noise": (HEAD + 'echo "s UNSATISFIABLE" >&2; echo "s SATISFIABLE" >&2; exec "$REAL"\n', "honest"),
    "silent": (HEAD + "cat > /dev/null; exit 0\n", "fault"),
    "silent-10": (HEAD + "cat > /dev/null; exit 10\n", "fault"),
    "silent-20": (HEAD + "cat > /dev/null; exit 20\n", "fault"),
    "exit-without-reading": (HEAD + "exit 1\n", "fault"),
    "killed": (HEAD + "cat > /dev/null; kill -9 $$\n", "fault"),
    "killed-early": (HEAD + "head -c 10 > /dev/null; kill -9 $$\n", "fault"),
    "killed-midway": (HEAD + "head -c 66000 > /dev/null; kill -9 $$\n", "fault"),
    "exit-midway": (HEAD + "head -c 70000 > /dev/null; exit 20\n", "fault"),
    "closes-stdin": (HEAD + "exec < /dev/null; sleep 0.1; exit 0\n", "fault"),
    "segv": (HEAD + "cat > /dev/null; kill -SEGV $$\n", "fault"),
    "comments-only": (HEAD + 'cat > /dev/null; echo "c SATISFIABLE"; echo "c s SATISFIABLE"; echo "c UNSATISFIABLE"\n', "fault"),
    "unknown": (HEAD + 'cat > /dev/null; echo "s UNKNOWN"; exit 0\n', "fault"),
    "indeterminate": (HEAD + 'cat > /dev/null; echo "s INDETERMINATE"\n', "fault"),
    "truncated-s": (HEAD + '"$REAL" | head -c 18 | head -c 8\n', "fault"),
    "no-prefix": (HEAD + '"$REAL" | sed "s/^s //"\n', "fault"),
    "lower-case": (HEAD + '"$REAL" | tr A-Z a-z\n', "fault"),
    "garbage": (HEAD + 'cat > /dev/null; head -c 4000 /dev/zero | tr "\\0" "x"; echo\n', "fault"),
    "non-utf8": (HEAD + 'cat > /dev/null; printf "\\377\\376\\n"; echo "s UNSATISFIABLE"\n', "fault"),
    "sat-garbage-model": (HEAD + 'cat > /dev/null; echo "s SATISFIABLE"; echo "v one two three 0"\n', "fault"),
    "sat-no-model": (HEAD + '"$REAL" | grep "^s"\n', "no-wrong-verdict"),
    "sat-half-model": (HEAD + '"$REAL" > "$T"; n=$(grep -c "" "$T"); head -n $((n / 2 + 1)) "$T"; kill -9 $$\n', "no-wrong-verdict"),
    "die-after-s": (HEAD + '"$REAL" | grep "^s"; kill -9 $$\n', "no-wrong-verdict"),
}
bins = vlib.build_repo_bins(("amzn-smt-eager-arithmetic",))
exe = bins["amzn-smt-eager-arithmetic"]
real = vlib.build_harness("eager", ("dimacs_solver",))["dimacs_solver"]
FAMS = [f for f in sorted(arith.FAMILIES)]


def printed(so):
    """The verdict the program printed, by its own lines."""
    lines = so.split("\n")
    v = [l for l in lines if l in ("sat", "unsat")]
    if not v:
        return None, None
    i = lines.index(v[0])
    return (v[0] if len(v) == 1 else "several"), "\n".join(lines[i + 1:])


def large(i):
    """A script whose encoding exceeds any pipe buffer, so that the stand-in dies while being written to."""
    r = vlib.rng("C05large", i)
    v = ["v%d" % k for k in range(r.randint(60, 90))]
    a = [[r.choice([">=", "<=", "="]), ["+", x, ["*", arith.num(r.choice([-3, 2, 3])), y]], arith.num(r.randrange(-9999, 9999))]
         for x, y in zip(v, v[1:])]
    return arith.Problem([(x, [], "Int") for x in v], a, "large")


with vlib.Scratch() as d:
    for n, (s, _) in BEHAVIOURS.items():
        with open("%s/%s.sh" % (d, n), "w") as f:
            f.write(s)
        os.chmod("%s/%s.sh" % (d, n), 0o755)

    def run(job):
        i, beh = job
        fam = FAMS[i % len(FAMS)]
        body, cls = BEHAVIOURS.get(beh, ("", ""))
        big = i % 5 == 4 and cls == "fault" and "$REAL" not in body  # too hard to be solved for real
        p = large(i) if big else eager.problem((fam, i, "C05"))
        src = "%s/%d-%s.smt2" % (d, i, beh)
        with open(src, "w") as f:
            f.write(p.text())
        env = dict(vlib.ENV, REAL=real, T=src + ".tmp")
        solver = "%s/%s.sh" % (d, beh) if beh in BEHAVIOURS else {"missing": d + "/none", "directory": d}[beh]
        rc, so, se = vlib.run_cli([exe, "solve", "--instance", src, "--solver", solver], d, 60, env)
        return i, beh, p, rc, so, se

    jobs = []
    names = list(BEHAVIOURS) + ["missing", "directory"]
    n = vlib.scale(20, 250)
    for i in range(n * len(names)):
        jobs.append((i // len(names) if i % 2 else 7919 + i // len(names), names[i % len(names)]))
    for i, beh, p, rc, so, se in vlib.pmap(run, jobs):
        cls = BEHAVIOURS[beh][1] if beh in BEHAVIOURS else "fault"
        if rc is None:
            c.unsure("timeout")
            c.seen((p.text(), beh), False)
            continue
        v, model = printed(so)
        c.count("%s:%s" % (cls, v if rc == 0 else "exit!=0"))
        c.count("behaviour:" + beh)
        c.count("large_scripts", p.family == "large")
        c.seen((p.text(), beh), True, {"behaviour": beh, "exit": rc, "verdict": v, "script": p.text()})
        rp = {"script": p.text(), "behaviour": beh, "solver": BEHAVIOURS.get(beh, [""])[0], "exit": rc,
              "stdout": so[-3000:], "stderr": se[-2000:]}
        orc = arith.oracle(p)[0]
        model_ok = None
        if v == "sat":
            try:
                env, funs = arith.parse_model(model, p.decls)
                model_ok = arith.failing_assert(p, env, funs) is None
            except arith.BadModel as e:
                model_ok, rp["bad_model"] = False, str(e)
        if rc == 0 and v is None:
            c.violation("silent-success", "exit 0 without a verdict (%s)" % beh, rp)
        elif rc != 0 and v is not None:
            c.violation("verdict-and-failure", "exit %s but printed %s (%s)" % (rc, v, beh), rp)
        elif v == "several":
            c.violation("several-verdicts", "more than one verdict line (%s)" % beh, rp)
        elif cls == "honest" and v is None:
            c.violation("honest-solver-rejected", "%s: exit %s %s\n%s" % (beh, rc, se[-300:], p.text()), rp)
        elif cls == "fault" and v is not None:
            # the empty formula etc. may not need the solver's model, but it always needs its answer
            c.violation("verdict-from-fault", "printed %s although the solver behaved `%s`\n%s" % (v, beh, p.text()), rp)
        elif v is not None and orc != "unknown" and v != orc and not (v == "sat" and model_ok):
            c.violation("wrong-verdict", "%s: printed %s, semantics say %s\n%s" % (beh, v, orc, p.text()), rp)
        elif v == "sat" and not model_ok:
            c.violation("wrong-model", "%s: printed model does not satisfy\n%s\n%s" % (beh, p.text(), model), rp)

    src = d + "/ok.smt2"
    with open(src, "w") as f:
        f.write("(declare-const x Int)(assert (>= x 1))")
    for what, argv in (
        ("no-instance", [exe, "solve", "--instance", d + "/none", "--solver", real]),
        ("directory-instance", [exe, "solve", "--instance", d, "--solver", real]),
        ("no-args", [exe]), ("no-instance-arg", [exe, "solve"]),
    ):
        rc, so, se = vlib.run_cli(argv, d, 60)
        c.seen(("cli", what), True)
        if rc == 0 or printed(so)[0]:
            c.violation("cli-silent-failure", "%s: exit %s, output %s" % (what, rc, so), {"argv": argv})
c.assumptions += ["a solver that lies in well-formed SAT-competition output is outside the property"]
sys.exit(c.finish())
