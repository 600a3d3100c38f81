"""C03: the CNF encoding is well-formed DIMACS, equisatisfiable with the script, and complete at its sink."""
import os, stat, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import arith, eager, vlib

c = vlib.Check(
    "C03",
    "random scripts encoded by the real library into memory, into faulty sinks (short writes, interruption, "
    "disk full, broken pipe, zero-length writes at random offsets) and by the real program into a recording "
    "stand-in for minisat; non-trivial: a CNF with >= 1 clause was parsed and decided by an independent SAT "
    "solver, or a sink fault fired; distinct by script (and fault)", min_nontrivial=100)
eager.setup()
Z3 = "/usr/bin/z3" if os.path.exists("/usr/bin/z3") else "z3"


def parse_dimacs(text):
    """Strict: returns (vars, clauses) or a complaint."""
    lines = text.split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    else:
        return "no newline at the end"
    lines = [l for l in lines if not l.startswith("c")]
    if not lines:
        return "empty"
    h = lines[0].split()
    if len(h) != 4 or h[:2] != ["p", "cnf"]:
        return "bad header %r" % lines[0]
    nv, nc, clauses = int(h[2]), int(h[3]), []
    for l in lines[1:]:
        lits = [int(x) for x in l.split()]
        if not lits or lits[-1] != 0 or 0 in lits[:-1]:
            return "bad clause line %r" % l
        if any(abs(x) > nv for x in lits):
            return "literal out of range in %r (header says %d)" % (l, nv)
        clauses.append(tuple(lits[:-1]))
    if len(clauses) != nc:
        return "header announces %d clauses, found %d" % (nc, len(clauses))
    return nv, clauses


def decide(cnf):
    q = subprocess.run([Z3, "-dimacs", "-T:20", "/dev/stdin"], input=cnf, capture_output=True, text=True)
    return next((l[2:] for l in q.stdout.split("\n") if l.startswith("s ")), "?")


def size(d):
    return d if isinstance(d, str) else (d[0], len(d[1]))


def run(item):
    p = eager.problem(item)
    r = eager.robust_solve(p, mode="encode")
    out = {"item": item, "p": p, "r": r["r"], "msg": r.get("msg"), "log": r.get("log", [])}
    if r["r"] != "ok":
        return out
    d = parse_dimacs(r["cnf"])
    out["dimacs"] = size(d)
    if not isinstance(d, str):
        out["cnf"] = decide(r["cnf"])
        out["oracle"] = arith.oracle(p)[0]
    faults = []
    rr = vlib.rng("C03f", item)
    for f in rr.sample(["short", "interrupted", "full", "pipe", "zero"], 2):
        n = len(r["cnf"])
        at = rr.choice([0, 1, n // 2, n - 1, rr.randrange(n), 8191, 8192, 8193])
        q = vlib.worker(eager.EXE).call({"id": 1, "mode": "encode_fault", "smt": p.text(), "fault": f, "at": at}, 30)
        faults.append((f, at, n, q["r"], q.get("cnf"), q.get("fired"), q.get("msg")))
    # the encoding (numbering, even size) may differ between runs: complete means that as many clauses
    # as the header announces arrived, down to the last newline
    out["faults"] = [(f, at, n, r_, not isinstance(parse_dimacs(cnf or ""), str), fired, m)
                     for f, at, n, r_, cnf, fired, m in faults]
    return out


WANT = {"SATISFIABLE": "sat", "UNSATISFIABLE": "unsat"}
for o in vlib.fanout(run, eager.mix(vlib.scale(2000, 25000), list(arith.FAMILIES), "C03"), budget=vlib.scale(60, 600)):
    p = o["p"]
    rp = {"script": p.text(), "item": o["item"], "observed": {k: o[k] for k in o if k not in ("p", "log")}}
    c.count("encode:" + o["r"])
    if o["r"] != "ok":
        c.seen(p.text(), False)
        if o["r"] in ("error", "panic"):
            c.violation("no-encoding", "%s: %s\n%s" % (o["r"], o["msg"], p.text()), rp)
        else:
            c.unsure(o["r"])
        continue
    if isinstance(o["dimacs"], str):
        c.violation("malformed-dimacs", "%s\n%s" % (o["dimacs"], p.text()), rp)
        continue
    nv, nc = o["dimacs"]
    c.count("clauses_parsed", nc)
    logged = [tuple(map(int, m.groups())) for m in map(eager.NPARTS.match, o["log"]) if m]
    if logged:
        c.count("size_lines_compared")
        if logged[0] != (nv, nc):
            c.violation("size-line", "log says %s, file has %s" % (logged[0], (nv, nc)), rp)
    v = WANT.get(o["cnf"])
    c.seen(p.text(), v is not None and o["oracle"] != "unknown" and nc > 0,
           {"script": p.text(), "vars": nv, "clauses": nc, "cnf": v, "oracle": o["oracle"]})
    if v is None or o["oracle"] == "unknown":
        c.unsure("oracle undecided")
    else:
        c.count("cnf:" + v)
        if v != o["oracle"]:
            c.violation("not-equisatisfiable", "CNF is %s, script is %s\n%s" % (v, o["oracle"], p.text()), rp)
    for f, at, n, r, complete, fired, msg in o["faults"]:
        c.seen((p.text(), f, at), bool(fired) or f == "short")
        c.count("fault:%s:%s" % (f, "fired" if fired or f == "short" else "beyond-end"))
        if r == "ok" and not complete:
            c.violation("truncated-encoding", "sink fault %s at byte %d of %d: encode reported success" % (f, at, n), rp)
        if r != "ok" and not (fired and f in ("full", "pipe", "zero")):
            c.violation("spurious-failure", "sink fault %s at %d of %d: %s %s" % (f, at, n, r, msg), rp)

# ------------------------------------------------ the `encode` program with a recording stand-in
exe = vlib.build_repo_bins(("amzn-smt-eager-arithmetic",))["amzn-smt-eager-arithmetic"]
FAKE = """#!/bin/bash
printf '%s\\n' "$@" > "$REC.args"
cat > "$REC.stdin"
out=; for a in "$@"; do case "$a" in -dimacs=*) out="${a#-dimacs=}";; esac; done
[ "$FAKE_EXIT" = 0 ] && cp "$REC.stdin" "$out"
[ "$FAKE_EXIT" -lt 0 ] && { head -c 50 "$REC.stdin" > "$out"; kill $FAKE_EXIT $$; }
exit $FAKE_EXIT
"""
with vlib.Scratch() as d:
    os.mkdir(d + "/bin")
    with open(d + "/bin/minisat", "w") as f:
        f.write(FAKE)
    os.chmod(d + "/bin/minisat", 0o755)

    def cli(i):
        item = (sorted(arith.FAMILIES)[i % len(arith.FAMILIES)], i, "C03cli")
        p, code = eager.problem(item), [0, 0, 0, 1, 10, 137, -9, -15, -11, 2][i % 10]
        src, out, rec = "%s/p%d.smt2" % (d, i), "%s/o %d.cnf" % (d, i), "%s/rec%d" % (d, i)
        with open(src, "w") as f:
            f.write(p.text())
        env = dict(vlib.ENV, PATH=d + "/bin:" + vlib.ENV["PATH"], REC=rec, FAKE_EXIT=str(code))
        rc, so, se = vlib.run_cli([exe, "encode", "--instance", src, "--cnf-outfile", out], d, 60, env)
        return p, code, rc, so, se, os.path.exists(out) and open(out).read()

    for p, code, rc, so, se, out in vlib.pmap(cli, range(vlib.scale(60, 600))):
        rp = {"script": p.text(), "minisat_exit": code, "rc": rc, "stdout": so, "stderr": se}
        if rc is None:
            c.unsure("cli timeout")
            continue
        c.seen(("cli", p.text(), code), True)
        c.count("cli:minisat_exit_%d" % code)
        if code == 0:
            if rc != 0:
                c.violation("cli-encode-failed", "exit %s: %s" % (rc, se), rp)
                continue
            d1 = parse_dimacs(out) if out else "no output file"
            if isinstance(d1, str):
                c.violation("cli-encode-output", d1, rp)
                continue
            v, orc = WANT.get(decide(out)), arith.oracle(p)[0]
            if v is None or orc == "unknown":
                c.unsure("oracle undecided")
            elif v != orc:
                c.violation("cli-encode-output", "CNF is %s, script is %s" % (v, orc), rp)
        elif rc == 0:
            c.violation("cli-ignores-minisat-failure", "minisat exited with %d, program with 0" % code, rp)
    # no minisat at all; unreadable instance
    src = d + "/p0.smt2"
    env = dict(vlib.ENV, PATH=d + "/nowhere")
    for what, argv in (("no-minisat", [exe, "encode", "--instance", src, "--cnf-outfile", d + "/x"]),
                       ("no-instance", [exe, "encode", "--instance", d + "/none", "--cnf-outfile", d + "/x"])):
        rc, so, se = vlib.run_cli(argv, d, 60, env)
        c.seen(("cli", what), True)
        if rc == 0:
            c.violation("cli-silent-failure", what, {"argv": argv, "stdout": so, "stderr": se})
sys.exit(c.finish())
