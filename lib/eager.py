"""Monitors for the eager-arithmetic crate (C01, C02, C03, C04, ...)."""
import re
import sys

import arith
import vlib

EXE = None


def mix(n, families, salt):
    """n (family, index) pairs, families interleaved."""
    for i in range(n):
        yield (families[i % len(families)], i, salt)


def benches(n, salt):
    """n perturbed benchmarks of the repository (none, when the tree carries none)."""
    return [("bench", i, salt) for i in range(n)] if arith.bench_files() else []


def problem(item):
    fam, i, salt = item
    return arith.gen(fam, vlib.rng(salt, fam, i))


def solve(p, timeout=20, mode="solve"):
    return vlib.worker(EXE).call({"id": 0, "mode": mode, "smt": p.text()}, timeout)


_PART = re.compile(
    r"^Partition '(.*)': stats: Stats \{ vars: (\d+), constraints: (\d+), a_max: (\d+), b_max: (\d+), "
    r"k: (\d+), w: (\d+) \}, bound: (\d+) bits"
)


def partitions(log):
    out = []
    for l in log:
        m = _PART.match(l)
        if m:
            g = m.groups()
            out.append((g[0],) + tuple(int(x) for x in g[1:]))
    return out


def setup(release=False):
    global EXE
    EXE = vlib.build_harness("eager", ("eager_worker",), release)["eager_worker"]


def robust_solve(p, timeout=None, mode="solve"):
    """As solve(), but a crash or timeout is retried once, alone, with far larger limits."""
    r = solve(p, timeout or vlib.scale(8, 20), mode)
    if r["r"] in ("crash", "timeout"):
        w = vlib.Worker(EXE, mem_mb=14000)
        r = w.call({"id": 0, "mode": mode, "smt": p.text()}, vlib.scale(30, 90))
        r["retried"] = True
        # solving may take long for good reasons, encoding may not
        if r["r"] == "timeout" and (mode == "encode" or w.call({"id": 0, "mode": "encode", "smt": p.text()}, 60)["r"] == "timeout"):
            w.stop()
            raise vlib.Hangs("the encoding does not end:\n" + p.text())
        w.stop()
    return r


def observe(item):
    """One execution with everything the monitors need (runs in a pool process)."""
    p = problem(item)
    r = robust_solve(p)
    return {"item": item, "problem": p, "res": r}


NPARTS = re.compile(r"^CNF: (\d+) vars, (\d+) clauses")
