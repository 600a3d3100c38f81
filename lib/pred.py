"""A scratch copy of the prediction scripts with stand-ins for solvers and SageMaker."""
import glob, json, os, re, shutil, sys
import vlib

SCRIPTS = os.path.join(vlib.REPO, "amzn-smt-prediction", "scripts")
BUCKETS = [7, 8, 9, 10, 20, 40, 60, 80, 100]


def exe(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)
    os.chmod(path, 0o755)


def tree(d):
    """-> the scripts directory of a fresh tree below d."""
    s = os.path.join(d, "amzn-smt-prediction", "scripts")
    os.makedirs(s)
    for f in glob.glob(os.path.join(SCRIPTS, "*.py")):
        shutil.copy(f, s)
    return s


# Prints what stands in <benchmark>.out (<benchmark>.fmf.out with --strings-fmf), then runs <benchmark>.then
SOLVER = """#!/bin/sh
for a; do last=$a; done
printf '%%s\\n' "$*" >> "%s"
f=$last.out
case " $* " in *" --strings-fmf "*) [ -f "$last.fmf.out" ] && f=$last.fmf.out;; esac
cat "$f"
[ -f "$last.then" ] && . "$last.then"
exit 0
"""


def solver(s, name, log):
    exe(os.path.join(os.path.dirname(s), "solvers", name), SOLVER % log)


def run(s, script, args, timeout=60, env=None, py=(sys.executable,)):
    """-> (exit code or None, stdout, stderr) of a script, started in the scripts directory."""
    e = dict(vlib.ENV, PYTHONDONTWRITEBYTECODE="1", **(env or {}))
    return vlib.run_cli(list(py) + [script] + args, s, timeout, env=e, prompt=True)


def labels(b):
    out = ["less_than_%d" % b[0]]
    for x, y in zip(b, b[1:]):
        out.append("equal_%d" % x if y == x + 1 else "between_%d_%d" % (x, y))
    return out + ["over_%d" % b[-1]]


def histogram(text, b):
    """Numbers of lines by their number of words."""
    out = [0] * (len(b) + 1)
    for l in text.split("\n"):
        n = len(l.split())
        out[sum(n >= x for x in b)] += 1
    return out


def output(r, buckets=BUCKETS, many=60):
    """A solver output: no blank line at its ends."""
    lines = []
    for _ in range(r.randint(1, many)):
        k = r.random()
        if k < 0.6:
            n = max(0, r.choice(buckets) + r.choice([-1, 0, 1]))
        else:
            n = r.choice([0, 1, 2, 5, 15, 30, 70, 101, 200, 350])
        lines.append(r.choice([" ", "  ", "\t"]).join(r.choice(["(", "x", ")", "(str.++", "\"a\"", "9", "sat"]) for _ in range(n)))
    while lines and not lines[0].strip():
        lines.pop(0)
    while lines and not lines[-1].strip():
        lines.pop()
    return "\n".join(lines) or "sat"

# ------------------------------------------------------------------ SageMaker stand-in

STUBS = {
    "sagemaker/__init__.py": "",
    "sagemaker/predictor.py": '''import json, os
class Predictor:
    def __init__(self, endpoint, serializer=None, **kw):
        self.endpoint = endpoint
    def predict(self, features):
        with open(os.path.join(os.environ["STUB_DIR"], "called_" + self.endpoint), "a") as f:
            f.write(json.dumps([float(x) if isinstance(x, float) else int(x) for x in features]) + "\\n")
        with open(os.path.join(os.environ["STUB_DIR"], "answer_" + self.endpoint)) as f:
            return f.read().encode()
''',
    "sagemaker/serializers.py": "class CSVSerializer: pass\n",
    "sagemaker/deserializers.py": "class CSVDeserializer: pass\n",
}


def stubs(d):
    """-> environment with the stand-in package; calls go to and answers come from <d>/stub."""
    for n, t in STUBS.items():
        p = os.path.join(d, "pystubs", n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(t)
    os.makedirs(os.path.join(d, "stub"), exist_ok=True)
    return {"PYTHONPATH": os.path.join(d, "pystubs"), "STUB_DIR": os.path.join(d, "stub")}


def calls(d, endpoint):
    try:
        with open(os.path.join(d, "stub", "called_" + endpoint)) as f:
            return [json.loads(l) for l in f]
    except OSError:
        return []


# ------------------------------------------------------------------ eager statistics

LINE = re.compile(r"Stats \{ vars: (\d+), constraints: (\d+), a_max: (\d+), b_max: (\d+), k: (\d+), w: (\d+) \}, bound: (\d+) bits")


def partitions(out):
    """The statistics in an output of the eager solver, in order."""
    return [dict(zip(("vars", "constraints", "a_max", "b_max", "k", "w", "bound"), map(int, m.groups())))
            for m in map(LINE.search, out.split("\n")) if m]


def bounds(p):
    """The possible values (rounding of a logarithm) of the bound of one partition's parameters."""
    if p["k"] == 0:
        x = min(p["vars"], p["constraints"]) * (p["b_max"] + 1) + 1
    else:
        x = (p["a_max"] * p["w"]) ** p["k"] * (p["vars"] + 2) * min(p["vars"] + 1, p["constraints"]) * (p["b_max"] + 1) + 1
    exact = (x - 1).bit_length() + 1
    out = {exact}
    k = x.bit_length()
    for pw in (k - 1, k):
        if abs(x - (1 << pw)) << 40 <= 1 << pw:  # floating point may round to the power of two
            out |= {pw + 1, pw + 2}
    return out


def merged(ps):
    """-> (vars, constraints, a_max, b_max, k, w), possible bounds."""
    if len(ps) == 1:
        p = ps[0]
        return [p[x] for x in ("vars", "constraints", "a_max", "b_max", "k", "w")], {p["bound"]}
    p = {x: sum(q[x] for q in ps) for x in ("vars", "constraints", "k")}
    p.update({x: max(q[x] for q in ps) for x in ("a_max", "b_max", "w")})
    return [p[x] for x in ("vars", "constraints", "a_max", "b_max", "k", "w")], bounds(p)
