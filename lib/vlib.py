"""Shared machinery of the checks: builds from /repo's working tree, worker processes, evidence,
verdict discipline (violated / held / inconclusive) and known findings."""
import hashlib
import json
import os
import queue
import random
import re
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
NCPU = os.cpu_count() or 4
ENV = dict(os.environ)
ENV.update(
    RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", CARGO_TERM_COLOR="never"
)
ENV.setdefault("HOME", "/root")
ENV["PATH"] = "/root/.cargo/bin:" + ENV.get("PATH", "/usr/local/bin:/usr/bin:/bin")
ENV.pop("RUSTFLAGS", None)


def quick():
    return TIER == "quick"


def scale(q, t):
    return q if quick() else t


def rng(*salt):
    h = hashlib.sha256(repr((SEED,) + salt).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


# ---------------------------------------------------------------- builds

EAGER = ("eager_worker", "dimacs_solver")
STRINGS = ("strings_worker",)


class BuildError(Exception):
    pass


def _cargo(args, target, cwd, extra=None):
    env = dict(ENV)
    env["CARGO_TARGET_DIR"] = target
    env["CARGO_INCREMENTAL"] = "0"
    env.update(extra or {})
    p = subprocess.run(
        ["cargo"] + args, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True
    )
    if p.returncode != 0:
        raise BuildError("cargo %s failed:\n%s" % (" ".join(args), p.stdout[-4000:]))


def build_harness(crate, bins, release=False):
    """Builds our harness binaries (crate: "eager" or "strings") against /repo's library crates
    (debug assertions and overflow checks on, unless `release`)."""
    target = os.path.join(BUILD, "harness-" + crate + ("-release" if release else ""))
    src = os.path.join(VERIF, "harness", crate)
    args = ["build", "--offline", "--manifest-path", os.path.join(src, "Cargo.toml")]
    for b in bins:
        args += ["--bin", b]
    _touch_repo_sources(target)
    # the release build differs from the default one by its assertions only: what users run
    _cargo(args, target, src, {"CARGO_PROFILE_DEV_DEBUG_ASSERTIONS": "false"} if release else None)
    return {b: os.path.join(target, "debug", b) for b in bins}


def build_repo_bins(bins):
    """Builds the shipped command-line programs from /repo's working tree, dev profile."""
    target = os.path.join(BUILD, "repo")
    lock = os.path.join(REPO, "Cargo.lock")
    if not os.path.exists(lock):  # ignored by git there; what /opt/vp/env.sh does as well
        shutil.copy(os.path.join(VERIF, "harness", "Cargo.lock.repo"), lock)
    args = ["build", "--offline", "--manifest-path", os.path.join(REPO, "Cargo.toml")]
    for b in bins:
        args += ["-p", b, "--bin", b]
    _touch_repo_sources(target)
    _cargo(
        args,
        target,
        REPO,
        {"CARGO_PROFILE_DEV_OPT_LEVEL": "1", "CARGO_PROFILE_DEV_DEBUG": "line-tables-only"},
    )
    return {b: os.path.join(target, "debug", b) for b in bins}


def _source_digest():
    h = hashlib.sha256()
    for root, dirs, files in sorted(os.walk(REPO)):
        rel = os.path.relpath(root, REPO)
        dirs[:] = sorted(
            d for d in dirs if d not in ("target", ".git") and os.path.join(rel, d).count(os.sep) < 6
        )
        for f in sorted(files):
            if f.endswith(".rs") or f == "Cargo.toml":
                p = os.path.join(root, f)
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def _touch_repo_sources(target):
    """Cargo looks at mtimes. Trees restored from a commit can carry mtimes older than our build
    products although their contents differ, so stale fingerprints of the workspace's own crates
    are dropped whenever the digest of the sources changes."""
    os.makedirs(target, exist_ok=True)
    stamp = os.path.join(target, "repo-sources.sha256")
    digest = _source_digest()
    old = open(stamp).read().strip() if os.path.exists(stamp) else ""
    if old != digest:
        fp = os.path.join(target, "debug", ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith("amzn-smt-") or d.startswith("vharness-"):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        with open(stamp, "w") as f:
            f.write(digest)


# ---------------------------------------------------------------- worker processes


class Worker:
    """One harness process answering JSON queries. `call` returns the reply, or a dict with
    r = 'crash' / 'timeout' (the process is then restarted for the next query)."""

    def __init__(self, exe, mem_mb=6000, env=None):
        self.exe, self.mem_mb, self.p = exe, mem_mb, None
        self.env = env or ENV

    def start(self):
        import resource

        def lim():
            b = self.mem_mb << 20
            resource.setrlimit(resource.RLIMIT_AS, (b, b))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

        self.p = subprocess.Popen(
            [self.exe],
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL,
            preexec_fn=lim,
            env=self.env,
            cwd="/",
        )
        _children.add(self.p.pid)
        self.buf = b""

    def stop(self):
        if self.p:
            try:
                self.p.kill()
                self.p.wait(10)
                _children.discard(self.p.pid)
            except Exception:
                pass
            for s in (self.p.stdin, self.p.stdout):
                try:
                    s.close()
                except Exception:
                    pass
            self.p = None

    def call(self, query, timeout=30.0):
        if self.p is None or self.p.poll() is not None:
            self.stop()
            self.start()
        try:
            self.p.stdin.write((json.dumps(query) + "\n").encode())
            self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            self.stop()
            return {"r": "crash", "msg": "worker died on write", "log": []}
        log, end = [], time.monotonic() + timeout
        fd = self.p.stdout.fileno()
        while True:
            while b"\n" in self.buf:
                line, self.buf = self.buf.split(b"\n", 1)
                s = line.decode("utf-8", "replace")
                if s.startswith("@@R "):
                    r = json.loads(s[4:])
                    r["log"] = log
                    return r
                if s:
                    log.append(s)
            left = end - time.monotonic()
            if left <= 0:
                self.stop()
                return {"r": "timeout", "msg": "no answer in %.0f s" % timeout, "log": log}
            ready, _, _ = select.select([fd], [], [], min(left, 1.0))
            if ready:
                chunk = os.read(fd, 1 << 16)
                if not chunk:
                    rc = self.p.wait()
                    self.stop()
                    return {"r": "crash", "msg": "worker exited with %s" % rc, "log": log}
                self.buf += chunk


_worker_exe = None
_worker = None


def worker(exe=None):
    """The calling process's own worker for `exe`."""
    global _worker, _worker_exe
    if _worker is None or (exe and _worker_exe != exe):
        if _worker:
            _worker.stop()
        _worker_exe = exe
        _worker = Worker(exe)
    return _worker


_children = set()
_scratch = set()


def _fan_end(*_):
    """Ends the programs that a worker runs together with the worker."""
    for pid in list(_children):
        for kill in (os.killpg, os.kill):
            try:
                kill(pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
    for path in list(_scratch):
        shutil.rmtree(path, ignore_errors=True)
    os._exit(1)


def _fan_init():
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    signal.signal(signal.SIGTERM, _fan_end)
    global _worker
    _worker = None


def _end_pool(pool):
    """pool.terminate() asks each process once to end, and waits for it. A process that is asked just before it
    goes to sleep does not notice, so it is asked again, and killed in the end."""
    procs = list(pool._pool)
    t = threading.Thread(target=pool.terminate, daemon=True)
    t.start()
    t0 = time.monotonic()
    while t.is_alive() and time.monotonic() - t0 < 40:
        t.join(2)
        if not t.is_alive():
            break
        for p in set(procs) | set(pool._pool):
            try:
                if p.is_alive():
                    os.kill(p.pid, signal.SIGKILL if time.monotonic() - t0 > 20 else signal.SIGTERM)
            except (ProcessLookupError, TypeError):
                pass


class _Guard:
    """Runs fn; outputs that its monitors can't make anything of (missing files or fields, not what the format
    says) come back as a description of the failure. Environment trouble (OSError, MemoryError) passes."""

    def __init__(self, fn):
        self.fn = fn

    def __call__(self, item):
        try:
            return self.fn(item)
        except Exception as e:
            if not _telling(e):
                raise
            return _Unreadable(item, "%s: %s" % (type(e).__name__, e), traceback.format_exc())


def _telling(e):
    return type(e).__name__ in ("BadText", "Hangs") or isinstance(
        e, (ValueError, LookupError, AttributeError, TypeError, FileNotFoundError, StopIteration, AssertionError))


def _last_word(kind, e, trace):
    """The same for what a monitor in the main process can't make anything of."""
    sys.__excepthook__(kind, e, trace)
    if _check and _telling(e) and os.getpid() == _main:
        _check.violation("unreadable", "what the program left can't be interpreted: %s: %s" % (kind.__name__, e),
                         {"seed": SEED, "trace": "".join(traceback.format_exception(kind, e, trace))})
        _check.finish()


_main = os.getpid()
sys.excepthook = _last_word


class _Unreadable:
    def __init__(self, item, what, trace):
        self.item, self.what, self.trace = item, what, trace


def fanout(fn, items, budget=None, workers=None, chunk=1):
    """Applies fn in forked processes; yields results as they come. Items beyond the time budget are
    not started (this only limits reach, never a verdict)."""
    import multiprocessing as mp

    t0 = time.monotonic()

    done = []

    def feed():
        for it in items:
            sem.acquire()
            if done or budget and time.monotonic() - t0 > budget:
                return
            yield it

    workers = workers or NCPU
    sem = threading.Semaphore(workers * 60 * chunk)
    pool = mp.get_context("fork").Pool(workers, initializer=_fan_init)
    try:
        results = pool.imap_unordered(_Guard(fn), feed(), chunksize=chunk)
        while True:
            try:
                left = 200 if not budget else max(1, min(200, t0 + 1.3 * budget + 120 - time.monotonic()))
                r = results.next(timeout=left)
            except StopIteration:
                break
            except mp.TimeoutError:  # a pool process was killed (its item never comes back), or items take far too long
                break
            sem.release()
            if isinstance(r, _Unreadable) and _check:
                _check.violation("unreadable", "what the program left can't be interpreted: " + r.what, {"case": repr(r.item), "seed": SEED, "trace": r.trace})
                continue
            yield r
    finally:
        done.append(True)  # the feeding thread may wait for the semaphore; terminate() joins it
        sem.release()
        _end_pool(pool)


# ---------------------------------------------------------------- verdicts


class Violation(Exception):
    pass


_check = None


class Check:
    """Collects what the monitors of one property observed and turns it into exit code, VIOLATION
    and KNOWN-FINDING lines and the evidence file."""

    def __init__(self, prop, rule, level="exploration", min_nontrivial=1):
        global _check
        _check = self
        self.prop, self.rule, self.level = prop, rule, level
        self.t0 = time.monotonic()
        self.evaluations = 0
        self.nontrivial = set()
        self.samples = []
        self.counters = {}
        self.violations = []
        self.known_hits = {}
        self.inconclusive = {}
        self.hung = 0
        self.min_nontrivial = min_nontrivial
        self.assumptions = []
        self.known = [k for k in load_known() if k["property"] == prop and k.get("status") == "known"]
        self._viol_keys = set()

    def elapsed(self):
        return time.monotonic() - self.t0

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def seen(self, case_key, nontrivial=True, sample=None):
        self.evaluations += 1
        if nontrivial:
            self.nontrivial.add(hashlib.sha1(repr(case_key).encode()).digest()[:10])
            if sample is not None and len(self.samples) < 6:
                self.samples.append(sample)

    def unsure(self, why):
        self.inconclusive[why] = self.inconclusive.get(why, 0) + 1
        self.hung += "timeout" in str(why)

    def violation(self, kind, detail, replay, signature=None):
        """kind: short machine-readable class. replay: dict with all that is needed to re-run.
        signature: string compared with the known-findings file, exactly."""
        for k in self.known:
            if signature is not None and signature == k["signature"]:
                self.known_hits[k["signature"]] = k["what"]
                return False
        if (kind, repr(signature)) in self._viol_keys and len(self.violations) >= 5:
            return True
        self._viol_keys.add((kind, repr(signature)))
        self.count("violations_seen")
        if len(self.violations) < 20:
            self.violations.append({"kind": kind, "detail": detail, "replay": replay, "signature": signature})
        return True

    def finish(self):
        wall = time.monotonic() - self.t0
        if self.hung >= 8 and self.hung * 4 >= self.evaluations:  # far beyond what a busy machine explains
            self.violation("no-answer", "the program does not finish on %d of %d small inputs (limits of 20 s and more)" % (
                self.hung, self.hung + self.evaluations), {"inconclusive": self.inconclusive})
        cov = {
            "evaluations": self.evaluations,
            "distinct_nontrivial": len(self.nontrivial),
            "rule": self.rule,
            "samples": self.samples or ["(none)"],
            "observed": dict(sorted(self.counters.items())),
            "inconclusive": dict(sorted(self.inconclusive.items())),
            "known_findings_hit": sorted(self.known_hits),
        }
        ev = {
            "property": self.prop,
            "tier": TIER,
            "seed": SEED,
            "level": self.level,
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(wall, 2),
            "violations": len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for sig, what in sorted(self.known_hits.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, what))
        print(
            "%s [%s seed=%d] evaluations=%d distinct_nontrivial=%d wall=%.1fs observed=%s inconclusive=%s"
            % (self.prop, TIER, SEED, self.evaluations, len(self.nontrivial), wall,
               json.dumps(dict(sorted(self.counters.items()))), json.dumps(self.inconclusive))
        )
        if self.violations:
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            for i, v in enumerate(self.violations[:5]):
                path = os.path.join(d, "%s-%d.json" % (self.prop, i))
                with open(path, "w") as f:
                    json.dump(v, f, indent=1, default=str)
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
                print("  %s: %s" % (v["kind"], str(v["detail"])[:600]))
            sys.stdout.flush()
            return 1
        if len(self.nontrivial) < self.min_nontrivial:
            print("ERROR: observed too little (%d < %d): no verdict" % (len(self.nontrivial), self.min_nontrivial))
            return 2
        sys.stdout.flush()
        return 0


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


class Scratch:
    """A scratch directory, removed on exit."""

    def __init__(self):
        self.path = tempfile.mkdtemp(prefix="verif-")
        _scratch.add(self.path)

    def __enter__(self):
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)
        _scratch.discard(self.path)


class Hangs(Exception):
    pass


def run_cli(argv, cwd, timeout=60, env=None, stdin=None, prompt=False):
    """Runs a program in a process group of its own, which is ended with it; returns (rc or None on
    timeout, stdout, stderr) as text. A program that has every reason to end soon (prompt) is given another
    minute if it does not; it hangs if that is not enough either."""
    if prompt:
        out = run_cli(argv, cwd, timeout, env, stdin)
        if out[0] is None and run_cli(argv, cwd, max(60, timeout), env, stdin)[0] is None:
            raise Hangs("no answer in %d s, nor in %d s when started again: %s" % (timeout, max(60, timeout), " ".join(argv)))
        return out
    p = subprocess.Popen(
        argv, cwd=cwd, env=env or ENV, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
        stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True,
    )
    _children.add(p.pid)
    try:
        so, se = p.communicate(stdin, timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        rc, so, se = None, b"", b"timeout"
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    p.wait()
    _children.discard(p.pid)
    return rc, so.decode("utf-8", "replace"), se.decode("utf-8", "replace")


def pmap(fn, items, workers=None):
    """Ordered parallel map over threads (the work is in subprocesses)."""
    from concurrent.futures import ThreadPoolExecutor

    with ThreadPoolExecutor(workers or NCPU) as ex:
        yield from ex.map(fn, items)


def stale(path, text):
    """For half of the texts: a long file of an earlier run is where the output for the text belongs."""
    if zlib.crc32(text.encode("utf-8", "surrogatepass")) & 1:
        with open(path, "w") as f:
            f.write(") left } \" over ]\n" * 4000)
    elif os.path.exists(path):
        os.unlink(path)


def broken(r, text):
    """The script with something that is no token of SMT-LIB in front of one of its commands, none behind (exit)."""
    starts, depth, end, done = [], 0, None, False
    for i, ch in enumerate(text):
        if end:
            if ch == end:
                end = None
        elif ch in '"|':
            end = ch
        elif ch == ";":
            end = "\n"
        elif ch == "(":
            if depth == 0 and not done:
                starts.append(i)
                done = text[i + 1:].lstrip().startswith("exit")
            depth += 1
        elif ch == ")":
            depth -= 1
    i = r.choice(starts or [0])
    bad = r.choice(["{", ",", "'", "# ", '"', "|", "\ufeff", "[x]", "{}\n"]) if i else r.choice(["\ufeff", "{", ",", "'", "# "])
    return text[:i] + bad + text[i:]
