"""The runner behind every check of this framework.

A check module (``checks/<ID>.py``) lists *sub-checks*. A sub-check is

* a Hypothesis strategy, that generates a *case*: a plain, JSON-serialisable
  value, which describes the inputs (or the operation history, the block
  schedule, the corruption, ...) completely, and
* a function ``check(case, ctx)``, which builds the real objects from the case,
  runs the code under test and compares it to an oracle.

Since the case is plain data, a shrunk failure is written to a JSON file and can
be replayed without Hypothesis (``run.py --property ID --replay FILE``).
"""

import dataclasses
import hashlib
import json
import math
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import typing
import warnings
from . import poison    # noqa; pylint: disable=unused-import; fills uninitialized arrays

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """Raised by a check, when the code under test contradicts the oracle."""


class Hang(BaseException):
    """Raised by the watchdog, when a single case does not terminate."""


class HarnessError(Exception):
    """Raised, when the machinery itself is broken (never counts as a violation)."""


class Reject(Exception):
    """Raised by a check, when a case is outside of the domain (counted, never silent)."""


@dataclasses.dataclass
class Sub:
    """One sub-check of a property"""
    name: str
    strategy: typing.Any
    check: typing.Callable
    quick: int                  # number of generated cases in the quick tier
    thorough: int = 0           # number of generated cases in the thorough tier (default: 15 * quick)
    rule: str = ""              # what makes a case non-trivial
    shards: int = 0             # number of parallel shards (0: chosen by the runner)


class Ctx:
    """Is passed to the checks for counting and classifying the cases"""

    def __init__(self):
        self.evaluations = 0
        self.rejected = 0
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self._current_nontrivial = False
        self.tempdir = None

    def nontrivial_if(self, condition):
        """Marks the current case as non-trivial"""
        if condition:
            self._current_nontrivial = True

    def label(self, *names):
        """Counts classifications of the current case"""
        for n in names:
            self.labels[n] = self.labels.get(n, 0) + 1

    def tmp(self, name):
        """Returns a path in a scratch directory, that is emptied before each case"""
        if self.tempdir is None:
            self.tempdir = tempfile.mkdtemp(prefix="verif_case_")
        return os.path.join(self.tempdir, name)


def dumps(case):
    return json.dumps(case, sort_keys=True)


def _abbreviate(obj, depth=0):
    if isinstance(obj, dict):
        return {k: _abbreviate(v, depth + 1) for k, v in obj.items()}
    if isinstance(obj, list):
        if len(obj) > 12:
            return [_abbreviate(v, depth + 1) for v in obj[:10]] + [f"... {len(obj) - 10} more"]
        return [_abbreviate(v, depth + 1) for v in obj]
    if isinstance(obj, str) and len(obj) > 200:
        return obj[:200] + "..."
    return obj


CASE_SECONDS = int(os.environ.get("VERIF_CASE_SECONDS") or 150)


def _watchdog(signum, frame):
    raise Hang(f"a single case did not terminate within {CASE_SECONDS} s")


def run_case(sub, case, ctx):
    """Runs one case. Returns None or a text, that describes the violation."""
    ctx.evaluations += 1
    ctx._current_nontrivial = False
    if ctx.tempdir is not None and os.path.isdir(ctx.tempdir):
        for n in os.listdir(ctx.tempdir):
            p = os.path.join(ctx.tempdir, n)
            if os.path.isdir(p):
                shutil.rmtree(p)
            else:
                os.unlink(p)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            sub.check(case, ctx)
    except Reject:
        ctx.rejected += 1
        return None
    except HarnessError:
        raise
    except Violation as e:
        return f"{e}"
    except Hang:
        raise
    except Exception as e:      # pylint: disable=broad-except; inputs are valid by construction, so the code under test must not fail
        tb = traceback.extract_tb(e.__traceback__)
        where = " <- ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb[-4:]))
        return f"unexpected {type(e).__name__}: {str(e)[:300]} ({where})"
    finally:
        if ctx._current_nontrivial:
            h = hashlib.md5(dumps(case).encode()).digest()[:8]
            if h not in ctx.nontrivial:
                ctx.nontrivial.add(h)
                if len(ctx.samples) < 2:
                    ctx.samples.append(_abbreviate(case))
    return None


class _Failure(Exception):
    pass


class _EnoughShrinking(BaseException):
    pass


SHRINK_SECONDS = float(os.environ.get("VERIF_SHRINK_SECONDS") or 25)


def _seed_for(base, prop, sub, shard):
    return int.from_bytes(hashlib.sha256(f"{base}|{prop}|{sub}|{shard}".encode()).digest()[:6], "big")


def run_shard(prop, sub, n, seed, shard, result_path, current_path):
    """Body of a worker process: generates ``n`` cases for the given sub-check"""
    import hypothesis
    from hypothesis import HealthCheck, Phase, Verbosity, settings
    from . import coverage
    stop_coverage = coverage.start()
    ctx = Ctx()
    state = {"case": None, "message": None}
    current = os.open(current_path, os.O_RDWR | os.O_CREAT | os.O_TRUNC)
    signal.signal(signal.SIGALRM, _watchdog)
    count = {"n": 0}

    def body(case):
        text = dumps(case).encode()
        os.pwrite(current, text + b"\n", 0)
        os.ftruncate(current, len(text) + 1)
        signal.alarm(CASE_SECONDS)
        try:
            message = run_case(sub, case, ctx)
        finally:
            signal.alarm(0)
        count["n"] += 1
        if message is not None:
            if state["case"] is None:
                state["start"] = time.monotonic()
            if state["case"] is None or len(text) <= state["size"]:
                state.update(case=case, message=message, size=len(text))
        if state["case"] is not None and time.monotonic() - state["start"] > SHRINK_SECONDS:
            raise _EnoughShrinking()
        if message is not None:
            raise _Failure()

    test = hypothesis.given(sub.strategy)(body)
    test = hypothesis.seed(_seed_for(seed, prop, sub.name, shard))(test)
    test = settings(max_examples=n, database=None, deadline=None, report_multiple_bugs=False,
                    print_blob=False, verbosity=Verbosity.quiet, phases=(Phase.generate, Phase.shrink),
                    suppress_health_check=(HealthCheck.too_slow, HealthCheck.data_too_large,
                                           HealthCheck.large_base_example))(test)
    result = {"sub": sub.name, "shard": shard, "error": None, "violation": None}
    start = time.time()
    try:
        devnull = open(os.devnull, "w")
        stderr, sys.stderr = sys.stderr, devnull
        try:
            test()
        finally:
            sys.stderr = stderr
    except (_Failure, _EnoughShrinking):
        result["violation"] = {"case": state["case"], "message": state["message"]}
    except Hang as e:
        if state["case"] is not None:
            result["violation"] = {"case": state["case"], "message": state["message"]}
        else:
            with open(current_path, "rb") as f:
                result["violation"] = {"case": json.loads(f.read()), "message": str(e)}
    except BaseException as e:   # pylint: disable=broad-except; this is a problem of the harness
        if state["case"] is not None:
            result["violation"] = {"case": state["case"], "message": state["message"] + f" (shrinking ended with {type(e).__name__})"}
        else:
            result["error"] = "".join(traceback.format_exception(e))[-4000:]
    stop_coverage()
    if ctx.tempdir is not None:
        shutil.rmtree(ctx.tempdir, ignore_errors=True)
    result.update(evaluations=ctx.evaluations, rejected=ctx.rejected, labels=ctx.labels,
                  nontrivial=[h.hex() for h in ctx.nontrivial], samples=ctx.samples,
                  seconds=time.time() - start)
    with open(result_path + ".tmp", "w") as f:
        json.dump(result, f)
    os.rename(result_path + ".tmp", result_path)


def _child(fn, args):
    """Forks a child process, that runs the given function"""
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid:
        return pid
    try:
        limit = 3 * 1024 ** 3
        resource.setrlimit(resource.RLIMIT_AS, (limit, limit))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        fn(*args)
        code = 0
    except BaseException:   # pylint: disable=broad-except
        traceback.print_exc()
        code = 3
    finally:
        sys.stdout.flush()
        sys.stderr.flush()
    os._exit(code)


class Parallel:
    """Runs (function, args) tasks in forked processes"""

    def __init__(self, tasks, jobs):
        self.tasks = tasks
        self.jobs = jobs
        self.waiting = list(range(len(tasks)))
        self.running = {}
        self.cancelled = set()

    def cancel(self, indices):
        """Ends or skips the given tasks, their results are no longer needed"""
        self.cancelled.update(indices)
        self.waiting = [i for i in self.waiting if i not in self.cancelled]
        for pid, i in self.running.items():
            if i in self.cancelled:
                try:
                    os.kill(pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass

    def __iter__(self):
        while self.waiting or self.running:
            while self.waiting and len(self.running) < self.jobs:
                i = self.waiting.pop(0)
                self.running[_child(*self.tasks[i])] = i
            pid, status = os.wait()
            if pid in self.running:
                i = self.running.pop(pid)
                if i not in self.cancelled:
                    yield i, status


# ---------------------------------------------------------------------------
# numeric comparison
# ---------------------------------------------------------------------------

def fail(message):
    raise Violation(message)


def require(condition, message):
    if not condition:
        raise Violation(message() if callable(message) else message)


def short(x, n=8):
    import numpy
    a = numpy.asarray(x)
    if a.size <= n:
        return f"{a.tolist()}"
    return f"shape {a.shape} {a.ravel()[:n].tolist()}..."


def close(actual, expected, message, rtol=1e-9, atol=0.0, scale=None):
    """Checks, that two arrays are equal up to a tolerance, that scales with the
    data: ``rtol * max(|expected|, scale) + atol``. Infinities and NaNs have to match.

    :param scale: an additional scalar, that describes the magnitude of the intermediate
                  results of the computation (cancellation is not an error of the code under test)
    """
    import numpy
    a = numpy.asarray(actual)
    e = numpy.asarray(expected)
    if a.shape != e.shape:
        raise Violation(f"{message}: shape {a.shape} instead of {e.shape}")
    if a.dtype == object or e.dtype == object:
        raise Violation(f"{message}: dtype {a.dtype} instead of {e.dtype}")
    if a.size == 0:
        return
    with numpy.errstate(all="ignore"):
        same = (a == e)
        if numpy.iscomplexobj(a) or numpy.iscomplexobj(e):
            both_nonfinite = ~numpy.isfinite(a) & ~numpy.isfinite(e)
        else:
            both_nonfinite = numpy.isnan(a) & numpy.isnan(e)
        tol = rtol * numpy.maximum(numpy.abs(e), scale if scale is not None else 0.0) + atol
        ok = same | both_nonfinite | ((numpy.abs(a - e) <= tol) & numpy.isfinite(e) & numpy.isfinite(a))
    if not ok.all():
        i = tuple(int(x) for x in numpy.argwhere(~ok)[0]) if ok.ndim else ()
        raise Violation(f"{message}: at {list(i)} {a[i]!r} instead of {e[i]!r} ({int((~ok).sum())} of {ok.size} values differ)")


def same_array(actual, expected, message):
    """Bitwise equality except for the sign of zeros and NaN payloads"""
    import numpy
    a = numpy.asarray(actual)
    e = numpy.asarray(expected)
    if a.shape != e.shape:
        raise Violation(f"{message}: shape {a.shape} instead of {e.shape}")
    ok = (a == e) | ((a != a) & (e != e))
    if not numpy.all(ok):
        i = tuple(int(x) for x in numpy.argwhere(~ok)[0]) if ok.ndim else ()
        raise Violation(f"{message}: at {list(i)} {a[i]!r} instead of {e[i]!r}")


def equal(actual, expected, message):
    if type(actual).__name__ == "ndarray" or type(expected).__name__ == "ndarray":
        return same_array(actual, expected, message)
    if not actual == expected:
        raise Violation(f"{message}: {str(actual)[:300]!r} instead of {str(expected)[:300]!r}")


def nearly(actual, expected, message, rtol=1e-12, atol=0.0):
    if actual == expected:
        return
    if isinstance(actual, (int, float, complex)) or hasattr(actual, "dtype"):
        if abs(actual - expected) <= rtol * abs(expected) + atol:
            return
    raise Violation(f"{message}: {actual!r} instead of {expected!r}")
