"""Shared runtime-monitoring machinery.

A *workload* is a function ``w(c, rng)`` that drives the real code from /repo/src with a case generated from ``rng``
and lets monitors (``c.ok``, ``c.close``, attached hooks) judge what was observed.  The runner executes many cases of each
workload, in parallel processes, deterministically from VERIF_SEED.  Verdicts are three-valued: violated (with a replay file),
held on what was observed, or inconclusive (a monitor was never reached / a case timed out), see run.py.
"""
import functools
import hashlib
import os
import signal
import sys
import traceback
import zlib
import numpy as np

REPO_SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")
PKG = os.path.join(REPO_SRC, "tight_binding_redweasel") + os.sep


class Violation(Exception):
    def __init__(self, mech, message, witness=None):
        super().__init__(f"{mech}: {message}")
        self.mech = mech
        self.message = message
        self.witness = witness or {}


class Skip(Exception):
    """the generated case is outside of the property's precondition"""


class CaseTimeout(BaseException):
    pass


def _short(x, n=8):
    if isinstance(x, np.ndarray):
        s = np.array2string(x.ravel()[:n], precision=12, threshold=n)
        return f"ndarray{x.shape}{s}{'...' if x.size > n else ''}"
    r = repr(x)
    return r if len(r) < 400 else r[:400] + "..."


def digest(*objs):
    """structural digest of arrays / containers / simple objects, used for purity monitors and distinctness counting"""
    h = hashlib.sha1()
    seen = set()

    def feed(o, depth):
        if isinstance(o, np.ndarray):
            h.update(f"A{o.dtype.str}{o.shape}".encode())
            if o.dtype == object:
                for e in o.ravel():
                    feed(e, depth + 1)
            else:
                h.update(np.ascontiguousarray(o).tobytes())
        elif isinstance(o, (bool, int, float, complex, str, bytes, type(None), np.generic)):
            h.update(f"{type(o).__name__}{o!r}".encode())
        elif isinstance(o, (list, tuple)):
            h.update(f"L{len(o)}".encode())
            for e in o:
                feed(e, depth + 1)
        elif isinstance(o, (set, frozenset)):
            h.update(repr(sorted(map(repr, o))).encode())
        elif isinstance(o, dict):
            for k in sorted(o, key=repr):
                h.update(repr(k).encode())
                feed(o[k], depth + 1)
        elif callable(o) and not hasattr(o, "__dict__"):
            h.update(b"F")
        elif hasattr(o, "__dict__") and not isinstance(o, type) and depth < 8:
            if id(o) in seen:
                return
            seen.add(id(o))
            h.update(type(o).__name__.encode())
            if callable(o) and type(o).__module__ in ("builtins",):
                return
            feed({k: v for k, v in vars(o).items() if not k.startswith("__")}, depth + 1)
            seen.discard(id(o))  # only cycles are cut: sharing is no difference
        else:
            h.update(type(o).__name__.encode())
    for o in objs:
        feed(o, 0)
    return h.hexdigest()


class Ctx:
    """collects what the monitors observed in one case"""

    def __init__(self, prop, tier, workload, index):
        self.prop, self.tier, self.workload, self.index = prop, tier, workload, index
        self.events = {}
        self.keys = set()
        self.notes = []
        self.evaluations = 0
        self.known = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def key(self, *parts):
        """register a non-trivial distinct case (by digest)"""
        self.keys.add(digest(list(parts))[:16])

    def note(self, **kw):
        if len(self.notes) < 4:
            self.notes.append({k: _short(v) for k, v in kw.items()})

    def fail(self, mech, message, **witness):
        raise Violation(mech, message, {k: _short(v, 64) for k, v in witness.items()})

    def ok(self, cond, mech, message="", **witness):
        self.evaluations += 1
        self.event(mech)
        if not bool(cond):
            self.fail(mech, message, **witness)

    def close(self, a, b, mech, rtol=1e-9, atol=0.0, scale=None, message="", **witness):
        """|a-b| <= atol + rtol*scale elementwise, scale defaulting to the largest magnitude involved. NaN fails."""
        self.evaluations += 1
        self.event(mech)
        a = np.asarray(a)
        b = np.asarray(b)
        if a.shape != b.shape:
            self.fail(mech, f"shape {a.shape} != expected {b.shape} {message}", got=a, expected=b, **witness)
        if a.size == 0:
            return
        if scale is None:
            fin = np.abs(b[np.isfinite(b)]) if np.any(np.isfinite(b)) else np.zeros(1)
            fa = np.abs(a[np.isfinite(a)]) if np.any(np.isfinite(a)) else np.zeros(1)
            scale = max(np.max(fin, initial=0.0), np.max(fa, initial=0.0))
        err = np.abs(a - b)
        if not np.all(err <= atol + rtol * scale):
            self.fail(mech, f"max deviation {np.max(err) if np.all(np.isfinite(err)) else 'nan'} > {atol + rtol*scale:.3e} {message}", got=a, expected=b, **witness)


WORKLOADS = {}
# the cheap properties run more cases than their workloads name
REPEAT = {**{f"C{i:02d}": 5 for i in (1, 2, 3, 4, 5, 6, 8, 10, 11, 12, 14, 20, 21, 22, 24, 26)}, "C07": 4, "C09": 2, "C13": 3, "C15": 2, "C18": 2, "C19": 2, "C25": 3}


def workload(prop, quick=40, thorough=None, chunk=None, timeout=120):
    """register a workload for a property; quick/thorough are numbers of cases"""
    def deco(fn):
        WORKLOADS.setdefault(prop, {})[fn.__name__] = dict(fn=fn, quick=quick * REPEAT.get(prop, 1), thorough=max(quick * REPEAT.get(prop, 1), thorough or quick * 8), timeout=timeout)
        return fn
    return deco


def case_rng(seed, prop, name, index):
    return np.random.default_rng([seed & 0xffffffff, zlib.crc32(f"{prop}/{name}".encode()), index])


def in_repo(tb):
    """did the exception come out of the code under test?"""
    last = None
    for fr in traceback.extract_tb(tb):
        if fr.filename.startswith(PKG):
            last = f"{os.path.basename(fr.filename)}:{fr.name}"
    return last


def run_case(prop, tier, seed, name, index):
    """execute one case in this process; returns a result dict"""
    w = WORKLOADS[prop][name]
    c = Ctx(prop, tier, name, index)
    rng = case_rng(seed, prop, name, index)
    res = dict(workload=name, index=index, status="held", violation=None)

    def on_alarm(signum, frame):
        raise CaseTimeout("cpu" if signum == signal.SIGPROF else "wall")
    # CPU time decides (a loaded machine is no verdict); the wall-clock alarm is only a watchdog
    signal.signal(signal.SIGALRM, on_alarm)
    signal.signal(signal.SIGPROF, on_alarm)
    signal.setitimer(signal.ITIMER_PROF, w["timeout"])
    signal.alarm(3 * w["timeout"])
    cwd = os.getcwd()
    np.random.seed(int(rng.integers(2**32)))  # the code under test uses the global generator
    try:
        with np.errstate(all="ignore"):
            w["fn"](c, rng)
        if c.evaluations == 0:
            res["status"] = "skip"
    except Skip:
        res["status"] = "skip"
    except Violation as v:
        res["status"] = "violation"
        res["violation"] = dict(mech=v.mech, message=str(v.message)[:2000], witness=v.witness)
    except CaseTimeout as e:
        where = in_repo(e.__traceback__)
        res["status"] = "timeout"
        res["error"] = f"timeout in {name}[{index}]"
        if str(e) == "cpu" and where is not None:
            res["status"] = "violation"
            res["violation"] = dict(mech=f"hang:{name}", message=f"no result after {w['timeout']} s of CPU time in {where}; cases of this kind need a small fraction of that",
                                    witness=dict(traceback="".join(traceback.format_exception(e))[-3000:]))
    except Exception as e:
        where = in_repo(e.__traceback__)
        text = "".join(traceback.format_exception(e))[-3000:]
        if where is not None and not isinstance(e, MemoryError):
            res["status"] = "violation"
            res["violation"] = dict(mech=f"crash:{name}", message=f"{type(e).__name__} out of {where} on valid input: {e}", witness=dict(traceback=text))
        elif isinstance(e, (TypeError, ValueError, IndexError, KeyError, ZeroDivisionError, AssertionError)):
            # every case is processed cleanly as long as the library answers in its documented form (swept on the unchanged tree)
            res["status"] = "violation"
            res["violation"] = dict(mech=f"malformed-result:{name}", message=f"the answers of the library could not be processed as documented: {type(e).__name__}: {e}", witness=dict(traceback=text))
        else:
            res["status"] = "error"
            res["error"] = text
    finally:
        signal.alarm(0)
        signal.setitimer(signal.ITIMER_PROF, 0)
        os.chdir(cwd)
    res.update(evaluations=c.evaluations, events=c.events, keys=c.keys, notes=c.notes)
    return res


# ---------------------------------------------------------------- hooks

class Hook:
    """wrap ``owner.name`` with a monitor ``mon(call, result)`` run after every call (also nested calls from inside the code under test).

    The monitor may raise Violation; it is told the bound arguments.  ``with Hook(...)`` restores the original."""

    def __init__(self, owner, name, after=None, before=None):
        self.owner, self.name, self.after, self.before = owner, name, after, before
        self.depth = 0
        self.calls = 0

    def __enter__(self):
        orig = self.owner.__dict__[self.name] if isinstance(self.owner, type) else getattr(self.owner, self.name)
        self.orig = orig
        call = orig.__func__ if isinstance(orig, (staticmethod, classmethod)) else orig
        hook = self

        @functools.wraps(call)
        def wrapped(*a, **kw):
            if hook.depth:
                return call(*a, **kw)
            hook.depth += 1
            try:
                state = hook.before(a, kw) if hook.before else None
            finally:
                hook.depth -= 1
            res = call(*a, **kw)
            hook.calls += 1
            if hook.after:
                hook.depth += 1
                try:
                    hook.after(a, kw, res, state)
                finally:
                    hook.depth -= 1
            return res
        if isinstance(orig, staticmethod):
            wrapped = staticmethod(wrapped)
        elif isinstance(orig, classmethod):
            wrapped = classmethod(wrapped)
        setattr(self.owner, self.name, wrapped)
        return self

    def __exit__(self, *exc):
        setattr(self.owner, self.name, self.orig)
        return False


class hooks:
    """context manager for several hooks"""

    def __init__(self, *hs):
        self.hs = hs

    def __enter__(self):
        for h in self.hs:
            h.__enter__()
        return self.hs

    def __exit__(self, *exc):
        for h in reversed(self.hs):
            h.__exit__(*exc)
        return False


class scratch:
    """fresh working directory below $TMPDIR, removed afterwards"""

    def __enter__(self):
        import tempfile
        self.old = os.getcwd()
        self.dir = tempfile.mkdtemp(prefix="case")
        os.chdir(self.dir)
        return self.dir

    def __exit__(self, *exc):
        import shutil
        os.chdir(self.old)
        shutil.rmtree(self.dir, ignore_errors=True)
        return False


class quiet:
    """swallow what the code under test prints (file descriptors stay untouched)"""

    def __enter__(self):
        import io
        self.old = sys.stdout
        sys.stdout = self.buf = io.StringIO()
        return self.buf

    def __exit__(self, *exc):
        sys.stdout = self.old
        return False
