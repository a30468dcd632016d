"""Property-based testing harness: declaring sub-checks (generator + oracle)
and running them inside a worker process with Hypothesis."""
import hashlib
import json
import os
import sys
import time
import traceback

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)

import hypothesis  # noqa: E402
from hypothesis import HealthCheck, Phase, settings, strategies as st  # noqa


class Violation(AssertionError):
    """The oracle disagrees with the library."""


class Inconclusive(BaseException):
    """A time budget ran out (never a violation)."""


class StopShrink(BaseException):
    pass


class Draw:
    """Thin layer over hypothesis' draw: every random choice goes through it,
    and produces plain JSON values."""

    def __init__(self, draw):
        self._d = draw

    def int(self, a, b):
        return self._d(st.integers(int(a), int(b)))

    def bool(self):
        return self._d(st.booleans())

    def choice(self, xs):
        return self._d(st.sampled_from(list(xs)))

    def seed(self):
        return self._d(st.integers(0, 2**31 - 1))

    def float(self, a, b):
        return self._d(st.floats(a, b, allow_nan=False, allow_infinity=False,
                                 width=64))

    def rare(self, x, *tail, n=8):
        """x, or one time in n one of the unusual values."""
        return self.choice(tail) if self.int(1, n) == n else x

    def list(self, fn, a, b):
        n = self.int(a, b)
        return [fn() for _ in range(n)]

    def subset(self, xs):
        return [x for x in xs if self.bool()]

    def perm(self, xs):
        return list(self._d(st.permutations(list(xs))))

    def binary(self, a, b):
        return self._d(st.binary(min_size=a, max_size=b)).hex()

    def raw(self, strat):
        return self._d(strat)


class UniformDraw(Draw):
    """The same draws, evenly distributed (Hypothesis repeats itself and
    favours small values, so that rare combinations of choices are seldom
    met). The choices are recorded so that failures can be shrunk."""

    def __init__(self, rng=None, replay=()):
        self.rng = rng
        self.rec = []
        self.rep = list(replay)

    def _n(self, n):
        """An integer in [0, n), simplest first."""
        if n < 1:
            raise ValueError("nothing to choose from")
        if self.rng is not None:
            v = int(self.rng.integers(n))
        else:
            k = len(self.rec)
            v = min(self.rep[k], n - 1) if k < len(self.rep) else 0
        self.rec.append(v)
        return v

    def int(self, a, b):
        a, b = int(a), int(b)
        v = self._n(b - a + 1)
        if a >= 0:
            return a + v
        if b <= 0:
            return b - v
        m = min(-a, b)       # 0, 1, -1, 2, -2, ...
        if v <= 2 * m:
            return (v + 1) // 2 if v % 2 else -v // 2
        return v - m if b > m else m - v

    def bool(self):
        return bool(self._n(2))

    def choice(self, xs):
        xs = list(xs)
        return xs[self._n(len(xs))]

    def seed(self):
        return self._n(2**31)

    def float(self, a, b):
        v = self._n(2**30 + 1) / 2**30
        x = a + (b - a) * v
        return min(max(x, a), b)

    def perm(self, xs):
        xs = list(xs)
        for i in range(len(xs) - 1):
            j = i + self._n(len(xs) - i)
            xs[i], xs[j] = xs[j], xs[i]
        return xs

    def binary(self, a, b):
        return bytes(self._n(256) for _ in range(self.int(a, b))).hex()

    def raw(self, strat):
        raise TypeError("no such draw")


def shrink_choices(rec, fails):
    """Makes a failing list of choices shorter or smaller while fails(list)
    returns the choices it used (None if it passes)."""
    def key(r):
        return (len(r), sum(v > 0 for v in r), r)

    def attempt(new):
        nonlocal rec
        got = fails(new)
        if got is not None and key(got) < key(rec):
            rec = got
            return True
        return False

    while True:
        start = key(rec)
        size = max(1, len(rec) // 2)
        while size >= 1:
            i = 0
            while i < len(rec):
                if not (any(rec[i:i + size]) and attempt(
                        rec[:i] + [0] * size + rec[i + size:])):
                    if not attempt(rec[:i] + rec[i + size:]):
                        i += size
                else:
                    i += size
            size //= 2
        i = 0
        while i < len(rec):
            lo = 0
            while i < len(rec) and rec[i] > lo:
                mid = (lo + rec[i]) // 2
                if not attempt(rec[:i] + [mid] + rec[i + 1:]):
                    lo = mid + 1
            i += 1
        if key(rec) == start:
            return rec


class Ctx:
    """Per-case recorder handed to the oracle."""

    def __init__(self, scratch=None):
        self.labels = []
        self.nt = False
        self.scratch = scratch

    def label(self, *ls):
        for s in ls:
            self.labels.append(str(s))

    def nontrivial(self, cond=True):
        self.nt = bool(cond) or self.nt

    # -- assertions ---------------------------------------------------
    def check(self, cond, msg="", **kw):
        if not cond:
            raise Violation(msg + (" " + repr(kw) if kw else ""))

    def close(self, got, want, rtol=1e-8, atol=0.0, scale=None, msg="",
              shape=True):
        """|got-want| <= rtol*scale + atol, where scale defaults to the
        largest magnitude of the expected array."""
        import numpy as np
        got = np.asarray(got)
        want = np.asarray(want)
        if shape and got.shape != want.shape:
            raise Violation(f"{msg}: shape {got.shape}, expected {want.shape}")
        if want.size == 0:
            return
        if not np.all(np.isfinite(got)):
            raise Violation(f"{msg}: non-finite values in the result")
        if scale is None:
            scale = np.max(np.abs(want))
        d = np.abs(got - want)
        tol = rtol * scale + atol
        if not np.all(d <= tol):
            w = np.argmax(d - tol * np.ones_like(d))
            idx = np.unravel_index(w, d.shape)
            raise Violation(
                f"{msg}: max difference {d[idx]:.6g} > tolerance "
                f"{float(np.broadcast_to(tol, d.shape)[idx]):.3g} at index "
                f"{tuple(int(i) for i in idx)}: got {got[idx]!r}, "
                f"expected {want[idx]!r}")

    def equal(self, got, want, msg=""):
        import numpy as np
        got = np.asarray(got)
        want = np.asarray(want)
        if got.shape != want.shape:
            raise Violation(f"{msg}: shape {got.shape}, expected {want.shape}")
        if not np.array_equal(got, want):
            raise Violation(f"{msg}: got {got!r}, expected {want!r}"[:1500])

    def raises(self, fn, exc=Exception, msg=""):
        """fn must raise exc; returns the exception."""
        try:
            r = fn()
        except exc as e:
            return e
        raise Violation(f"{msg}: expected a Python exception, call returned "
                        f"{type(r).__name__}")


class Sub:
    """One generated check: gen(Draw)->JSON case, fn(case, ctx)."""

    def __init__(self, name, gen, fn, quick, thorough=None, examples=(),
                 shards=None, weight=1.0, isolate=False, rule="", threads=None,
                 slow_ok=False):
        self.name = name
        self.gen = gen
        self.fn = fn
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.examples = list(examples)
        self.shards = shards
        self.weight = weight
        self.isolate = isolate
        self.slow_ok = slow_ok    # a case ended by SIGALRM is inconclusive
        self.rule = rule


def case_key(name, case):
    return hashlib.sha1((name + json.dumps(case, sort_keys=True)).encode()
                        ).hexdigest()[:16]


def derive_seed(*parts):
    return int.from_bytes(hashlib.sha256(
        "/".join(map(str, parts)).encode()).digest()[:6], "big")


def describe_exc(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}"
                      for f in tb[-4:])
    kind = "" if isinstance(e, Violation) else type(e).__name__ + ": "
    return f"{kind}{e} [{where}]"[:3000]


def run_case(sub, case, scratch=None):
    """Runs one case in this process. Returns (ctx, error or None)."""
    ctx = Ctx(scratch)
    try:
        sub.fn(case, ctx)
    except (MemoryError, KeyboardInterrupt):
        raise
    except Exception as e:   # anything the oracle or the library raises
        return ctx, describe_exc(e)
    return ctx, None


def run_case_forked(sub, case, scratch=None, timeout=200):
    """Runs one case in a forked child: process death becomes an error."""
    import signal
    import select
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            import faulthandler
            faulthandler.disable()
            ctx, err = run_case(sub, case, scratch)
            out = json.dumps({"labels": ctx.labels, "nt": ctx.nt,
                              "err": err}).encode()
            os.write(w, out[:60000] if len(out) > 60000 else out)
            code = 0
        except BaseException:
            traceback.print_exc()
            code = 77
        os._exit(code)
    os.close(w)
    buf = b""
    t0 = time.time()
    hung = False
    while True:
        rem = timeout - (time.time() - t0)
        if rem <= 0:
            hung = True
            break
        rd, _, _ = select.select([r], [], [], rem)
        if not rd:
            hung = True
            break
        b = os.read(r, 65536)
        if not b:
            break
        buf += b
    os.close(r)
    if hung:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        return Ctx(), f"the call did not return within {timeout} s"
    _, stt = os.waitpid(pid, 0)
    if os.WIFSIGNALED(stt):
        sg = os.WTERMSIG(stt)
        if sg == signal.SIGALRM and sub.slow_ok:
            ctx = Ctx()
            ctx.label("gave up: slow")
            return ctx, None
        if sg == signal.SIGKILL:
            raise MemoryError("child was killed (out of memory?)")
        return Ctx(), f"process terminated by signal {sg}"
    code = os.WEXITSTATUS(stt)
    if code == 77:
        raise RuntimeError("harness error in forked child")
    if code != 0 or not buf:
        return Ctx(), f"process terminated with exit status {code}"
    d = json.loads(buf)
    ctx = Ctx()
    ctx.labels, ctx.nt = d["labels"], d["nt"]
    return ctx, d["err"]


def uniform(sub, one, seed, n):
    """Cases drawn evenly; the first failing one is shrunk."""
    import numpy as np
    rng = np.random.default_rng([int(seed) % 2**63, 11])

    def fails(choices):
        d = UniformDraw(replay=choices)
        case = sub.gen(d)
        if len(d.rec) > len(choices):
            return None       # (would not be simpler)
        try:
            one(json.loads(json.dumps(case)))
        except Violation:
            return d.rec
        return None

    for _ in range(n):
        d = UniformDraw(rng)
        case = sub.gen(d)
        try:
            one(json.loads(json.dumps(case)))
        except Violation:
            shrink_choices(d.rec, fails)
            return


def run_sub(sub, seed, n, status_cb, deadline, known=(), scratch=None,
            use_examples=True, isolate=None, shrink_s=40.0):
    """Runs n generated cases of one sub-check. Returns a result dict."""
    iso = sub.isolate if isolate is None else isolate
    runner = run_case_forked if iso else run_case
    res = {"sub": sub.name, "evaluations": 0, "keys": {}, "labels": {},
           "samples": [], "failure": None, "known": [], "inconclusive": None}
    state = {"fail": None, "t_fail": None, "err0": None}

    def one(case):
        if state["t_fail"] is None and time.time() > deadline:
            raise Inconclusive("time budget")
        if state["t_fail"] is not None and (
                time.time() - state["t_fail"] > shrink_s):
            raise StopShrink()
        status_cb(sub.name, case)
        t0 = time.time()
        ctx, err = runner(sub, case, scratch)
        dt = time.time() - t0
        status_cb(None, None)
        if state["t_fail"] is None:
            res["evaluations"] += 1
            res["maxdt"] = max(res.get("maxdt", 0), dt)
            k = case_key(sub.name, case)
            if ctx.nt:
                res["keys"][k] = 1
                if len(res["samples"]) < 2:
                    res["samples"].append({"sub": sub.name, "case": case,
                                           "labels": ctx.labels[:8]})
            for s in set(ctx.labels):
                res["labels"][s] = res["labels"].get(s, 0) + 1
        if err is not None:
            for kf in known:
                if kf["sub"] == sub.name and all(
                        case.get(a) == b for a, b in kf["match"].items()):
                    res["known"].append(kf["id"])
                    return
            if state["t_fail"] is None:
                state["t_fail"] = time.time()
                state["err0"] = err
            state["fail"] = (case, err)
            raise Violation(err)

    try:
        if use_examples:
            for ex in sub.examples:
                try:
                    one(ex)
                except Violation:
                    res["failure"] = {"case": state["fail"][0],
                                      "error": state["fail"][1]}
                    return res
        n_uni = n - n // 3
        if n > 0:
            uniform(sub, one, seed, n_uni)
        if n > n_uni and state["fail"] is None:
            @st.composite
            def strat(draw):
                return sub.gen(Draw(draw))

            @hypothesis.seed(seed)
            @settings(max_examples=n - n_uni, database=None, deadline=None,
                      derandomize=False, report_multiple_bugs=False,
                      phases=(Phase.generate, Phase.shrink),
                      suppress_health_check=list(HealthCheck),
                      print_blob=False)
            @hypothesis.given(strat())
            def test(case):
                one(json.loads(json.dumps(case)))

            try:
                test()
            except (StopShrink, Inconclusive):
                raise
            except MemoryError:
                raise
            except BaseException:
                if state["fail"] is None:
                    raise
    except Inconclusive as e:
        res["inconclusive"] = str(e)
    except StopShrink:
        pass
    if state["fail"] is not None:
        res["failure"] = {"case": state["fail"][0], "error": state["fail"][1],
                          "first_error": state["err0"]}
    return res
