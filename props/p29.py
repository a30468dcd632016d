"""P29: repeatability, untouched arguments, results that stay valid."""
import ctypes
import gc
import os
import shutil
import tempfile
import warnings
import numpy as np
import pymaster as nmt
from lib import api
from lib.gen import rng_of
from lib.pbt import Sub

RULE = ("Non-trivial: the call returned (it was not refused) and its result, "
        "its arguments or what it changed contain numbers that were compared.")
ASSUMPTIONS = ["results agree to 1e-7 of their largest value",
               "wcs and map-info objects are compared through their "
               "observable content"]
GOMP = ctypes.CDLL("libgomp.so.1")
NAMES = sorted(set(api.ENTRIES) - {
    # defaults are the subject of P30
    "set_sht_calculator", "set_n_iter_default", "set_tol_pinv_default"})
FORMS = ["as is", "as is", "noncontig", "fortran", "swapped", "readonly",
         "view"]


def threads(k):
    GOMP.omp_set_num_threads(int(k))


def private(fn):
    def run(c, x):
        x.scratch = tempfile.mkdtemp(dir=x.scratch)
        old = GOMP.omp_get_max_threads()
        warnings.simplefilter("ignore")
        np.seterr(all="ignore")
        try:
            fn(c, x)
        finally:
            threads(old)
            shutil.rmtree(x.scratch, ignore_errors=True)
    return run


def gen_env(d):
    c = api.gen_env(d)
    c.update(ny=d.int(7, 11), nx=d.int(7, 11))
    return c


def form(v, how):
    """The same numbers in another representation."""
    if not isinstance(v, np.ndarray) or v.dtype.kind != "f" or v.ndim == 0:
        return v
    if how == "noncontig":
        b = np.full(tuple(2 * n for n in v.shape), np.nan)
        s = tuple(slice(1, None, 2) for _ in v.shape)
        b[s] = v
        return b[s]
    if how == "fortran":
        return np.asfortranarray(v)
    if how == "swapped":
        return v.astype(v.dtype.newbyteorder())
    if how == "readonly":
        v = v.copy()
        v.flags.writeable = False
        return v
    if how == "view":
        b = np.concatenate([v, v])
        return b[:len(v)]
    return v


def deep(v):
    """A bitwise copy of an argument, for later comparison."""
    if isinstance(v, np.ndarray):
        return (v.dtype.str, v.shape, v.copy())
    if isinstance(v, (list, tuple)):
        return [deep(x) for x in v]
    return None


def unchanged(v, s):
    if isinstance(v, np.ndarray):
        if v.dtype.str != s[0] or v.shape != s[1]:
            return False
        return np.array_equal(v, s[2], equal_nan=v.dtype.kind in "fc")
    if isinstance(v, (list, tuple)):
        return len(v) == len(s) and all(unchanged(a, b)
                                        for a, b in zip(v, s))
    return True


def outcome(f, kw):
    try:
        return f(**kw), None
    except Exception as q:
        return None, type(q).__name__ + ": " + str(q)[:100]


def gen_calls(d):
    return dict(env=gen_env(d), ops=[
        dict(name=d.choice(NAMES), forms=[d.choice(FORMS) for _ in range(3)],
             th=d.int(1, 8), after=d.choice(["keep", "keep", "free", "spoil"]),
             twice=d.bool(), k=d.int(0, 10**6))
        for _ in range(d.int(1, 6))])


def reference(c, name, x, th=1):
    """What the call gives in an environment of its own."""
    threads(th)
    d = tempfile.mkdtemp(dir=x.scratch)
    e = api.Env(c["env"], d)
    f, kw = api.ENTRIES[name](e)
    r, err = outcome(f, kw)
    ch = api.CHANGES.get(name)
    return (err if err else api.snapshot(r, e),
            api.snapshot(e.made[ch], e) if ch and not err else None,
            content(d) if name in api.WRITES and not err else None)


def content(d):
    """Files in a folder (their numbers are read back elsewhere: P06, P12
    and P26)."""
    return {f: os.path.getsize(os.path.join(d, f))
            for f in sorted(os.listdir(d))
            if os.path.isfile(os.path.join(d, f))}


TOL = 1e-7
# gives the same map in another shape, as numpy.reshape does
VIEWS = {"minfo.reform_map"}


def spoil(kw):
    """Overwrites the arrays that were given to a call."""
    for v in kw.values():
        vs = v if isinstance(v, (list, tuple)) else [v]
        for a in vs:
            if isinstance(a, np.ndarray) and a.flags.writeable:
                a[...] = 0 if a.dtype.kind not in "fc" else np.nan


@private
def fn_calls(c, x):
    e = api.Env(c["env"], x.scratch)
    kept = []
    for o in c["ops"]:
        name = o["name"]
        want, want_ch, _ = reference(c, name, x)
        threads(o["th"])
        f, kw = api.ENTRIES[name](e)
        hows = set()
        for i, n in enumerate(sorted(kw)):
            how = o["forms"][i % len(o["forms"])]
            v = form(kw[n], how)
            if v is not kw[n]:
                hows.add(f"{n} {how}")
            elif isinstance(v, np.ndarray):
                v = v.copy()        # so that it may be spoiled later
            elif isinstance(v, list):
                v = [a.copy() if isinstance(a, np.ndarray) else a for a in v]
            kw[n] = v
        what = f"{name} ({', '.join(sorted(hows))}; {o['th']} threads)"
        before = {n: deep(v) for n, v in kw.items()}
        objs = {k: api.snapshot(v, e) for k, v in list(e.made.items())
                if type(v).__module__.startswith("pymaster")}
        r, err = outcome(f, kw)
        got = err if err else api.snapshot(r, e)
        if err and "eadonly" in repr(hows) and "read-only" in err:
            x.label("read-only array refused")
            continue
        x.label(name, *hows)
        x.nontrivial(err is None)
        d = api.same(want, got, TOL)
        x.check(d is None, f"{what} gives something else than the first call "
                f"in a fresh state: {d}")
        for n, v in kw.items():
            x.check(unchanged(v, before[n]), f"{what} modified its argument "
                    f"{n}")
        ch = api.CHANGES.get(name)
        for k, s in objs.items():
            if k == ch:
                continue
            d = api.same(s, api.snapshot(e.made[k], e), TOL)
            x.check(d is None, f"{what} changed object {k}{d}")
        if ch:
            if not err:
                d = api.same(want_ch, api.snapshot(e.made[ch], e), TOL)
                x.check(d is None, f"object changed by {what} differs from "
                        f"the same change in a fresh state: {d}")
            # the next call gets a new one, and this one is kept
            kept.append((what, e.made.pop(ch), None))
            kept[-1] = (what, kept[-1][1], api.snapshot(kept[-1][1], e))
        if o["twice"] and not ch and not err:
            r2, err2 = outcome(f, kw)
            d = api.same(got, err2 if err2 else api.snapshot(r2, e), TOL)
            x.check(d is None, f"a second {what} differs: {d}")
        if r is not None:
            kept.append((what, r, got))
        if o["after"] == "spoil" and not err and name not in VIEWS:
            # the caller reuses its arrays for something else
            spoil(kw)
        elif o["after"] == "free" and e.made:
            k = sorted(e.made)[o["k"] % len(e.made)]
            del e.made[k]
        del f, kw, r
        gc.collect()
        for w, r, s in kept:
            d = api.same(s, api.snapshot(r, e), TOL)
            x.check(d is None, f"result of {w} changed later, after {what} "
                    f"({o['after']}): {d}")
            del r
    e.made.clear()
    gc.collect()
    threads(3)
    for w, r, s in kept:
        d = api.same(s, api.snapshot(r, e), TOL)
        x.check(d is None, f"result of {w} changed when other objects were "
                f"freed: {d}")


def gen_threads(d):
    e = gen_env(d)
    e.update(nside=d.choice([4, 8]), lmax=d.int(10, 23), ny=d.int(12, 40),
             nx=d.int(12, 40))
    e["lmax"] = min(e["lmax"], 3 * e["nside"] - 1)
    return dict(env=e, ops=[dict(name=d.choice(NAMES), th=d.int(2, 8),
                                 times=d.int(1, 3))
                            for _ in range(d.int(1, 3))])


@private
def fn_threads(c, x):
    """Each call, with everything that it needs, with one and with several
    threads, on sizes at which every thread has something to do."""
    for o in c["ops"]:
        name = o["name"]
        one = reference(c, name, x)
        for _ in range(o["times"]):
            more = reference(c, name, x, th=o["th"])
            for a, b, w in zip(one, more, ["result", "changed object",
                                           "files"]):
                d = api.same(a, b, TOL) if w != "files" else (
                    None if a == b else f"{a} -> {b}")
                x.check(d is None, f"{w} of {name} with {o['th']} threads "
                        f"differs from the one with a single thread: {d}")
        x.label(name)
        x.nontrivial(not isinstance(one[0], str))


SUBS = [Sub("calls", gen_calls, fn_calls, quick=3000, thorough=30000,
            weight=20),
        Sub("threads", gen_threads, fn_threads, quick=2500, thorough=40000,
            weight=20)]
