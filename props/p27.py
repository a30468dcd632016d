"""P27: simulated flat-sky fields."""
import ctypes
import numpy as np
import pymaster as nmt
from lib.flat import interp
from lib.gen import rng_of
from lib.pbt import Sub
from props.p21 import gen_patch, patch_of

RULE = ("Non-trivial: at least two Fourier modes with power (statistics), or "
        "a field with power in more than one mode (seeds, dependence).")
ASSUMPTIONS = ["statistics over 2500 draws: 8 standard deviations",
               "Nyquist modes of spin fields, which a real map cannot hold, "
               "are left out", "guess spectra are positive semi-definite",
               "power spectra are linearly interpolated between multipoles "
               "and null beyond the last one"]
GOMP = ctypes.CDLL("libgomp.so.1")


def gen(d):
    n = d.rare(d.int(1, 3), 4, 6, n=15)
    return dict(patch=gen_patch(d, 6), spins=[d.choice([0, 0, 2, 2, 1, 3])
                                              for _ in range(n)],
                lmax=d.choice([1, 2, 10, 60]), kind=d.choice(
                    ["random", "random", "flat", "cut", "rank1", "scales"]),
                beam=d.bool(), dt=d.choice(["array", "array", "list", "f4"]),
                seed=d.seed())


class Obj:
    pass


def setup(c, x, odd=False):
    o = Obj()
    o.rng = rng = rng_of(c["seed"])
    if odd and any(c["spins"]):
        c = dict(c, patch=dict(c["patch"], nx=c["patch"]["nx"] | 1,
                               ny=c["patch"]["ny"] | 1))
    o.P = P = patch_of(c, rng)
    # patch size such that the spectra cover part of the modes
    km = max(np.max(P.k), P.dkx, P.dky)
    f = km / c["lmax"] * rng.uniform(0.6, 1.3)
    from lib.flat import Patch
    o.P = P = Patch(P.nx, P.ny, P.lx * f, P.ly * f)
    o.sp = c["spins"]
    o.nm = [2 if s else 1 for s in o.sp]
    o.n = n = sum(o.nm)
    o.L = L = c["lmax"] + 1
    r = 1 if c["kind"] == "rank1" else n
    A = rng.standard_normal((L, n, r)) / np.sqrt(r)
    if c["kind"] == "flat":
        A[:] = A[0]
    if c["kind"] == "scales":   # fields of very different amplitudes
        A = A * 10.**rng.uniform(-1.9, 1.9, (n, 1))
    C = np.einsum("lik,ljk->lij", A, A)
    if c["kind"] == "cut":
        C[:1 + L // 3] = 0.
    if c["dt"] == "f4":
        C = C.astype(np.float32).astype(float)
    o.C = C
    iu = np.triu_indices(n)
    o.cls = C[:, iu[0], iu[1]].T.copy()
    if c["dt"] == "list":
        o.cls = o.cls.tolist()
    o.beam = rng.uniform(0.2, 1.5, (len(o.sp), L)) if c["beam"] else None
    x.label("spins " + "".join(map(str, o.sp)), c["kind"])
    return o


def draw(o, seed):
    P = o.P
    return nmt.synfast_flat(P.nx, P.ny, P.lx, P.ly, o.cls, o.sp,
                            beam=o.beam, seed=seed)


def modes(o, maps):
    """Independent real amplitudes [component, mode] of a set of maps."""
    P = o.P
    out, i = [], 0
    for s, m in zip(o.sp, o.nm):
        a = P.alms(maps[i:i + m], s)
        i += m
        out.append(a)
    a = np.concatenate(out)
    return np.concatenate([np.sqrt(2.) * a[:, o.half].real, np.sqrt(2.) * a[
        :, o.half].imag, a[:, o.real].real], axis=1)


def select(o):
    P = o.P
    iy, ix = np.mgrid[:P.ny, :P.nx]
    jy, jx = (-iy) % P.ny, (-ix) % P.nx
    o.real = (iy == jy) & (ix == jx)
    o.half = ~o.real & ((iy < jy) | ((iy == jy) & (ix < jx)))
    if any(s % 2 for s in o.sp):
        o.real = o.real & False
    o.k = np.concatenate([P.k[o.half]] * 2 + [P.k[o.real]])


def expected(o):
    """Covariance of the components for each mode."""
    ls = np.arange(o.L)
    C = np.array([[interp(o.k, ls, o.C[:, i, j]) for j in range(o.n)]
                  for i in range(o.n)])
    if o.beam is not None:
        b = np.array([interp(o.k, ls, o.beam[f]) for f, m in enumerate(o.nm)
                      for _ in range(m)])
        C = C * b[:, None] * b[None]
    return C * o.P.area / (4 * np.pi**2)


def gen_stats(d):
    c = gen(d)
    if d.choice([0, 0, 1]):   # Nyquist modes
        c["spins"] = [0] * d.int(1, 2)
        for k in d.choice([["nx"], ["ny"], ["nx", "ny"]]):
            c["patch"][k] = d.choice([2, 4, 6])
    return c


def stats(c, x):
    o = setup(c, x, True)
    select(o)
    if len(o.k) == 0:
        return
    if np.min(np.abs(o.k - (o.L - 1))) < 1e-6 * o.L:
        return
    N = c.get("N", 2500)
    s0 = int(o.rng.integers(1, 10**8))
    X = np.array([modes(o, draw(o, s0 + i)) for i in range(N)])
    C = expected(o)
    x.nontrivial(np.sum(np.einsum("iik->k", C) > 0) > 1)
    # standardise with the largest expected dispersion of each component
    sd = np.sqrt(np.einsum("iik->ik", C))
    sd = np.where(sd > 1e-9 * np.max(sd), sd, np.max(sd))
    if not np.max(sd) > 0:
        x.check(np.all(X == 0), "null spectra give a non-null field")
        return
    Z = (X / sd).reshape(N, -1)
    W = np.zeros((o.n, len(o.k), o.n, len(o.k)))
    q = np.arange(len(o.k))
    W[:, q, :, q] = (C / sd[:, None] / sd[None]).transpose(2, 0, 1)
    W = W.reshape(Z.shape[1], -1)
    dg = np.diag(W)
    err = np.sqrt((np.multiply.outer(dg, dg) + W**2) / N)
    D = Z.T @ Z / N - W
    bad = np.abs(D) > 8 * err + 1e-9
    if np.any(bad):
        i = np.unravel_index(np.argmax(np.abs(D) / (err + 1e-9)), D.shape)
        x.check(False, "covariance of amplitudes %s (component, mode) and %s:"
                " %g, expected %g +- %g" % (
                    divmod(i[0], len(o.k)), divmod(i[1], len(o.k)),
                    D[i] + W[i], W[i], err[i]))
    mu = Z.mean(0)
    x.check(np.all(np.abs(mu) <= 7 * np.sqrt(dg / N) + 1e-9),
            "mean of the amplitudes is not null")
    # consecutive seeds are independent
    D = Z[1:].T @ Z[:-1] / (N - 1)
    err = np.sqrt(np.multiply.outer(dg, dg) / (N - 1))
    x.check(np.all(np.abs(D) <= 8 * err + 1e-9),
            "consecutive seeds are correlated")
    # power per mode, summed over all modes and draws
    for i in range(o.n):
        v = dg.reshape(o.n, -1)[i]
        p = np.mean(Z.reshape(N, o.n, -1)[:, i]**2, axis=0)
        t = np.sum(v > 0.5)
        if t:
            x.check(abs(np.sum((p - v)[v > 0.5]) / t) < 7 * np.sqrt(
                2. / N / t), f"total power of component {i}")
    # Gaussian: fourth moment
    g = dg > 0.5
    if np.any(g):
        k4 = np.mean((Z[:, g]**4), axis=0).mean() / 3.
        x.check(abs(k4 - 1) < 7 * np.sqrt(32. / 3 / N), "kurtosis")


def seeds(c, x):
    o = setup(c, x)
    P = o.P
    s = int(o.rng.integers(0, 10**8)) if c["seed"] % 4 else c["seed"] % 3
    keep = np.array(o.cls), None if o.beam is None else o.beam.copy()
    nt = GOMP.omp_get_max_threads()
    m = draw(o, s)
    x.check(m.shape == (o.n, P.ny, P.nx) and m.dtype == float, "shape")
    x.check(np.all(np.isfinite(m)), "not finite")
    x.equal(np.array(o.cls), keep[0], "spectra modified")
    if keep[1] is not None:
        x.equal(o.beam, keep[1], "beam modified")
    try:
        for k in (1, 2, 3, 8):
            GOMP.omp_set_num_threads(k)
            np.random.seed(k)
            draw(o, s + k)
            x.close(draw(o, s), m, 1e-10, msg=f"same seed, {k} threads")
    finally:
        GOMP.omp_set_num_threads(nt)
    st = np.random.get_state()
    draw(o, s)
    x.check(np.array_equal(st[1], np.random.get_state()[1]) and
            st[2] == np.random.get_state()[2],
            "a seeded draw changes the state of numpy's generator")
    if np.max(np.abs(m)) > 0:
        x.nontrivial(True)
        for t in (s + 1, s + 17, -1, -5):
            x.check(np.max(np.abs(draw(o, t) - m)) > 1e-6 * np.max(np.abs(m)),
                    f"seeds {s} and {t} give the same maps")
        a, b = draw(o, -1), draw(o, -1)
        x.check(not np.array_equal(a, b), "two random seeds are equal")


def gen_dep(d):
    return dict(patch=gen_patch(d, 9), s=d.choice([0, 0, 2, 1]),
                lmax=d.choice([5, 30]), beam=d.bool(),
                a=[d.int(-3, 3), d.int(1, 3)], seed=d.seed())


def dep(c, x):
    """A field that is a combination of others is so exactly."""
    o = Obj()
    rng = rng_of(c["seed"])
    P = patch_of(c, rng)
    from lib.flat import Patch
    f = max(np.max(P.k), P.dkx, P.dky) / c["lmax"] * rng.uniform(.4, 1.2)
    P = Patch(P.nx, P.ny, P.lx * f, P.ly * f)
    s, L = c["s"], c["lmax"] + 1
    n = 2 if s else 1
    A = rng.standard_normal((L, 2 * n, 2 * n))
    C = np.einsum("lik,ljk->lij", A, A)
    T = np.vstack([np.eye(2 * n), np.hstack([c["a"][0] * np.eye(n),
                                             c["a"][1] * np.eye(n)])])
    D = np.einsum("ij,ljk,mk->lim", T, C, T)
    iu = np.triu_indices(3 * n)
    b = rng.uniform(0.5, 1.5, L)
    beam = np.array([b, b, b]) if c["beam"] else None
    m = nmt.synfast_flat(P.nx, P.ny, P.lx, P.ly, D[:, iu[0], iu[1]].T,
                         [s, s, s], beam=beam, seed=int(rng.integers(10**6)))
    w = c["a"][0] * m[:n] + c["a"][1] * m[n:2 * n]
    x.nontrivial(P.nx * P.ny > 1)
    x.close(m[2 * n:], w, 1e-6, scale=np.max(np.abs(m)) + np.sqrt(np.max(
        np.abs(D)) / P.area),
            msg="dependent field")


SUBS = [Sub("stats", gen_stats, stats, 120, 1000, weight=150.),
        Sub("seeds", gen, seeds, 150, 3000, weight=5.),
        Sub("dependent", gen_dep, dep, 300, 10000)]
