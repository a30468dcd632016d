"""P20: simulated spherical fields."""
import healpy as hp
import numpy as np
import pymaster as nmt
from lib import sht
from lib.gen import car_wcs, rng_of
from lib.pbt import Sub

RULE = ("Non-trivial: power at two multipoles or more.")
ASSUMPTIONS = ["statistics over 1500 draws: 8 standard deviations",
               "the coefficients are recovered from the maps by least squares "
               "on the direct harmonic sums, up to lmax = 2 nside",
               "rectangular grids cover the whole sphere (both poles)",
               "spectra reach at least the spin of the fields (the transform "
               "refuses less)"]


def gen(d):
    n = d.rare(d.int(1, 3), 4, 6, n=15)
    g = dict(pix="hp", nside=d.choice([2, 2, 4])) if d.choice([0, 1]) else \
        dict(pix="car", ny=d.int(5, 10), dx=d.int(0, 4), ft=int(d.bool()),
             fp=int(d.bool()), ra0=d.choice([0., 0., 50., 180., 300.]))
    return dict(grid=g, spins=[d.choice([0, 0, 2, 2, 1, 3])
                               for _ in range(n)], lmax=d.int(1, 6),
                how=d.choice(["cls", "lmax", "both", "cls"]),
                kind=d.choice(["random", "random", "flat", "cut", "rank1"]),
                beam=d.choice([0, 0, 1, 2]), dt=d.choice(["array", "list"]),
                seed=d.seed())


class Obj:
    pass


def setup(c, x):
    o = Obj()
    o.rng = rng = rng_of(c["seed"])
    g = c["grid"]
    o.sp = c["spins"]
    L = max([c["lmax"]] + o.sp)
    o.nm = [2 if s else 1 for s in o.sp]
    o.n = n = sum(o.nm)
    if g["pix"] == "hp":
        o.wcs, o.nside = None, g["nside"]
        L = min(L, 2 * o.nside)
        o.th, o.ph = hp.pix2ang(o.nside, np.arange(12 * o.nside**2))
        o.shape = o.th.shape
        full = 3 * o.nside - 1
    else:
        ny = g["ny"]
        nx = 2 * (ny - 1) + g["dx"]
        L = max([min(L, ny - 2)] + o.sp)
        o.wcs, th, ph = car_wcs(ny, nx, g["ft"], g["fp"], g["ra0"])
        o.nside = int(rng.integers(-3, 5))
        o.shape = th.shape
        o.th, o.ph = th.ravel(), ph.ravel()
        full = None
    if c["how"] == "cls":
        o.lmax, nl = None, L
    elif c["how"] == "lmax":
        o.lmax, nl = L, L + int(rng.integers(1, 5))
    else:
        o.lmax, nl = L + 3, L
    o.L = L
    del full
    r = 1 if c["kind"] == "rank1" else n
    A = rng.standard_normal((nl + 1, n, r)) / np.sqrt(r)
    if c["kind"] == "flat":
        A[:] = A[0]
    C = np.einsum("lik,ljk->lij", A, A)
    if c["kind"] == "cut":
        C[:1 + L // 3] = 0.
    o.C = C
    iu = np.triu_indices(n)
    o.cls = C[:, iu[0], iu[1]].T.copy()
    if c["dt"] == "list":
        o.cls = o.cls.tolist()
    o.beam = None
    if c["beam"]:
        o.beam = rng.uniform(0.2, 1.5, (len(o.sp), L + 1 + (
            c["beam"] == 2) * 5))
        if c["beam"] == 2 and c["dt"] == "list":
            o.beam = [list(b[:len(b) - i]) for i, b in enumerate(o.beam)]
    x.label("spins " + "".join(map(str, o.sp)), g["pix"], c["how"],
            c["kind"])
    return o


def draw(o, seed):
    return nmt.synfast_spherical(o.nside, o.cls, o.sp, beam=o.beam,
                                 seed=seed, wcs=o.wcs, lmax=o.lmax)


def design(o, x):
    """Per spin: matrix from maps to real amplitudes, and l of each."""
    T = sht.SHT(o.L, o.th, o.ph)
    b = sht.basis(o.L)
    out = {}
    for s in set(o.sp):
        n = 2 if s else 1
        cols, key = [], []
        for q in range(n):
            for k, (l, a) in enumerate(b):
                if l < s:
                    continue
                al = np.zeros((n, len(a)), dtype=complex)
                al[q] = a
                cols.append(T.synth(al, s).ravel())
                key.append((q, k, l))
        if not cols:
            out[s] = (None, None, key)
            continue
        D = np.array(cols).T
        u, w, v = np.linalg.svd(D, full_matrices=False)
        if w[-1] < 1e-6 * w[0]:
            return None
        out[s] = (D, np.linalg.pinv(D), key)
    return out


def stats(c, x):
    o = setup(c, x)
    D = design(o, x)
    if D is None:
        x.label("ill-posed")
        return
    b = sht.basis(o.L)
    nk = len(b)
    lk = np.array([l for l, _ in b])
    N = c.get("N", 1500)
    s0 = int(o.rng.integers(1, 10**8))
    M = np.array([draw(o, s0 + i) for i in range(N)])
    x.check(M.shape == (N, o.n) + o.shape, "shape of the maps")
    M = M.reshape(N, o.n, -1)
    X = np.zeros((N, o.n, nk))
    has = np.zeros((o.n, nk), dtype=bool)
    i = 0
    for s, m in zip(o.sp, o.nm):
        A, inv, key = D[s]
        v = M[:, i:i + m].reshape(N, -1)
        if inv is None:
            x.check(np.all(v == 0), "map without modes is not null")
        else:
            a = v @ inv.T
            x.close(a @ A.T, v, 1e-8, scale=np.max(np.abs(v)) + 1e-300,
                    msg=f"maps of spin {s} are not band limited to the "
                    "requested multipole")
            for col, (q, k, l) in enumerate(key):
                X[:, i + q, k] = a[:, col]
                has[i + q, k] = True
        i += m
    C = o.C[lk].transpose(1, 2, 0)
    if o.beam is not None:
        bm = np.array([np.array(o.beam[f])[lk] for f, m in enumerate(o.nm)
                       for _ in range(m)])
        C = C * bm[:, None] * bm[None]
    C = C * has[:, None] * has[None]
    tr = np.einsum("iik->k", C) > 0
    x.nontrivial(len(set(lk[tr])) > 1)
    sd = np.sqrt(np.einsum("iik->ik", C))
    if not np.max(sd) > 0:
        x.check(np.max(np.abs(X)) < 1e-12, "null spectra, non-null field")
        return
    sd = np.where(sd > 1e-9 * np.max(sd), sd, np.max(sd))
    Z = (X / sd).reshape(N, -1)
    W = np.zeros((o.n, nk, o.n, nk))
    q = np.arange(nk)
    W[:, q, :, q] = (C / sd[:, None] / sd[None]).transpose(2, 0, 1)
    W = W.reshape(Z.shape[1], -1)
    dg = np.diag(W)
    err = np.sqrt((np.multiply.outer(dg, dg) + W**2) / N)
    E = Z.T @ Z / N - W
    if np.any(np.abs(E) > 8 * err + 1e-9):
        i = np.unravel_index(np.argmax(np.abs(E) / (err + 1e-9)), E.shape)
        k0, k1 = [divmod(int(t), nk) for t in i]
        x.check(False, "covariance of amplitudes (component %d, l=%d, #%d) "
                "and (%d, %d, %d): %g, expected %g +- %g" % (
                    k0[0], lk[k0[1]], k0[1], k1[0], lk[k1[1]], k1[1],
                    E[i] + W[i], W[i], err[i]))
    x.check(np.all(np.abs(Z.mean(0)) <= 7 * np.sqrt(dg / N) + 1e-9),
            "mean of the amplitudes is not null")
    E = Z[1:].T @ Z[:-1] / (N - 1)
    err = np.sqrt(np.multiply.outer(dg, dg) / (N - 1))
    x.check(np.all(np.abs(E) <= 8 * err + 1e-9),
            "consecutive seeds are correlated")
    P = np.mean(Z.reshape(N, o.n, -1)**2, axis=0)
    V = dg.reshape(o.n, -1)
    for i in range(o.n):
        t = np.sum(V[i] > 0.5)
        if t:
            x.check(abs(np.sum((P[i] - V[i])[V[i] > 0.5]) / t) < 7 * np.sqrt(
                2. / N / t), f"total power of component {i}")
    for l in range(o.L + 1):      # spectra
        for i in range(o.n):
            u = (lk == l) & (V[i] > 0.5)
            t = np.sum(u)
            if t:
                x.check(abs(np.mean(P[i][u]) - 1) < 7 * np.sqrt(2. / N / t),
                        f"power of component {i} at l={l}")


def seeds(c, x):
    o = setup(c, x)
    s = int(o.rng.integers(0, 10**8)) if c["seed"] % 4 else c["seed"] % 3
    keep = [np.array(q) for q in o.cls], None if o.beam is None else [
        np.array(q) for q in o.beam]
    m = draw(o, s)
    x.check(m.shape == (o.n,) + o.shape and m.dtype == float, "shape")
    x.check(np.all(np.isfinite(m)), "not finite")
    for a, b in zip(o.cls, keep[0]):
        x.equal(np.array(a), b, "spectra modified")
    if keep[1] is not None:
        for a, b in zip(o.beam, keep[1]):
            x.equal(np.array(a), b, "beam modified")
    sc = np.max(np.abs(m))
    for k in range(3):
        np.random.seed(k)
        np.random.standard_normal(k)
        draw(o, s + k)
        x.close(draw(o, s), m, 1e-12, scale=sc, msg="same seed")
    st = np.random.get_state()
    draw(o, s)
    e = np.random.get_state()
    x.check(np.array_equal(st[1], e[1]) and st[2:] == e[2:],
            "a seeded draw changes the state of numpy's generator")
    if sc > 0:
        x.nontrivial(True)
        for t in (s + 1, s + 17, -1, -5):
            x.check(np.max(np.abs(draw(o, t) - m)) > 1e-6 * sc,
                    f"seeds {s} and {t} give the same maps")
        x.check(not np.array_equal(draw(o, -1), draw(o, -1)),
                "two random seeds are equal")


def gen_dep(d):
    c = gen(d)
    s = d.choice([0, 0, 2, 1])
    c.update(s=s, a=[d.int(-3, 3), d.int(1, 3)], spins=[s])
    return c


def dep(c, x):
    """A field that is a combination of others is so exactly."""
    o = setup(c, x)
    rng, s = o.rng, c["s"]
    n = 2 if s else 1
    L = o.L
    A = rng.standard_normal((L + 1, 2 * n, 2 * n))
    C = np.einsum("lik,ljk->lij", A, A)
    T = np.vstack([np.eye(2 * n), np.hstack([c["a"][0] * np.eye(n),
                                             c["a"][1] * np.eye(n)])])
    D = np.einsum("ij,ljk,mk->lim", T, C, T)
    iu = np.triu_indices(3 * n)
    b = rng.uniform(0.5, 1.5, L + 1)
    m = nmt.synfast_spherical(o.nside, D[:, iu[0], iu[1]].T, [s, s, s],
                              beam=np.array([b, b, b]) if c["beam"] else None,
                              wcs=o.wcs, seed=int(rng.integers(10**6)))
    w = c["a"][0] * m[:n] + c["a"][1] * m[n:2 * n]
    x.nontrivial(L > s)
    x.close(m[2 * n:], w, 1e-5, scale=np.max(np.abs(m)) + np.sqrt(np.max(D)),
            msg="dependent field")


def gen_high(d):
    c = gen(d)
    g = c["grid"]
    if g["pix"] == "hp":
        g["nside"] = 2
    else:
        g.update(ny=d.int(4, 6), dx=d.int(0, 2))
    c.update(spins=c["spins"][:2], default=d.choice([False, False, True]),
             extra=d.int(1, 8), long=d.int(0, 5), beam=d.choice([0, 1]))
    return c


def high(c, x):
    """Multipoles that the pixels cannot resolve: covariance of the maps. Those
    asked for are all there; by default there are those of the pixelisation."""
    sp = c["spins"]
    g, rng = c["grid"], rng_of(c["seed"])
    if g["pix"] == "hp":
        wcs, ns, res = None, 2, 5
        th, ph = hp.pix2ang(2, np.arange(48))
    else:
        ny = g["ny"]
        nx = 2 * (ny - 1) + g["dx"]
        wcs, th, ph = car_wcs(ny, nx, g["ft"], g["fp"], g["ra0"])
        th, ph = th.ravel(), ph.ravel()
        ns, res = 1, max(ny - 1, nx // 2)
    nm = [2 if s else 1 for s in sp]
    n = sum(nm)
    L = res + c["extra"]
    A = rng.standard_normal((L + 1 + c["long"], n, n))
    C = np.einsum("lik,ljk->lij", A, A)
    iu = np.triu_indices(n)
    cls = C[:, iu[0], iu[1]].T.copy()
    bm = rng.uniform(0.2, 1.5, (len(sp), L + 1 + c["long"]))
    given = c["seed"] % 2 == 0
    lmax = L
    if c["default"]:
        lmax = min(res, len(cls[0]) - 1)
    T = sht.SHT(lmax, th, ph)
    b = sht.basis(lmax)
    lk = np.array([l for l, _ in b])
    npx, nk = len(th), len(b)
    B = np.zeros((n, npx, n, nk))
    i = 0
    for f, (s, m) in enumerate(zip(sp, nm)):
        for q in range(m):
            for k, (l, a) in enumerate(b):
                if l < s:
                    continue
                al = np.zeros((m, len(a)), dtype=complex)
                al[q] = a
                B[i:i + m, :, i + q, k] = T.synth(al, s)
                if given:
                    B[i:i + m, :, i + q, k] *= bm[f, l]
        i += m
    P = np.einsum("ipak,kab,jqbk->ipjq", B, C[lk], B,
                  optimize=True).reshape(n * npx, -1)
    N = 1200
    s0 = int(rng.integers(1, 10**8))
    M = np.array([nmt.synfast_spherical(
        ns, cls, sp, beam=bm if given else None, seed=s0 + i, wcs=wcs,
        lmax=None if c["default"] else L) for i in range(N)])
    M = M.reshape(N, -1)
    E = M.T @ M / N - P
    dg = np.diag(P)
    err = np.sqrt((np.multiply.outer(dg, dg) + P**2) / N)
    t = np.max(np.abs(E) / (err + 1e-9 * np.max(dg)))
    x.check(t < 8, "covariance of the maps: %g standard deviations" % t)
    # the same, from the mean variance of each component
    for i in range(n):
        v = slice(i * npx, (i + 1) * npx)
        sd = np.sqrt(2. / N) * np.sqrt(np.sum(P[v, v]**2))
        d = np.sum(np.diag(E)[v])
        x.check(abs(d) < 7 * sd + 1e-9 * np.max(dg),
                "variance of component %d: %g standard deviations" % (
                    i, d / (sd + 1e-300)))
    x.label("default" if c["default"] else "asked", g["pix"])
    x.nontrivial()


SUBS = [Sub("stats", gen, stats, 60, 600, weight=700.),
        Sub("seeds", gen, seeds, 150, 3000, weight=5.),
        Sub("dependent", gen_dep, dep, 200, 5000),
        Sub("high", gen_high, high, 48, 400, weight=700.,
            rule="every case")]
