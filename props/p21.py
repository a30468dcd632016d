"""P21: flat-sky mode coupling, coupling of spectra and decoupling."""
import numpy as np
import pymaster as nmt
from lib.flat import Patch, interp, ring_average
from lib.gen import rng_of
from lib.pbt import Sub

RULE = ("Non-trivial: at least one band with Fourier modes in it and a mask "
        "with more than one Fourier mode.")
ASSUMPTIONS = ["edges of bands and mode cuts are not on a Fourier mode other than zero to "
               "rounding; Fourier modes on the boundary between two rings to "
               "rounding can be counted in either",
               "ensemble averages use grids without Nyquist modes for "
               "spin fields"]
MASKS = ["random", "random", "signed", "smooth", "binary", "ones", "point",
         "stripe", "tiny"]


def mask_of(ny, nx, kind, rng):
    Y, X = np.mgrid[:ny, :nx]
    if kind == "random":
        return rng.random((ny, nx))
    if kind == "signed":
        return rng.standard_normal((ny, nx))
    if kind == "binary":
        m = (rng.random((ny, nx)) < 0.7).astype(float)
        m[rng.integers(ny), rng.integers(nx)] = 1.
        return m
    if kind == "ones":
        return np.ones((ny, nx))
    if kind == "point":
        m = np.zeros((ny, nx))
        m[rng.integers(ny), rng.integers(nx)] = 2.
        return m
    a, b = rng.integers(0, 2, 2) + [1, 0]
    if kind == "stripe":
        return 1.5 + np.cos(2 * np.pi * (a * X / nx + b * Y / ny +
                                         rng.random()))
    m = (1.2 - np.cos(2 * np.pi * (X / nx + rng.random()))) * \
        (1.2 - np.cos(2 * np.pi * (Y / ny + rng.random())))
    return 1e-5 * m if kind == "tiny" else m


def gen_patch(d, nmax=9, odd=False):
    g = (lambda: 2 * d.int(0, (nmax - 1) // 2) + 1) if odd else \
        (lambda: d.int(1, nmax))
    return dict(nx=g(), ny=g(), asp=d.choice(["sq", "sqpix", "any", "any"]),
                size=d.choice(["deg", "deg", "arcmin", "big"]))


def patch_of(c, rng):
    p = c["patch"]
    nx, ny = p["nx"], p["ny"]
    s = {"deg": np.radians(1.), "arcmin": np.radians(1 / 60.),
         "big": 1.}[p["size"]] * rng.uniform(0.5, 2)
    if p["asp"] == "sq":
        lx = ly = s * nx
    elif p["asp"] == "sqpix":
        lx, ly = s * nx, s * ny
    else:
        lx, ly = s * nx, s * ny * rng.uniform(0.3, 3)
    return Patch(nx, ny, float(lx), float(ly))


def gen_bands(d):
    return dict(nb=d.rare(d.int(1, 5), d.int(6, 60), n=12), gaps=d.choice([False, False, True]),
                zero=d.choice([True, True, False]), bseed=d.seed())


def bands_of(c, P):
    """Edges (l0, lf) of random bands."""
    r = rng_of(c["bands"]["bseed"])
    b = c["bands"]
    km = float(np.max(P.k))
    if km == 0:
        km = P.dkx
    e = np.sort(r.uniform(0.02, 1.15, b["nb"] + 1)) * km
    if b["zero"]:
        e[0] = 0.
    l0, lf = e[:-1].copy(), e[1:].copy()
    if b["gaps"]:
        lf = l0 + (lf - l0) * r.choice([1., 0.7], len(l0))
    return l0, lf


def gen_cuts(d):
    k = ["no", "no", "no", "sym", "asym", "zero", "from 0", "to 0", "at 0"]
    return dict(x=d.choice(k), y=d.choice(k),
                cseed=d.seed())


def cuts_of(c, P):
    r = rng_of(c["cuts"]["cseed"])
    out = []
    for q, dk, n in (("x", P.dkx, P.nx), ("y", P.dky, P.ny)):
        k = c["cuts"][q]
        if k == "no":
            out.append([1., -1.])
        elif k == "sym":
            w = dk * (r.integers(0, max(1, n // 4) + 1) + 0.5)
            out.append([-w, w])
        elif k == "zero":
            out.append([-0.3 * dk, 0.3 * dk])
        elif k == "at 0":
            out.append([0., 0.])
        elif k in ("from 0", "to 0"):
            w = dk * (r.integers(0, max(1, n // 4) + 1) + 0.5)
            out.append([0., w] if k == "from 0" else [-w, 0.])
        else:
            a = dk * (r.integers(-(n // 2), max(1, n // 2)) + r.uniform(.2, .8))
            out.append([a, a + dk * r.integers(1, 3)])
    return out


def beam_of(P, rng):
    n = int(rng.integers(2, 30))
    km = max(float(np.max(P.k)), 1e-3)
    l = np.sort(rng.uniform(0, 1.3, n)) * km
    if rng.random() < 0.5:
        l[0] = 0.
    if np.min(np.abs(P.k[..., None] - l[[0, -1]])) < 1e-9 * km and l[0] > 0:
        l[0] = 0.
    return np.array([l, rng.uniform(0.2, 1.5, n)])


def beamprod(P, beams):
    out = np.ones(P.k.shape)
    for b in beams:
        if b is not None:
            out = out * interp(P.k, b[0], b[1])
    return out


def gen(d, odd=False, nmax=9):
    s1, s2 = d.choice([[0, 0], [0, 2], [2, 0], [2, 2], [2, 2], [0, 1],
                       [1, 0], [1, 1], [3, 2], [2, 1], [3, 3], [0, 4]])
    pure = [[d.bool(), d.bool()] if s == 2 and d.choice([False, False, True])
            else [False, False] for s in (s1, s2)]
    teb = s1 == 0 and s2 != 0 and d.choice([False, True])
    return dict(patch=gen_patch(d, nmax, odd), bands=gen_bands(d),
                cuts=gen_cuts(d), s=[s1, s2], pure=pure, teb=teb,
                beam=[d.choice([False, False, True]) for _ in range(2)],
                mask=[d.choice(MASKS), d.choice(MASKS)],
                same=s1 == s2 and d.choice([False, False, True]),
                mo=d.bool(), seed=d.seed())


def gen_large(d):
    c = gen(d)
    c["patch"].update(nx=d.int(10, 20), ny=d.int(10, 20))
    c["bands"]["nb"] = d.choice([3, 8, 20])
    return c


class Setup:
    pass


def setup(c):
    rng = rng_of(c["seed"])
    o = Setup()
    P = o.P = patch_of(c, rng)
    o.l0, o.lf = bands_of(c, P)
    o.nb = len(o.l0)
    o.cx, o.cy = cuts_of(c, P)
    o.ok = P.clear(o.l0, o.lf, o.cx, o.cy)
    o.m = [mask_of(P.ny, P.nx, k, rng) for k in c["mask"]]
    o.beam = [beam_of(P, rng) if b else None for b in c["beam"]]
    o.s, o.pure = c["s"], [list(p) for p in c["pure"]]
    o.same = c["same"]
    if o.same:
        o.m[1], o.beam[1], o.pure[1] = o.m[0], o.beam[0], o.pure[0]
    o.b, o.bnc = P.bands(o.l0, o.lf, o.cx, o.cy)
    o.rng = rng
    o.C = P.coupling(o.m[0], o.m[1], o.s[0], o.s[1], o.pure[0], o.pure[1],
                     beamprod(P, o.beam), c["teb"])
    o.nc = o.C.shape[0]
    o.bin = nmt.NmtBinFlat(o.l0, o.lf)
    return o


def field(o, i, maps=None, **kw):
    P = o.P
    return nmt.NmtFieldFlat(P.lx, P.ly, o.m[i], maps, spin=o.s[i],
                            beam=o.beam[i], purify_e=bool(o.pure[i][0]),
                            purify_b=bool(o.pure[i][1]), **kw)


def fields(o, c):
    P = o.P
    fs = []
    for i in (0, 1):
        if i == 1 and o.same:
            fs.append(fs[0])
            continue
        mp = None if c["mo"] else o.rng.standard_normal(
            (2 if o.s[i] else 1, P.ny, P.nx))
        fs.append(field(o, i, mp))
    return fs


def workspace(o, c, fs):
    w = nmt.NmtWorkspaceFlat()
    w.compute_coupling_matrix(fs[0], fs[1], o.bin, ell_cut_x=o.cx,
                              ell_cut_y=o.cy, is_teb=c["teb"])
    return w


def labels(o, c, x):
    x.label("spins %d%d" % tuple(o.s), "cut x " + c["cuts"]["x"],
            "cut y " + c["cuts"]["y"])
    if np.any(o.pure):
        x.label("purified")
    if c["teb"]:
        x.label("joint")
    if any(b is not None for b in o.beam):
        x.label("beams")
    n = [np.sum(o.b == i) for i in range(o.nb)]
    x.nontrivial(max(n) > 0 and np.ptp(o.m[0]) > 0)


def spectra(o, rng):
    P = o.P
    n = int(rng.integers(2, 40))
    km = max(float(np.max(P.k)), 1e-3)
    l = np.sort(rng.uniform(0, 1.4, n)) * km
    if rng.random() < 0.5:
        l[0] = 0.
    return l, rng.standard_normal((o.nc, n))


def ring_sets(P, n_ell):
    """Possible ring assignments, the likeliest first."""
    base = P.rings(10**9)
    yield np.where(base < n_ell, base, -1)
    amb = P.ambiguous()
    for hi in (1, 0):
        r = base.copy()
        for g, n in amb:
            r[g] = n - 1 + hi
        yield np.where(r < n_ell, r, -1)


def couple(c, x):
    o = setup(c)
    if not o.ok:
        return
    P = o.P
    labels(o, c, x)
    fs = fields(o, c)
    w = workspace(o, c, fs)
    l, cl = spectra(o, o.rng)
    n_ell = len(fs[0].get_ell_sampling())
    dell = min(P.dkx, P.dky)
    kmax = np.hypot(P.dkx * (P.nx // 2), P.dky * (P.ny // 2))
    x.check(abs(n_ell - np.floor(kmax / dell)) <= (
        1 if abs(kmax / dell - round(kmax / dell)) < 1e-6 else 0),
        f"{n_ell} multipole rings")
    x.close(fs[0].get_ell_sampling(), dell * (np.arange(n_ell) + 0.5), 1e-12,
            msg="multipole sampling")
    got = w.couple_cell(l, cl)
    ck = np.array([interp(P.k, l, q) for q in cl])
    R = P.bin_rows(o.C, o.b, o.nb)
    sc = np.max(np.sum(np.abs(o.C), axis=(2, 3))) * np.max(np.abs(cl))

    def model(r):
        cr = np.array([ring_average(q, r, n_ell) for q in ck])
        return np.einsum("pbqk,qk->pb", R, cr.reshape(o.nc, -1))

    tol = 1e-10 * sc
    best, rb = None, None
    for r in ring_sets(P, n_ell):
        e = np.max(np.abs(model(r) - got))
        if best is None or e < best:
            best, rb = e, r
        if best <= tol:
            break
    if best > tol:     # any other assignment of the ambiguous modes
        full = np.where(rb < 0, n_ell, rb)
        for _ in range(3):
            for g, n in P.ambiguous():
                for m in (n - 1, n):
                    t = full.copy()
                    t[g] = m
                    t2 = np.where(t < n_ell, t, -1)
                    e = np.max(np.abs(model(t2) - got))
                    if e < best:
                        best, full, rb = e, t, t2
    if best > tol:
        x.close(got, model(rb), atol=tol, msg="coupled spectra")


def decouple(c, x):
    o = setup(c)
    if not o.ok:
        return
    P = o.P
    labels(o, c, x)
    w = workspace(o, c, fields(o, c))
    B = P.bin_cols(P.bin_rows(o.C, o.b, o.nb), o.bnc, o.nb)
    n = o.nc * o.nb
    B = B.reshape(n, n)
    sv = np.linalg.svd(B, compute_uv=False)
    S = np.max(np.sum(np.abs(o.C), axis=(2, 3)))
    cond = S / sv[-1] if sv[-1] > 0 else np.inf
    if not cond < 1e7:
        x.label("singular")
        x.nt = False
        return
    rng = o.rng
    true = rng.standard_normal((o.nc, o.nb))
    pcl = (B @ true.ravel()).reshape(o.nc, o.nb)
    tol = dict(rtol=0, atol=1e-12 * cond + 1e-10)
    x.close(w.decouple_cell(pcl), true, msg="decoupled bandpowers", **tol)
    nz, bi = (rng.standard_normal((o.nc, o.nb)) * np.max(np.abs(pcl))
              for _ in range(2))
    want = np.linalg.solve(B, (pcl - nz - bi).ravel()).reshape(o.nc, o.nb)
    s = np.max(np.abs(want))
    tol["atol"] *= max(s, 1.)
    x.close(w.decouple_cell(pcl, cl_bias=bi, cl_noise=nz), want,
            msg="decoupling with noise and bias", **tol)
    x.close(w.decouple_cell(pcl, cl_bias=bi), np.linalg.solve(
        B, (pcl - bi).ravel()).reshape(o.nc, o.nb),
        msg="decoupling with bias", **tol)
    x.close(w.decouple_cell(pcl, cl_noise=nz), np.linalg.solve(
        B, (pcl - nz).ravel()).reshape(o.nc, o.nb),
        msg="decoupling with noise", **tol)


def basis(P, spin, lim=None):
    """Real skies, each a single mode of E or B (cos and sin), such that a
    Gaussian sky of power C(k) is sum_i sqrt(C(k_i)) g_i sky_i. Yields
    (component, k index, maps)."""
    nc = 2 if spin else 1
    amp = np.sqrt(P.area) / (2 * np.pi)
    for iy in range(P.ny):
        for ix in range(P.nx):
            j = (-iy) % P.ny, (-ix) % P.nx
            if j < (iy, ix):
                continue
            if lim and (abs(P.jx[ix]) > lim[0] or abs(P.jy[iy]) > lim[1]):
                continue
            for ph in ((1.,) if j == (iy, ix) else (1., 1j)):
                for q in range(nc):
                    a = np.zeros((nc, P.ny, P.nx), dtype=complex)
                    if j == (iy, ix):
                        a[q, iy, ix] = amp
                    else:
                        a[q, iy, ix] = amp * ph / np.sqrt(2.)
                        a[(q,) + j] = np.conj(a[q, iy, ix])
                    yield q, (iy, ix), a


def gen_ens(d):
    c = gen(d, odd=True, nmax=7)
    c["pure"] = [[False, False]] * 2
    c["teb"] = False
    c["mo"] = False
    if any(s % 2 for s in c["s"]):     # odd spins have no mean mode
        c["bands"]["zero"] = False
    return c


def ensemble(c, x):
    """The exact mean pseudo-spectrum of Gaussian skies with spectra constant
    in each band decouples into these constants."""
    o = setup(c)
    P = o.P
    if not o.ok or P.nx * P.ny < 2:
        return
    labels(o, c, x)
    n1, n2 = [2 if s else 1 for s in o.s]
    rng = o.rng
    w = workspace(o, c, fields(o, c))
    bp = rng.standard_normal((n1, n2, o.nb))
    br = [np.sqrt(np.ones(P.k.shape)) if b is None else interp(
        P.k, b[0], b[1]) for b in o.beam]
    # mean pseudo-spectrum: sum over modes of the first field, with the
    # second field carrying the correlated response
    pcl = np.zeros((n1 * n2, o.nb))
    for q, (iy, ix), a in basis(P, o.s[0]):
        b = o.bnc[iy, ix]
        if b < 0:
            continue
        A = a[:, :, :]
        m1 = P.maps(A * br[0], o.s[0])
        a2 = np.zeros((n2,) + P.k.shape, dtype=complex)
        for t in range(n2):
            a2[t] = bp[q, t, b] * a[q] * br[1]
        m2 = P.maps(a2, o.s[1])
        pcl += nmt.compute_coupled_cell_flat(
            field(o, 0, m1), field(o, 1, m2), o.bin,
            ell_cut_x=o.cx, ell_cut_y=o.cy)
    B = P.bin_cols(P.bin_rows(o.C, o.b, o.nb), o.bnc, o.nb)
    n = o.nc * o.nb
    sv = np.linalg.svd(B.reshape(n, n), compute_uv=False)
    S = np.max(np.sum(np.abs(o.C), axis=(2, 3)))
    cond = S / sv[-1] if sv[-1] > 0 else np.inf
    want = bp.reshape(n1 * n2, o.nb)
    x.close(pcl, np.einsum("pbqc,qc->pb", B, want), atol=1e-10 * np.max(
        np.sum(np.abs(o.C), axis=(2, 3))), msg="mean pseudo-spectrum")
    if cond < 1e7:
        x.label("decoupled")
        x.close(w.decouple_cell(pcl), want, atol=1e-11 * cond + 1e-9,
                msg="decoupled mean pseudo-spectrum")


def gen_pure(d):
    p = gen_patch(d, 4)
    p["nx"] = 2 * p["nx"] + 3
    p["ny"] = 2 * p["ny"] + 3
    s1, s2 = d.choice([[2, 2], [2, 2], [0, 2], [2, 0], [2, 1], [3, 2]])
    pure = [[d.bool(), d.bool()] if s == 2 else [False, False]
            for s in (s1, s2)]
    return dict(patch=p, bands=gen_bands(d), cuts=gen_cuts(d), s=[s1, s2],
                pure=pure, teb=False, beam=[False, False],
                mask=["ones", "ones"], same=False, mo=False,
                a=[d.int(0, 2), d.int(0, 2)], seed=d.seed())


def pure_ensemble(c, x):
    """The coupling matrix of purified fields against the exact mean over
    skies, where there is no aliasing."""
    c = dict(c, bands=dict(c["bands"], zero=False))
    o = setup(c)
    P = o.P
    if not o.ok:
        return
    # masks of limited bandwidth
    lim = []
    for dim, (n, j) in enumerate(((P.nx, P.jx), (P.ny, P.jy))):
        a = min(c["a"][dim], (n - 1) // 2 - 1)
        lim.append((a, (n - 1) // 2 - a))
    q = (np.abs(P.jx)[None] <= lim[0][0]) & \
        (np.abs(P.jy)[:, None] <= lim[1][0])
    for i in (0, 1):
        f = np.fft.fft2(o.rng.standard_normal((P.ny, P.nx))) * q
        m = np.fft.ifft2(f).real
        o.m[i] = m / np.max(np.abs(m)) + o.rng.uniform(0.2, 1.5)
    o.C = P.coupling(o.m[0], o.m[1], o.s[0], o.s[1], o.pure[0], o.pure[1])
    labels(o, c, x)
    n1, n2 = [2 if s else 1 for s in o.s]
    rng = o.rng
    sky = rng.standard_normal((n1, n2) + P.k.shape)
    sky = sky + sky[:, :, P.cIY, P.cIX]
    sky *= (np.abs(P.jx)[None] <= lim[0][1]) & \
        (np.abs(P.jy)[:, None] <= lim[1][1])
    sky[:, :, 0, 0] = 0.
    pcl = np.zeros((n1 * n2, o.nb))
    for q, (iy, ix), a in basis(P, o.s[0], (lim[0][1], lim[1][1])):
        if (iy, ix) == (0, 0):
            continue
        a2 = np.zeros((n2,) + P.k.shape, dtype=complex)
        for t in range(n2):
            a2[t] = sky[q, t, iy, ix] * a[q]
        pcl += nmt.compute_coupled_cell_flat(
            field(o, 0, P.maps(a, o.s[0])), field(o, 1, P.maps(a2, o.s[1])),
            o.bin, ell_cut_x=o.cx, ell_cut_y=o.cy)
    R = P.bin_rows(o.C, o.b, o.nb)
    want = np.einsum("pbqk,qk->pb", R, sky.reshape(n1 * n2, -1))
    sc = np.max(np.sum(np.abs(o.C), axis=(2, 3))) * np.max(np.abs(sky))
    x.close(pcl, want, atol=1e-10 * sc, msg="mean pseudo-spectrum")
    # the matrix in use: spectra that are constant in each ring and band
    # cannot be built in general, so the matrices are compared through
    # "couple" and "decouple"


SUBS = [Sub("pure", gen_pure, pure_ensemble, quick=180, thorough=2000),
        Sub("couple", gen, couple, quick=1500, thorough=20000),
        Sub("decouple", gen, decouple, quick=1500, thorough=20000),
        Sub("ensemble", gen_ens, ensemble, quick=240, thorough=3000),
        Sub("large-couple", gen_large, couple, quick=60, thorough=1500,
            weight=100),
        Sub("large-decouple", gen_large, decouple, quick=60, thorough=1500,
            weight=100)
        ]
