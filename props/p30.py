"""P30: module-wide defaults, and the pseudo-inverse whose tolerance is one
of them."""
import healpy as hp
import numpy as np
import pymaster as nmt
from lib.gen import rng_of
from lib.pbt import Sub

RULE = ("Non-trivial: in 'defaults', the call left out at least one argument "
        "whose default had been changed, or gave one explicitly that differed "
        "from the default, and the value matters for the result (it differs "
        "from the result for another value); in 'pinvh', the matrix has more "
        "than one row and a retained eigenvalue.")
ASSUMPTIONS = [
    "values that a default may take: non-negative integers for iterations, "
    "0..1 for the tolerance, 'ducc' and 'healpy'",
    "both transform back ends agree to 1e-6 of the largest coefficient for "
    "the same number of iterations on HEALPix maps (decided by P10)",
    "pseudo-inverse: eigenvalues are at least a factor of 3 away from the "
    "threshold; retained ones span at most a factor of 1e6"]

ORIG = nmt.get_default_params()


class Defaults:
    """The model: four values, changed only by accepted calls."""

    def __init__(self):
        self.v = dict(sht_calculator="ducc", n_iter_default=3,
                      n_iter_mask_default=3, tol_pinv_default=1e-10)

    def apply(self):
        nmt.set_sht_calculator(self.v["sht_calculator"])
        nmt.set_n_iter_default(self.v["n_iter_default"])
        nmt.set_n_iter_default(self.v["n_iter_mask_default"], mask=True)
        nmt.set_tol_pinv_default(self.v["tol_pinv_default"])


TOLS = [1e-10, 1e-10, 1e-6, 1e-3, 0.03, 0.3, 1.0, 0]


def gen_set(d):
    k = d.choice(["n_iter", "n_iter", "n_iter_mask", "n_iter_mask", "tol",
                  "tol", "sht"])
    if k == "sht":
        v = d.choice(["ducc", "healpy", "healpy", "DUCC", "", None, 1])
    elif k == "tol":
        v = d.choice(TOLS + [-1e-3, 1.5, "nan", "inf", None, "x", 2])
    else:
        v = d.choice([0, 0, 1, 2, 3, 4, 5, -1, -3, 2.5, "nan", None, "x"])
    return dict(op="set", k=k, v=v, np=d.bool())


def gen_call(d):
    return dict(op="call", kind=d.choice(
        ["field", "field", "flat", "deproj", "noise", "later", "car"]),
        give=[d.choice([None, None, 0, 1, 2, 4]),
              d.choice([None, None, 0, 1, 2, 4]),
              d.choice([None, None] + TOLS)],
        none=d.bool(), spin=d.choice([0, 0, 2, 1, 3]), pure=d.int(0, 3),
        nt=d.choice([0, 2, 2, 3]), seed=d.seed(),
        lmax=d.int(4, 8), eps=d.choice([0.5, 0.1, 1e-2, 1e-4]),
        other=[d.int(0, 5), d.int(0, 5), d.choice(TOLS), d.bool()])


def gen_defaults(d):
    return dict(ops=[gen_call(d) if d.int(0, 2) == 0 else gen_set(d)
                     for _ in range(d.int(2, 12))] + [gen_call(d)])


def value(v):
    return {"nan": np.nan, "inf": np.inf}.get(v, v) \
        if isinstance(v, str) else v


def do_set(x, o, m):
    v = value(o["v"])
    k = o["k"]
    if o["np"] and isinstance(v, (int, float)):
        # numbers also come as numpy scalars
        v = np.float64(v) if isinstance(v, float) else np.int64(v)
    if k == "sht":
        name, ok = "sht_calculator", v in ("ducc", "healpy")
        f = lambda: nmt.set_sht_calculator(v)  # noqa
    elif k == "tol":
        name = "tol_pinv_default"
        ok = isinstance(v, (int, float, np.number)) and bool(0 <= v <= 1)
        f = lambda: nmt.set_tol_pinv_default(v)  # noqa
    else:
        name = k + "_default"
        ok = isinstance(v, (int, np.integer)) and v >= 0
        if k == "n_iter_mask":
            f = lambda: nmt.set_n_iter_default(v, mask=True)  # noqa
        else:
            f = lambda: nmt.set_n_iter_default(v)  # noqa
    try:
        f()
        took = True
    except Exception:
        took = False
    x.check(took == ok, f"default {name}={v!r} was "
            f"{'accepted' if took else 'refused'}")
    if ok:
        m.v[name] = v
    x.label("set " + k if ok else "refused " + k)


def arrays(o, npix, n):
    r = rng_of(o["seed"], 1)
    mask = r.random(npix) + 0.1
    mask[r.random(npix) < 0.3] = 0
    maps = r.standard_normal((n, npix))
    t = r.standard_normal((n, npix))
    temps = np.array([t + (o["eps"] * r.standard_normal((n, npix))
                           if i else 0) for i in range(o["nt"])])
    return mask, maps, temps if o["nt"] else None


def compute(o, args, extra=None):
    """The numbers that come out of a call that is given the arguments of
    args (those left out have their default)."""
    n = 1 if o["spin"] == 0 else 2
    pure = {}
    if o["spin"] == 2:
        pure = dict(purify_e=bool(o["pure"] & 1),
                    purify_b=bool(o["pure"] & 2))
    args = dict(args)
    k = o["kind"]
    if k == "flat":
        ny = nx = 7
        mask, maps, temps = arrays(o, ny * nx, n)
        args.pop("n_iter", None)
        args.pop("n_iter_mask", None)
        sh = (ny, nx)
        f = nmt.NmtFieldFlat(
            0.1, 0.1, mask.reshape(sh), maps.reshape((n,) + sh),
            spin=o["spin"],
            templates=None if temps is None else temps.reshape(
                (o["nt"], n) + sh), **pure, **args)
        return [f.get_maps(), np.array(nmt.compute_coupled_cell_flat(
            f, f, nmt.NmtBinFlat(np.array([0., 150.]),
                                 np.array([150., 300.]))))]
    wcs = None
    if k == "car":
        ny, nx = 6, 8
        wcs = _wcs(ny, nx)
        mask, maps, temps = arrays(o, ny * nx, n)
        sh = (ny, nx)
        mask, maps = mask.reshape(sh), maps.reshape((n,) + sh)
        temps = None if temps is None else temps.reshape((o["nt"], n) + sh)
    else:
        mask, maps, temps = arrays(o, 48, n)
    late = {}
    if k in ("deproj", "noise"):
        # the number of iterations of the call, not of its fields
        late = {a: args.pop(a) for a in ["n_iter"] if a in args}
        args.update(n_iter=2)
    lmax = o["lmax"]
    f = nmt.NmtField(mask, maps, spin=o["spin"], templates=temps, wcs=wcs,
                     lmax=lmax, lmax_mask=lmax, **pure, **args)
    if k == "deproj":
        cl = np.ones((n * n, lmax + 1)) / (1. + np.arange(lmax + 1))
        return [nmt.deprojection_bias(f, f, cl, **late)]
    if k == "noise":
        return [nmt.uncorr_noise_deprojection_bias(f, mask + 0.5, **late)]
    if k == "later" and extra is not None:
        extra()
    w = nmt.NmtWorkspace.from_fields(f, f, nmt.NmtBin.from_lmax_linear(
        lmax, 2))
    return [f.get_alms(), f.get_mask_alms(), f.get_maps(),
            np.array(nmt.compute_coupled_cell(f, f)),
            w.get_coupling_matrix()]


def _wcs(ny, nx):
    from astropy.wcs import WCS
    w = WCS(naxis=2)
    w.wcs.ctype = ["RA---CAR", "DEC--CAR"]
    w.wcs.cdelt = [-360. / nx, 180. / (ny - 1)]
    w.wcs.crval = [0, 0]
    w.wcs.crpix = [nx / 2., (ny + 1) / 2.]
    return w


class Watch:
    """Notes which transforms of healpy and ducc0 are used."""
    SPOTS = [("healpy", hp, ["map2alm", "alm2map", "map2alm_spin",
                             "alm2map_spin"])]

    def __enter__(self):
        self.seen, self.old = set(), []
        import ducc0
        ex = ducc0.sht.experimental
        spots = self.SPOTS + [("ducc", ex, ["synthesis",
                                            "adjoint_synthesis"])]
        for name, mod, fs in spots:
            for f in fs:
                g = getattr(mod, f)
                self.old.append((mod, f, g))

                def wrap(*a, _g=g, _n=name, **k):
                    self.seen.add(_n)
                    return _g(*a, **k)
                try:
                    setattr(mod, f, wrap)
                except (AttributeError, TypeError):
                    pass
        return self

    def __exit__(self, *a):
        for mod, f, g in self.old:
            try:
                setattr(mod, f, g)
            except (AttributeError, TypeError):
                pass


def run(o, args, extra=None):
    try:
        return compute(o, args, extra), None
    except Exception as q:
        return None, type(q).__name__ + str(q)[:80]


def differ(a, b):
    return any(u.shape != v.shape or np.max(np.abs(u - v)) > 1e-4 * np.max(
        np.abs(v)) for u, v in zip(a, b))


def jacobi(m, spin, n, lmax):
    """Coefficients of HEALPix maps after n Jacobi iterations."""
    nside = hp.npix2nside(m.shape[-1])
    if spin == 0:
        def fwd(y):
            return np.array([hp.map2alm(y[0], lmax=lmax, iter=0)])

        def back(a):
            return np.array([hp.alm2map(a[0], nside, lmax=lmax)])
    else:
        def fwd(y):
            return np.array(hp.map2alm_spin(y, spin, lmax=lmax))

        def back(a):
            return np.array(hp.alm2map_spin(a, nside, spin, lmax))
    a = fwd(m)
    for _ in range(n):
        a = a + fwd(m - back(a))
    return a


def do_call(x, o, m):
    names = ["n_iter", "n_iter_mask", "tol_pinv"]
    given = {n: v for n, v in zip(names, o["give"]) if v is not None}
    args = dict(given)
    if o["none"]:
        # leaving it out and giving None are the same
        for n in names:
            args.setdefault(n, None)
    full = {n: given.get(n, m.v[n + "_default"]) for n in names}
    what = (f"{o['kind']} with {given}, defaults {m.v}")
    changed = Defaults()
    changed.v.update(n_iter_default=o["other"][0],
                     n_iter_mask_default=o["other"][1],
                     tol_pinv_default=o["other"][2])
    if o["kind"] == "later":
        # the defaults change after the field was made
        got, err = run(o, args, changed.apply)
        m.apply()
    else:
        with Watch() as w:
            got, err = run(o, args)
        x.check(m.v["sht_calculator"] not in w.seen or len(w.seen) < 2,
                f"{what}: used both back ends")
        if o["kind"] in ("field", "deproj", "noise"):
            x.check(not w.seen - {m.v["sht_calculator"]},
                    f"{what}: transforms made with {w.seen}")
    x.check(nmt.get_default_params() == m.v, f"{what}: defaults have become "
            f"{nmt.get_default_params()}")
    # the same with everything explicit and other defaults
    changed.v["sht_calculator"] = m.v["sht_calculator"]
    if o["other"][3] and o["kind"] not in ("flat", "car"):
        changed.v["sht_calculator"] = "healpy"
    changed.apply()
    want, err2 = run(o, full)
    x.check(err == err2, f"{what}: outcome {err}, but with explicit values "
            f"{err2}")
    m.apply()
    x.label(o["kind"], "n_templates %d" % o["nt"])
    if err:
        x.label("refused call")
        return
    # differing back ends, or near-degenerate templates, amplify rounding
    rtol = 1e-9 if changed.v["sht_calculator"] == m.v["sht_calculator"] \
        else 1e-6 if o["nt"] == 0 else None
    if rtol is not None:
        for i, (a, b) in enumerate(zip(got, want)):
            x.close(a, b, rtol=rtol, atol=1e-12, msg=f"{what}: result {i} "
                    "differs from the one with explicit values")
    if o["kind"] in ("field", "later") and o["nt"] == 0 and not (
            o["spin"] == 2 and o["pure"]):
        mask, maps, _ = arrays(o, 48, 1 if o["spin"] == 0 else 2)
        x.close(got[0], jacobi(mask * maps, o["spin"], full["n_iter"],
                               o["lmax"]), rtol=1e-6,
                msg=f"{what}: coefficients after {full['n_iter']} iterations")
        x.close(got[1], jacobi(mask[None], 0, full["n_iter_mask"],
                               o["lmax"])[0], rtol=1e-6,
                msg=f"{what}: coefficients of the mask after "
                f"{full['n_iter_mask']} iterations")
    for n in names:
        alt = dict(full)
        alt[n] = 0.9 if n == "tol_pinv" else full[n] + 2
        r, e = run(o, alt)
        if r is None or not differ(got, r):
            continue
        if n not in given and m.v[n + "_default"] != Defaults().v[
                n + "_default"]:
            x.nontrivial()
            x.label("default " + n)
        if n in given and given[n] != m.v[n + "_default"]:
            x.nontrivial()
            x.label("explicit " + n)


def fn_defaults(c, x):
    m = Defaults()
    m.apply()
    try:
        with np.errstate(all="ignore"):
            for o in c["ops"]:
                if o["op"] == "set":
                    do_set(x, o, m)
                else:
                    if o["kind"] == "car" and m.v["sht_calculator"] != \
                            "ducc":
                        o = dict(o, kind="field")
                    do_call(x, o, m)
                got = nmt.get_default_params()
                x.check(got == m.v, f"defaults are {got}, expected {m.v}")
                # what was reported is a copy
                got["n_iter_default"] = 77
    finally:
        Defaults().apply()


# ------------------------------------------------------------ pseudo-inverse
def gen_pinvh(d):
    n = d.int(1, 8)
    tol = d.choice([1e-10, 1e-8, 1e-6, 1e-3, 0.1, 0, -1, None])
    thr = tol if tol and tol > 0 else 1e-10
    eig = []
    for i in range(n):
        if i == 0:
            eig.append(1.)
        elif tol is None or tol <= 0 or d.bool():
            eig.append(max(thr * 3, 1e-6) ** (d.int(0, 10) / 10.))
        else:
            eig.append(d.choice([0., 0., thr / 3, thr / 100, thr * 1e-5]))
    return dict(n=n, tol=tol, eig=d.perm(eig), cplx=d.bool(),
                diag=d.int(0, 5) == 0, scale=d.choice([0, 0, -8, 8, -30, 30,
                                                       -100, 100]),
                seed=d.seed())


def fn_pinvh(c, x):
    r = rng_of(c["seed"])
    n = c["n"]
    q = r.standard_normal((n, n))
    if c["cplx"]:
        q = q + 1j * r.standard_normal((n, n))
    q = np.eye(n) if c["diag"] else np.linalg.qr(q)[0]
    eig = np.array(c["eig"])
    s = 10.**c["scale"]
    a = (q * eig) @ q.conj().T
    a = 0.5 * (a + a.conj().T) * s
    if c["cplx"]:
        a = a.astype(complex)
    a0 = a.copy()
    tol = c["tol"]
    got = nmt.utils.moore_penrose_pinvh(a, tol)
    x.check(np.array_equal(a, a0), "matrix was changed")
    keep = eig > 0
    if tol is not None and tol > 0:
        keep = eig >= tol
    want = (q[:, keep] / eig[keep]) @ q[:, keep].conj().T / s
    # discarded eigenvectors are known up to rounding of the largest one
    lo = np.min(eig[keep])
    gap = np.min([abs(u - v) for u in eig[keep] for v in
                  list(eig[~keep]) + [0.]])
    err = 1e-13 / lo / gap + 1e-12
    x.close(got, want, rtol=0, atol=max(err, 1e-12 / lo) / s,
            msg=f"pseudo-inverse with tol {tol}, eigenvalues {eig * s}")
    x.close(got, got.conj().T, rtol=0, atol=max(err, 1e-12 / lo) / s,
            msg="Hermitian")
    # Penrose conditions, with the retained part of the matrix
    b = (q[:, keep] * eig[keep]) @ q[:, keep].conj().T * s
    e = 10 * max(err, 1e-12 / lo)
    x.close(got @ b @ got, got, rtol=0, atol=e / lo / s, msg="X A X = X")
    x.close(b @ got @ b, b, rtol=0, atol=e * s, msg="A X A = A")
    p = got @ b
    x.close(p, p.conj().T, rtol=0, atol=e, msg="X A Hermitian")
    if np.all(keep):
        x.close(got @ a, np.eye(n), rtol=0, atol=e, msg="inverse")
        x.label("full rank")
    else:
        x.label("rank %d of %d" % (keep.sum(), n))
    x.label("complex" if c["cplx"] else "real", f"tol {tol}")
    x.nontrivial(n > 1)


SUBS = [Sub("defaults", gen_defaults, fn_defaults, quick=1200, thorough=20000,
            weight=20),
        Sub("pinvh", gen_pinvh, fn_pinvh, quick=3000, thorough=60000)]
