"""P13: spherical harmonic transforms and map geometries."""
import healpy as hp
import numpy as np
import pymaster as nmt
from lib import sht
from lib.gen import car_wcs, hp_mask, rng_of
from lib.pbt import Sub
from lib.pbt import Violation
from props.p08 import Grid, gen_grid

RULE = ("Non-trivial: a random (not constant) map or set of coefficients "
        "with power at every multipole and order of the case.")
ASSUMPTIONS = ["direct sums are compared at 1e-8 relative to the largest "
               "coefficient (the transforms promise ~1e-12)",
               "on HEALPix a band limit of 1.5 nside or less is used for "
               "convergence of the iterations"]
BACK = ["ducc", "healpy"]


class backend:
    def __init__(self, name):
        self.name = name

    def __enter__(self):
        self.old = nmt.get_default_params()["sht_calculator"]
        nmt.set_sht_calculator(self.name)

    def __exit__(self, *a):
        nmt.set_sht_calculator(self.old)


def rand_alm(lmax, spin, rng):
    ls, ms = sht.lm_index(lmax)
    n = 2 if spin else 1
    a = rng.standard_normal((n, len(ls))) + 1j * rng.standard_normal(
        (n, len(ls)))
    a[:, ms == 0] = a[:, ms == 0].real
    a[:, ls < spin] = 0
    return a


# ---------------------------------------------------------------- direct
def gen_direct(d):
    s = d.choice([0, 0, 1, 2, 2, 3, 5])
    return dict(grid=gen_grid(d), s=s, lmax=max(s, 1) + d.int(0, 7),
                n_iter=d.rare(d.choice([0, 0, 1, 2, 5]), 3, 8, 12), back=d.choice(BACK),
                seed=d.seed())


def gen_dl(d):
    c = gen_direct(d)
    g = c["grid"]
    if g["pix"] == "hp":
        g["nside"] = d.choice([16, 32])
    else:
        g.update(ny=g["ny"] + d.int(10, 50), nx=g["nx"] + d.int(60, 90))
        g["nx"] = max(g["nx"], 2 * (g["ny"] - 1))
    c.update(lmax=d.int(8, 22), n_iter=d.choice([0, 0, 1]))
    return c


def direct(c, x):
    g = Grid(c["grid"])
    rng = rng_of(c["seed"])
    s, L = c["s"], c["lmax"]
    n = 2 if s else 1
    mi = nmt.NmtMapInfo(g.wcs, g.shape)
    ai = nmt.NmtAlmInfo(L)
    x.check(ai.nelem == sht.nalm(L), "wrong number of coefficients")
    ls, ms = sht.lm_index(L)
    x.equal(np.array([int(ai.mstart[m]) + l for l, m in zip(ls, ms)]),
            np.arange(ai.nelem), "position of the coefficients")
    mp = rng.standard_normal((n,) + g.shape)
    al = rand_alm(L, s, rng)
    x.label(c["grid"]["pix"], f"spin{s}", c["back"])
    std = mi.reform_map(mp)
    x.equal(std, g.std(mp), "reordered map")
    if g.car:
        ex = 180. / (g.g["ny"] - 1), 360. / g.g["nx"]
        x.check(mi.get_lmax() == int(180 / min(ex) + 1e-3),
                "default band limit", got=mi.get_lmax())
    else:
        x.check(mi.get_lmax() == 3 * g.g["nside"] - 1, "default band limit")
    with backend("ducc" if g.car else c["back"]):
        got = nmt.utils.map2alm(std.copy(), s, mi, ai, n_iter=c["n_iter"])
        syn = nmt.utils.alm2map(al.copy(), s, mi, ai)
    want = g.ref_alm(std, s, L, c["n_iter"])
    q = ls >= s
    x.close(got[:, q], want[:, q], rtol=1e-8, msg="analysis")
    x.check(np.all(got[:, ~q] == 0), "coefficients below the spin")
    S = sht.SHT(L, g.std(g.th), g.std(g.ph))
    x.close(syn, S.synth(al, s), rtol=1e-8, msg="synthesis")
    x.close(mi.si.dot_map(std[0], syn[0]),
            np.sum(g.std(g.w) * std[0] * syn[0]), rtol=1e-9,
            scale=np.sum(np.abs(g.std(g.w) * std[0] * syn[0])),
            msg="integral of a product of maps")
    x.nontrivial()


# ------------------------------------------------------------- roundtrip
def gen_round(d):
    s = d.choice([0, 0, 1, 2, 2, 3])
    return dict(s=s, lmax=max(s, 1) + d.int(0, 10), dy=d.int(0, 3),
                dx=d.int(0, 4), ft=int(d.bool()), fp=int(d.bool()),
                ra0=d.choice([0., 33., 180.]), n_iter=d.rare(d.choice([0, 0, 1, 3]), 4, 9),
                seed=d.seed())


def roundtrip(c, x):
    L, s = c["lmax"], c["s"]
    wcs, th, ph = car_wcs(2 * L + 1 + c["dy"], 2 * L + 1 + c["dx"], c["ft"],
                          c["fp"], c["ra0"])
    rng = rng_of(c["seed"])
    al = rand_alm(L, s, rng)
    S = sht.SHT(L, th.ravel(), ph.ravel())
    mp = S.synth(al, s).reshape((-1,) + th.shape)
    f = nmt.NmtField(np.ones(th.shape), mp, spin=s, wcs=wcs, lmax=L,
                     lmax_mask=L, n_iter=c["n_iter"], n_iter_mask=0)
    x.close(f.get_alms(), al, rtol=1e-9, msg="coefficients of a synthesised "
            "field")
    m = np.zeros(len(al[0]))
    m[0] = np.sqrt(4 * np.pi)
    x.close(f.get_mask_alms(), m, rtol=1e-9, msg="coefficients of ones")
    mi = nmt.NmtMapInfo(wcs, th.shape)
    x.close(nmt.utils.alm2map(al, s, mi, nmt.NmtAlmInfo(L)),
            mi.reform_map(mp), rtol=1e-9, msg="synthesis")
    x.label(f"spin{s}", f"flip{c['ft']}{c['fp']}")
    x.nontrivial()


# -------------------------------------------------------------- converge
def gen_conv(d):
    ns = d.choice([4, 4, 8, 16])
    s = d.choice([0, 1, 2, 3])
    return dict(nside=ns, s=s, lmax=max(s, d.int(ns // 2, 3 * ns // 2)),
                back=d.choice(BACK), seed=d.seed())


def gen_cl(d):
    c = gen_conv(d)
    ns = d.choice([32, 64, 64])
    c.update(nside=ns, lmax=d.int(ns // 2, 3 * ns // 2))
    return c


def converge(c, x):
    L, s = c["lmax"], c["s"]
    rng = rng_of(c["seed"])
    al = rand_alm(L, s, rng)
    npix = hp.nside2npix(c["nside"])
    mi, ai = nmt.NmtMapInfo(None, [npix]), nmt.NmtAlmInfo(L)
    e = []
    with backend(c["back"]):
        mp = nmt.utils.alm2map(al, s, mi, ai)
        for n in (0, 1, 3, 20):
            a = nmt.NmtField(np.ones(npix), mp, spin=s, lmax=L, lmax_mask=L,
                             n_iter=n, n_iter_mask=0).get_alms()
            e.append(float(np.max(np.abs(a - al)) / np.max(np.abs(al))))
    x.check(e[1] < 0.5 * e[0] + 1e-9 and e[2] < 0.5 * e[1] + 1e-9 and
            e[3] < 1e-6, "iterations do not converge", errors=e)
    x.check(e[0] < 0.6, "first analysis far from the input", errors=e)
    x.label(c["back"], f"spin{s}")
    x.nontrivial()


# ---------------------------------------------------------------- orient
def gen_orient(d):
    ny = d.int(5, 12)
    nx = 2 * (ny - 1) + d.int(0, 5)
    i0 = d.int(0, ny - 3)
    s = d.choice([0, 1, 2, 2])
    return dict(ny=ny, nx=nx, i0=i0, ni=d.int(2, ny - i0),
                j0=d.int(0, nx - 1), nj=d.int(2, nx),
                ra0=d.choice([0., 60., 200., 359.]),
                a=[int(d.bool()), int(d.bool())],
                b=[int(d.bool()), int(d.bool())], s=s,
                pure=s == 2 and d.bool(), nt=d.int(0, 2),
                n_iter=d.choice([0, 1, 3]), n_iter_mask=d.choice([0, 2]),
                lmax=max(2, s) + d.int(0, 4), beam=d.bool(), seed=d.seed())


def view(c, orient, full):
    """The sky (row, column) as seen in some orientation: returns wcs and
    the function that takes arrays indexed by the base full-sky grid to the
    arrays to give the library."""
    from astropy.wcs import WCS
    ft, fp = orient
    ny, nx = c["ny"], c["nx"]
    dth, dph = 180. / (ny - 1), 360. / nx
    if full:
        i0, ni, j0, nj = 0, ny, 0, nx
    else:
        i0, ni, j0, nj = c["i0"], c["ni"], c["j0"], c["nj"]
    w = WCS(naxis=2)
    w.wcs.ctype = ["RA---CAR", "DEC--CAR"]
    # base: row 0 is the north pole, right ascension grows with columns
    w.wcs.cdelt = [-dph if fp else dph, dth if ft else -dth]
    # reference: the first column of the map (after flipping)
    jr = (j0 + nj // 2)
    w.wcs.crval = [(c["ra0"] + dph * jr) % 360., 0.]
    cx = nj // 2 + 1
    cy = (ny - 1) / 2. - i0 + 1
    w.wcs.crpix = [nj + 1 - cx if fp else cx, ni + 1 - cy if ft else cy]

    def cut(m):
        rows = np.arange(i0, i0 + ni)
        cols = np.arange(j0, j0 + nj) % nx
        m = m[..., rows, :][..., cols]
        if ft:
            m = m[..., ::-1, :]
        if fp:
            m = m[..., ::-1]
        return m
    return w, cut


def orient(c, x):
    rng = rng_of(c["seed"])
    ny, nx, s, L = c["ny"], c["nx"], c["s"], c["lmax"]
    n = 2 if s else 1
    rows = np.zeros(ny)
    rows[c["i0"]:c["i0"] + c["ni"]] = 1
    cols = np.zeros(nx)
    cols[np.arange(c["j0"], c["j0"] + c["nj"]) % nx] = 1
    foot = np.outer(rows, cols)
    m = rng.random((ny, nx)) * foot
    mp = rng.standard_normal((n, ny, nx)) * foot
    t = rng.standard_normal((c["nt"], n, ny, nx)) * foot
    kw = dict(spin=s, lmax=L, lmax_mask=L, n_iter=c["n_iter"],
              n_iter_mask=c["n_iter_mask"])
    if c["pure"]:
        kw.update(purify_b=True)
    if c["beam"]:
        kw.update(beam=np.exp(-0.1 * np.arange(L + 1)))
    F = []
    for o, full in ((c["a"], 0), (c["b"], 0), (c["a"], 1), (c["b"], 1)):
        w, cut = view(c, o, full)
        F.append(nmt.NmtField(cut(m), cut(mp), wcs=w, templates=cut(t)
                              if c["nt"] else None, **kw))
    x.label("same" if c["a"] == c["b"] else "flipped", f"spin{s}",
            "pure" if c["pure"] else "standard",
            "seam" if c["j0"] + c["nj"] > nx else "inside")
    q = foot.astype(bool)
    ref = F[0]
    sa = np.max(np.abs(ref.get_alms())) + 1e-300
    for i, f in enumerate(F[1:]):
        nm = ["other orientation", "full sky",
              "full sky, other orientation"][i]
        x.close(f.get_mask_alms(), ref.get_mask_alms(), rtol=1e-9,
                msg=f"mask coefficients: {nm}")
        x.close(f.get_alms(), ref.get_alms(), atol=1e-8 * sa,
                msg=f"coefficients: {nm}")
    x.equal(F[1].get_mask(), ref.get_mask(), "stored mask")
    x.close(F[1].get_maps(), ref.get_maps(), rtol=1e-9, msg="stored maps")
    if c["nt"]:
        x.close(F[1].get_templates(), ref.get_templates(), rtol=1e-8,
                msg="stored templates")
    want = nmt.compute_coupled_cell(ref, ref)
    x.close(nmt.compute_coupled_cell(F[0], F[1]), want,
            atol=1e-8 * np.max(np.abs(want)),
            msg="spectrum across orientations")
    x.check(F[0].minfo == F[1].minfo, "equal pixels in another orientation "
            "are not recognised as the same geometry")
    x.nontrivial(q.any())


# --------------------------------------------------------------- backend
def gen_back(d):
    s = d.choice([0, 1, 2, 2, 3])
    return dict(nside=d.choice([2, 4, 8]), s=s, pure=s == 2 and d.bool(),
                nt=d.int(0, 2), n_iter=d.choice([0, 1, 3]),
                dl=d.int(0, 12), kind=d.choice(["random", "smooth",
                                                "binary", "signed"]),
                apo=d.choice([5., 20.]), aniso=d.bool(), seed=d.seed())


def backends(c, x):
    s = c["s"]
    n = 2 if s else 1
    # healpy integrates with fast transforms up to 3 nside - 1
    L = min(max(2, 2 * s) + c["dl"], 3 * c["nside"] - 1)
    if L < 2 * s:
        L = 2 * s
    npix = hp.nside2npix(c["nside"])
    kw = dict(spin=s, lmax=L, lmax_mask=L, n_iter=c["n_iter"],
              n_iter_mask=c["n_iter"])
    if c["pure"]:
        kw.update(purify_b=True, purify_e=c["seed"] % 2 == 0)
    out = []
    for b in BACK:
        rng = rng_of(c["seed"])
        with backend(b):
            m = hp_mask(c["nside"], c["kind"], rng)
            mp = rng.standard_normal((n, npix))
            t = rng.standard_normal((c["nt"], n, npix))
            if c["aniso"] and s and not c["pure"] and not c["nt"]:
                k2 = dict(kw, mask_22=1.2 + np.abs(m),
                          mask_12=0.2 * rng.random(npix))
                f = nmt.NmtField(1.5 + np.abs(m), mp, **k2)
            else:
                f = nmt.NmtField(m, mp, templates=t if c["nt"] else None,
                                 **kw)
            cl = nmt.compute_coupled_cell(f, f)
            r = dict(alms=f.get_alms(), mask=f.get_mask_alms(), cl=cl,
                     maps=f.get_maps())
            if f.anisotropic_mask:
                r["aniso"] = f.get_anisotropic_mask_alms()
            if c["nt"]:
                r["bias"] = nmt.deprojection_bias(
                    f, f, np.ones((n * n, L + 1)), n_iter=c["n_iter"])
            r["apo"] = nmt.mask_apodization(
                np.abs(m), c["apo"], "Smooth")
            np.random.seed(c["seed"] % 1000)
            r["sim"] = nmt.synfast_spherical(
                c["nside"], np.ones((n * (n + 1) // 2, L + 1)) * (
                    np.arange(n * (n + 1) // 2)[:, None] != 1), [s],
                seed=c["seed"] % 1000)
            out.append(r)
    x.label(f"spin{s}")
    for k in out[0]:
        x.close(out[1][k], out[0][k], rtol=1e-7, msg=f"{k} of back ends")
    w, th, ph = car_wcs(9, 16)
    with backend("healpy"):
        x.raises(lambda: nmt.NmtField(np.ones(th.shape), [np.ones(
            th.shape)], wcs=w), Exception, "rectangular map with healpy")
    x.raises(lambda: nmt.set_sht_calculator("other"), Exception,
             "unknown back end")
    x.nontrivial()


# ---------------------------------------------------------------- refuse
BAD = ["ctype", "ctype_dec", "dec0", "cdelt_ra", "cdelt_dec", "outside_n",
       "outside_s", "wrap", "offset", "flat", "swap", "npix", "nside3",
       "cross_nside", "cross_shift", "cross_patch", "cross_car_hp",
       "cross_res", "maps_shape", "synfast_patch"]


def gen_bad(d):
    ny = d.int(6, 12)
    return dict(ny=ny, nx=2 * (ny - 1) + d.int(0, 4), ft=int(d.bool()),
                fp=int(d.bool()), ra0=d.choice([0., 77.]),
                what=d.choice(BAD), f=d.float(0.1, 0.9), k=d.int(1, 3),
                patch=d.bool(), seed=d.seed())


def refuse(c, x):
    ny, nx, k, f = c["ny"], c["nx"], c["k"], c["f"]
    patch = (1, ny - 2, 0, nx) if c["patch"] else None
    w, th, ph = car_wcs(ny, nx, c["ft"], c["fp"], c["ra0"], patch)
    rng = rng_of(c["seed"])
    good = nmt.NmtField(rng.random(th.shape), [rng.random(th.shape)], wcs=w,
                        n_iter=0, n_iter_mask=0, lmax=4, lmax_mask=4)
    what = c["what"]
    x.label(what)
    x.nontrivial()
    sh = th.shape
    other = None
    if what == "ctype":
        w.wcs.ctype = ["RA---TAN", "DEC--TAN"]
    elif what == "ctype_dec":
        w.wcs.ctype = ["RA---CEA", "DEC--CEA"]
    elif what == "dec0":
        w.wcs.crval = [c["ra0"], (5 + 20 * f) * (-1)**k]
    elif what == "cdelt_ra":
        # a pixel size that does not divide the circle
        w.wcs.cdelt = [w.wcs.cdelt[0] * nx / (nx + 0.1 + 0.8 * f),
                       w.wcs.cdelt[1]]
    elif what == "cdelt_dec":
        q = (ny - 1) / (ny - 1 + 0.1 + 0.8 * f)
        w.wcs.cdelt = [w.wcs.cdelt[0], w.wcs.cdelt[1] * q]
    elif what in ("outside_n", "outside_s"):
        if patch:
            k += 2
        w.wcs.crpix = [w.wcs.crpix[0], w.wcs.crpix[1] + (
            k if what == "outside_n" else -k)]
    elif what == "wrap":
        sh = (sh[0], nx + k)
        if k == 1:
            sh = (sh[0], nx + 2)
    elif what == "offset":
        # rings between those of the required grid
        if not patch:
            sh = (sh[0] - 1, nx)
        w.wcs.crpix = [w.wcs.crpix[0], w.wcs.crpix[1] - 0.02 - 0.96 * f *
                       0.9]
    elif what == "flat":
        sh = (sh[0] * sh[1],)
    elif what == "swap":
        sh = (sh[1] + ny, sh[0])
    elif what in ("npix", "nside3"):
        n = 12 * 9 if what == "nside3" else 192 + k * 7
        x.raises(lambda: nmt.NmtField(np.ones(n), [np.ones(n)]), Exception,
                 what)
        return
    elif what == "cross_nside":
        a = nmt.NmtField(np.ones(48), [np.ones(48)], lmax=4, lmax_mask=4)
        other = nmt.NmtField(np.ones(192), [np.ones(192)], lmax=4,
                             lmax_mask=4)
        good = a
    elif what == "cross_car_hp":
        other = nmt.NmtField(np.ones(192), [np.ones(192)], lmax=4,
                             lmax_mask=4)
    elif what == "cross_shift":
        w2, _, _ = car_wcs(ny, nx, c["ft"], c["fp"], c["ra0"] + k * 360. /
                           nx, patch)
        other = nmt.NmtField(np.ones(sh), [np.ones(sh)], wcs=w2, lmax=4,
                             lmax_mask=4)
    elif what == "cross_patch":
        p2 = (0, sh[0] - (0 if patch else 1), 0, nx)
        w2, t2, _ = car_wcs(ny, nx, c["ft"], c["fp"], c["ra0"], p2)
        other = nmt.NmtField(np.ones(t2.shape), [np.ones(t2.shape)], wcs=w2,
                             lmax=4, lmax_mask=4)
    elif what == "cross_res":
        w2, t2, _ = car_wcs(ny + k, nx, c["ft"], c["fp"], c["ra0"])
        other = nmt.NmtField(np.ones(t2.shape), [np.ones(t2.shape)], wcs=w2,
                             lmax=4, lmax_mask=4)
    elif what == "maps_shape":
        bad = np.ones((sh[0] + 1, sh[1])) if k == 1 else (
            np.ones((sh[0], sh[1] - 1)) if k == 2 else np.ones(
                (sh[1], sh[0])))
        if bad.shape == sh:
            bad = bad[1:]
        x.raises(lambda: nmt.NmtField(np.ones(sh), [bad], wcs=w), Exception,
                 "maps of another shape")
        x.raises(lambda: nmt.NmtField(np.ones(sh), [np.ones(sh)], wcs=w,
                                      templates=[[bad]]), Exception,
                 "templates of another shape")
        return
    elif what == "synfast_patch":
        w2, t2, _ = car_wcs(ny, nx, c["ft"], c["fp"], c["ra0"],
                            (1, ny - 1, 0, nx))
        if not c["ft"]:
            w2.wcs.crpix = [w2.wcs.crpix[0], w2.wcs.crpix[1] - 1]
        x.raises(lambda: nmt.synfast_spherical(-1, np.ones((1, 5)), [0],
                                               wcs=w2), Exception,
                 "simulation on a map that does not cover the sphere")
        return
    if other is not None:
        # pixel-level products of these fields make no sense
        for a, b in ((good, other), (other, good)):
            x.raises(lambda: nmt.NmtCovarianceWorkspace.from_fields(
                a, b), Exception, f"{what}: covariance")
            x.raises(lambda: nmt.deprojection_bias(
                a, b, np.ones((1, 5))), Exception,
                f"{what}: deprojection bias")
            x.check(a.minfo != b.minfo and not (a.minfo == b.minfo),
                    f"{what}: different grids compare equal")
            x.check(not a.is_compatible(b) and
                    a.is_compatible(b, strict=False),
                    f"{what}: compatibility")
        # but harmonic coefficients can be crossed
        cl = nmt.compute_coupled_cell(good, other)
        a, b = good.get_alms()[0], other.get_alms()[0]
        x.close(cl[0], hp.alm2cl(a, b), rtol=1e-9, scale=np.sqrt(
            np.max(hp.alm2cl(a)) * np.max(hp.alm2cl(b))),
            msg="spectrum across pixelisations")
        return
    try:
        mi = nmt.NmtField(np.ones(sh), [np.ones(sh)], wcs=w)
    except Exception:
        return
    raise Violation(f"{what}: map that does not fit the grid was accepted "
                    f"(first ring at {mi.minfo.theta_min}, spacing "
                    f"{mi.minfo.d_theta})")


SUBS = [
    Sub("direct", gen_direct, direct, quick=1600, thorough=20000,
        rule="random maps and coefficients"),
    Sub("roundtrip", gen_round, roundtrip, quick=800, thorough=10000,
        rule="random coefficients"),
    Sub("converge", gen_conv, converge, quick=240, thorough=4000,
        rule="random coefficients"),
    Sub("orient", gen_orient, orient, quick=1000, thorough=15000,
        rule="random maps in a non-empty footprint"),
    Sub("backend", gen_back, backends, quick=400, thorough=5000,
        rule="random maps and masks"),
    Sub("refuse", gen_bad, refuse, quick=800, thorough=5000,
        rule="one defect of the geometry per case"),
    Sub("large-direct", gen_dl, direct, quick=60, thorough=1500,
        rule="random maps and coefficients", weight=100),
    Sub("large-converge", gen_cl, converge, quick=30, thorough=600,
        rule="random coefficients", weight=30),
]
