"""P09: purified curved-sky fields."""
import healpy as hp
import numpy as np
import pymaster as nmt
from lib import curved, sht
from lib.gen import car_wcs, rng_of
from lib.pbt import Sub

RULE = ("Non-trivial: a mask with structure and a sky with modes that leak "
        "in an ordinary (non-purified) field.")
ASSUMPTIONS = ["exact statements use skies and masks that are band-limited "
               "on grids with exact quadrature, with lmax_mask at or above "
               "the mask's band limit",
               "on HEALPix the residual leakage is only bounded (a hundred "
               "times below the ordinary leakage in power)"]


def gen(d):
    lmax = d.int(2, 9)
    lm = d.int(1, 7)
    return dict(lmax=lmax, lsky=max(2, lmax + d.choice([0, d.int(0, 4),
                                                        -d.int(0, 4)])),
                lm=lm, dl=d.choice([0, 0, d.int(1, 8)]),
                pure=d.choice([[1, 0], [0, 1], [1, 1]]),
                comp=d.choice([0, 1]), nt=d.choice([0, 0, 1, 2]),
                tsame=d.bool(), kind=d.choice(["random", "random",
                                               "positive", "const"]),
                n_iter=d.choice([0, 0, 1]), lite=d.bool(),
                grid=curved.gen_grid(d), seed=d.seed())


def setup(c):
    rng = rng_of(c["seed"])
    deg = max(c["lmax"] + c["lsky"] + c["lm"], 2 * c["lmax"],
              2 * (c["lm"] + c["dl"]), 2 * c["lm"] + c["lsky"])
    g = curved.Grid(deg, c["grid"])
    if c["kind"] == "const":
        m = np.ones(g.shape) * rng.uniform(0.2, 2) * rng.choice([-1, 1])
    else:
        m = curved.masks(g, c["lm"], rng, 2, 0, c["kind"])["mask"]
    kw = dict(spin=2, wcs=g.wcs, lmax=c["lmax"],
              lmax_mask=max(2, c["lm"] + c["dl"]), n_iter=c["n_iter"],
              n_iter_mask=0)
    return rng, g, m, kw


def sky(g, c, rng, comp=None):
    a = g.rand_alm(c["lsky"], rng, 2)
    if comp is not None:
        a[1 - comp] = 0
    return g.synth(a, 2, c["lsky"])


def fn(c, ctx):
    rng, g, m, kw = setup(c)
    pe, pb = [bool(x) for x in c["pure"]]
    comp = c["comp"]
    ctx.label("E" if comp == 0 else "B", f"purify {c['pure']}", c["kind"])
    mp = sky(g, c, rng, comp)
    pkw = dict(kw, purify_e=pe, purify_b=pb)
    t = None
    if c["nt"]:
        t = np.array([sky(g, c, rng, comp if c["tsame"] else None)
                      for _ in range(c["nt"])])
    f0 = nmt.NmtField(m, mp, **kw)
    f = nmt.NmtField(m, mp, lite=c["lite"], **pkw)
    a0, a = f0.get_alms(), f.get_alms()
    sc = np.max(np.abs(a0)) + 1e-300
    # amplification of the spin-1 and spin-2 terms
    tol = 1e-11 * (c["lm"] + c["dl"] + 2)**2
    leak = np.max(np.abs(a0[1 - comp])) / sc
    ctx.nontrivial(leak > 1e-6)
    if leak > 1e-6:
        ctx.label("leaky")
    if c["pure"][1 - comp]:
        ctx.close(a[1 - comp], a[1 - comp] * 0, tol, scale=sc,
                  msg="leakage into the purified component")
        if t is not None and c["tsame"]:
            ft = nmt.NmtField(m, mp, templates=t, **pkw)
            ctx.close(ft.get_alms()[1 - comp], a[1 - comp] * 0, tol,
                      scale=sc * 10, msg="leakage after deprojection")
    for k in (0, 1):
        if not c["pure"][k]:
            ctx.close(a[k], a0[k], 1e-13, scale=sc,
                      msg=f"component {k} that is not purified")
    ctx.check(np.max(np.abs(a[:, :2])) <= 1e-9 * sc, "power below l=2")
    # generic sky: components are purified independently
    mq = sky(g, c, rng)
    q = {}
    for e, b in ((0, 0), (1, 0), (0, 1), (1, 1)):
        q[e, b] = nmt.NmtField(m, mq, **dict(kw, purify_e=bool(e),
                                             purify_b=bool(b)))
    al = {k: v.get_alms() for k, v in q.items()}
    s2 = max(np.max(np.abs(v)) for v in al.values())
    ctx.close(al[1, 1][0], al[1, 0][0], 1e-12, scale=s2, msg="E, both/one")
    ctx.close(al[1, 1][1], al[0, 1][1], 1e-12, scale=s2, msg="B, both/one")
    ctx.close(al[1, 0][1], al[0, 0][1], 1e-13, scale=s2, msg="B untouched")
    ctx.close(al[0, 1][0], al[0, 0][0], 1e-13, scale=s2, msg="E untouched")
    if c["kind"] == "const":
        ctx.close(al[1, 1], al[0, 0], tol, scale=s2, msg="constant mask")
    # the field's maps are the synthesis of its coefficients
    th = g.th.reshape(g.shape)
    o = np.argsort(th[:, 0])
    w = g.synth(a, 2, c["lmax"])
    if not c["lite"]:
        got = f.get_maps().reshape((2,) + g.shape)
        want = w[:, o][..., ::-1] if c["grid"]["fp"] else w[:, o]
        ctx.close(got, want, 1e-11, scale=np.max(np.abs(want)) + sc,
                  msg="purified maps")
    # linearity
    x, y = rng.standard_normal(2)
    h = nmt.NmtField(m, x * mp + y * mq, **pkw)
    ctx.close(h.get_alms(), x * a + y * al[int(pe), int(pb)], 1e-11,
              scale=(sc + s2) * 3, msg="linearity")
    # linear in the mask too
    k = rng.uniform(0.3, 3)
    h = nmt.NmtField(m * k, mp, **pkw)
    ctx.close(h.get_alms(), k * a, 1e-11, scale=sc * 3, msg="mask rescaled")
    # deprojection: same as purifying the cleaned map
    if t is not None:
        ft = nmt.NmtField(m, mq, templates=t, **pkw)
        fn_ = nmt.NmtField(m, mq, templates=t, **kw)
        fl = nmt.NmtField(m, mq, templates=t, lite=True, **pkw)
        A = (t * m).reshape(len(t), -1)
        sv = np.linalg.svd(A, compute_uv=False)
        if sv[-1] < 1e-4 * sv[0]:
            ctx.label("degenerate templates (skipped)")
            return
        # the combination that was taken out of the masked map
        # (maps are returned with increasing colatitude)
        un = nmt.NmtField(m, mq, **kw)
        ts = np.array([nmt.NmtField(m, x, **kw).get_maps() for x in t])
        al2 = np.linalg.lstsq(ts.reshape(len(t), -1).T, (
            un.get_maps() - fn_.get_maps()).ravel(), rcond=None)[0]
        clean = mq - np.tensordot(al2, t, 1)
        fc = nmt.NmtField(m, clean, **pkw)
        st = s2 + np.max(np.abs(np.tensordot(al2, t, 1))) * 10
        ctx.close(ft.get_alms(), fc.get_alms(), 1e-10, scale=st,
                  msg="purification after deprojection")
        ctx.close(ft.get_maps(), fc.get_maps(), 1e-10, scale=st,
                  msg="purified deprojected maps")
        ctx.close(fl.get_alms(), ft.get_alms(), 1e-12, scale=st, msg="lite")
        # templates carry their own purified coefficients
        tp = np.array([nmt.NmtField(m, x, **pkw).get_alms() for x in t])
        if hasattr(ft, "alm_temp"):
            ctx.close(ft.alm_temp, tp, 1e-11, scale=np.max(np.abs(tp))
                      + 1e-300, msg="purified templates")
        ctx.close(ft.get_alms(), al[int(pe), int(pb)]
                  - np.tensordot(al2, tp, 1), 1e-10, scale=st,
                  msg="deprojection commutes with purification")


# ------------------------------------------------ cut sky, padded or not
def gen_cut(d):
    ny = d.int(10, 22)
    nx = 2 * (ny - 1) + d.int(0, 6)
    i0 = d.int(0, ny - 5)
    j0 = d.int(0, nx - 5)
    return dict(ny=ny, nx=nx, ft=int(d.bool()), fp=int(d.bool()),
                patch=[i0, d.int(4, ny - i0), j0, d.int(4, nx - j0)],
                lmax=d.int(2, 7), dl=d.choice([0, 3, -1]),
                n_iter=d.choice([0, 1, 3]), n_iter_mask=d.choice([0, 2]),
                pure=d.choice([[1, 0], [0, 1], [1, 1]]), nt=d.choice([0, 1]),
                seed=d.seed())


def fn_cut(c, ctx):
    """A purified patch equals the full-sky map padded with zeros."""
    rng = rng_of(c["seed"])
    i0, ni, j0, nj = c["patch"]
    wf, th, _ = car_wcs(c["ny"], c["nx"], c["ft"], c["fp"])
    wp, _, _ = car_wcs(c["ny"], c["nx"], c["ft"], c["fp"], patch=c["patch"])
    m = rng.random((ni, nj))
    mp = rng.standard_normal((2, ni, nj))
    t = rng.standard_normal((c["nt"], 2, ni, nj)) if c["nt"] else None
    ctx.nontrivial(ni * nj < th.size)

    def pad(x):
        o = np.zeros(x.shape[:-2] + th.shape)
        o[..., i0:i0 + ni, j0:j0 + nj] = x
        return o
    kw = dict(spin=2, lmax=c["lmax"], lmax_mask=max(2, c["lmax"] + c["dl"]),
              n_iter=c["n_iter"], n_iter_mask=c["n_iter_mask"],
              purify_e=bool(c["pure"][0]), purify_b=bool(c["pure"][1]))
    a = nmt.NmtField(m, mp, wcs=wp, templates=t, **kw).get_alms()
    b = nmt.NmtField(pad(m), pad(mp), wcs=wf, templates=None if t is None
                     else pad(t), **kw).get_alms()
    ctx.close(a, b, 1e-10, scale=np.max(np.abs(b)), msg="padded patch")


# ---------------------------------------------------------------- HEALPix
def gen_hp(d):
    return dict(nside=d.choice([16, 16, 32]), k=d.int(2, 5), lmax=d.int(4, 12),
                lsky=d.int(4, 12), dl=d.choice([0, 4]), comp=d.int(0, 1),
                n_iter=d.choice([3, 5]), seed=d.seed())


def fn_hp(c, ctx):
    rng = rng_of(c["seed"])
    ns = c["nside"]
    x = np.array(hp.pix2vec(ns, np.arange(hp.nside2npix(ns))))
    v = rng.standard_normal(3)
    v /= np.sqrt(v @ v)
    m = (0.5 * (1 + v @ x))**c["k"]       # vanishes smoothly, degree k
    n = sht.nalm(c["lsky"])
    a = np.zeros((2, n), dtype=complex)
    ls, ms = sht.lm_index(c["lsky"])
    a[c["comp"]] = rng.standard_normal(n) + 1j * rng.standard_normal(n) * (
        ms > 0)
    a[:, ls < 2] = 0
    mp = np.array(hp.alm2map_spin(a, ns, 2, c["lsky"]))
    kw = dict(lmax=c["lmax"], lmax_mask=c["lmax"] + c["dl"] + c["k"],
              n_iter=c["n_iter"], n_iter_mask=c["n_iter"])
    p = {("purify_b" if c["comp"] == 0 else "purify_e"): True}
    o = 1 - c["comp"]
    a0 = nmt.NmtField(m, mp, spin=2, **kw).get_alms()[o]
    a1 = nmt.NmtField(m, mp, spin=2, **kw, **p).get_alms()[o]
    p0, p1 = np.sum(np.abs(a0)**2), np.sum(np.abs(a1)**2)
    ctx.nontrivial(p0 > 0)
    ctx.check(p1 <= 1e-2 * p0, "purification does not remove leakage on "
              "HEALPix", pure=p1, ordinary=p0)


SUBS = [
    Sub("exact", gen, fn, 4500, 25000, weight=25.),
    Sub("cut_sky", gen_cut, fn_cut, 4500, 20000, weight=8.),
    Sub("healpix", gen_hp, fn_hp, 450, 1500, weight=60.),
]
