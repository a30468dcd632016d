"""P08: contents of curved-sky fields."""
import healpy as hp
import numpy as np
import pymaster as nmt
from lib import sht
from lib.gen import MASK_KINDS, car_wcs, hp_mask, rng_of
from lib.pbt import Sub

RULE = ("Non-trivial: at least one template, and a mask that is not "
        "constant.")
ASSUMPTIONS = ["the least-squares inner product is the integral over the "
               "sphere with the quadrature weights of the pixelisation "
               "(equal areas, Clenshaw-Curtis on rectangular grids)",
               "redundant templates are exact combinations of the others; "
               "independent ones have singular values within 1e3 of each "
               "other", "explicit tolerances are a factor of two away from "
               "every eigenvalue"]
FLUX = ["f8", "f8", "f4", ">f8", "i4"]


def cc_weights(n):
    """Clenshaw-Curtis weights of n points theta_j = pi j/(n-1)."""
    N = n - 1
    j = np.arange(n)
    th = np.pi * j / N
    w = np.zeros(n)
    for k in range(0, N // 2 + 1):
        b = 1. if (k == 0 or 2 * k == N) else 2.
        w += b / (1. - 4. * k * k) * np.cos(2 * k * th)
    c = np.where((j == 0) | (j == N), 1., 2.)
    return w * c / N


def gen_grid(d):
    if d.choice([0, 0, 1]) == 0:
        return dict(pix="hp", nside=d.choice([2, 2, 4, 4, 8]))
    ny = d.int(6, 14)
    nx = 2 * (ny - 1) + d.int(0, 6)
    patch = None
    if d.choice([0, 1]):
        i0 = d.int(0, ny - 3)
        ni = d.int(2, ny - i0)
        j0 = d.int(0, nx - 3)
        nj = d.int(2, nx - j0)
        patch = [i0, ni, j0, nj]
    return dict(pix="car", ny=ny, nx=nx, ft=int(d.bool()), fp=int(d.bool()),
                ra0=d.choice([0., 0., 60., 200.]), patch=patch)


class Grid:
    def __init__(self, g):
        self.g = g
        self.car = g["pix"] == "car"
        if not self.car:
            self.wcs = None
            self.shape = (hp.nside2npix(g["nside"]),)
            self.w = np.full(self.shape, 4 * np.pi / self.shape[0])
            self.th, self.ph = hp.pix2ang(g["nside"], np.arange(
                self.shape[0]))
            return
        p = g["patch"]
        self.wcs, th, ph = car_wcs(g["ny"], g["nx"], g["ft"], g["fp"],
                                   g["ra0"], p)
        self.shape = th.shape
        wt = cc_weights(g["ny"])
        i = np.rint(th[:, 0] / np.pi * (g["ny"] - 1)).astype(int)
        self.w = (wt[i][:, None] * np.ones(self.shape) * 2 * np.pi / g["nx"])
        self.th, self.ph = th, ph

    def std(self, x):
        """To the library's pixel order: rows and columns by growing
        angles, flattened."""
        x = np.asarray(x)
        if not self.car:
            return x
        if self.g["ft"]:
            x = x[..., ::-1, :]
        if self.g["fp"]:
            x = x[..., ::-1]
        return x.reshape(x.shape[:-2] + (-1,))

    def mask(self, kind, rng):
        if not self.car:
            return hp_mask(self.g["nside"], kind, rng)
        m = rng.random(self.shape)
        if kind == "binary":
            m = (m < 0.7).astype(float)
            m.flat[int(rng.integers(m.size))] = 1.
        elif kind == "signed":
            m = 2 * m - 1
        elif kind == "ones":
            m = np.ones(self.shape)
        elif kind == "tiny":
            m *= 1e-6
        return m

    def ref_alm(self, maps, spin, lmax, n_iter):
        """Transform of maps in the library's order, with iterations."""
        th, ph, w = self.std(self.th), self.std(self.ph), self.std(self.w)
        if self.car and self.g["patch"] and n_iter:
            # zero outside the patch, over the whole sphere
            q = Grid(dict(self.g, patch=None))
            th, ph, w = [q.std(x) for x in (q.th, q.ph, q.w)]
            i0, ni, j0, nj = self.g["patch"]
            full = np.zeros((len(maps),) + q.shape)
            x = maps.reshape((-1,) + self.shape)
            if self.g["ft"]:
                x = x[:, ::-1]
            if self.g["fp"]:
                x = x[..., ::-1]
            full[:, i0:i0 + ni, j0:j0 + nj] = x
            maps = q.std(full)
        s = sht.SHT(lmax, th, ph)
        a = s.anal(maps, spin, w)
        for _ in range(n_iter):
            a = a + s.anal(maps - s.synth(a, spin), spin, w)
        return a


def gen(d):
    s = d.choice([0, 0, 1, 2, 2, 3])
    pure = s == 2 and d.choice([0, 0, 1]) == 1
    nt = d.int(0, 4)
    return dict(grid=gen_grid(d), s=s, nt=nt, red=d.choice([0, 0, 1, 2]),
                kind=d.choice(MASK_KINDS), pure=[pure and d.bool(), pure],
                lmax=max(d.int(2, 6), s), dl=d.int(0, 3),
                n_iter=d.choice([0, 0, 1, 3]), smooth=d.bool(),
                nim=d.choice([0, 0, 0, 1, 3]), spindef=d.bool(), dt=d.choice(FLUX), beam=d.bool(),
                aslist=d.bool(), seed=d.seed(),
                van=d.choice([0] * 7 + [1]))


def gen_large(d):
    c = gen(d)
    g = gen_grid(d)
    if g["pix"] == "hp":
        g["nside"] = d.choice([16, 16, 32])
    else:
        ny, nx = d.int(30, 50), 2 * d.int(50, 60)
        if g["patch"]:
            g["patch"] = [d.int(0, 10), d.int(8, 20), d.int(0, 40),
                          d.int(10, 60)]
        g.update(ny=ny, nx=nx)
    c.update(grid=g, lmax=d.int(8, 20), dl=d.choice([0, 3, 12]),
             nt=d.choice([0, 1, 3, 12]), n_iter=d.choice([0, 0, 1]))
    return c


def build(c):
    rng = rng_of(c["seed"])
    g = Grid(c["grid"])
    m = g.mask(c["kind"], rng)
    n = 2 if c["s"] else 1
    mp = rng.standard_normal((n,) + g.shape)
    t = rng.standard_normal((c["nt"], n) + g.shape) * (
        10.**rng.uniform(-1.5, 1.5, c["nt"]))[(slice(None),) + (None,) * (
            1 + len(g.shape))]
    if c["smooth"] and c["nt"]:
        t[0] = np.ones((n,) + g.shape) * (0.3 + np.cos(g.th))
    if c.get("van"):     # no template within the mask
        t = t * (m == 0)
    if c["dt"] == "i4":
        mp = np.rint(10 * mp)
    mp = mp.astype(c["dt"])
    kw = dict(wcs=g.wcs, lmax=c["lmax"], lmax_mask=max(2, c["lmax"] + c["dl"]
                                                       ),
              n_iter=c["n_iter"], n_iter_mask=c.get("nim", 0),
              purify_e=c["pure"][0], purify_b=c["pure"][1])
    if not (c["spindef"] and c["s"] in (0, 2)):
        kw["spin"] = c["s"]
    if c["beam"]:
        kw["beam"] = rng.random(c["lmax"] + 1 + c["seed"] % 3)
    return rng, g, m, mp, t, kw


def aug(c, t, rng):
    """Templates with redundant combinations added."""
    if not len(t):
        return t
    x = [t]
    if c["red"] >= 1:
        q = rng.standard_normal(len(t))
        q /= np.sqrt(q @ q)
        x.append(np.tensordot(q, t, 1)[None])
    if c["red"] >= 2:
        x.append(t[:1] * 0)
        x.append(-2.5 * t[-1:])
    return np.concatenate(x)


def field(m, mp, t, kw, c=None):
    tt = None if t is None or not len(t) else t
    if c and c["aslist"] and tt is not None:
        tt = [[y for y in x] for x in tt]
        mp = [x for x in mp]
    return nmt.NmtField(m, mp, templates=tt, **kw)


def residual(mm, tt, w):
    """Least-squares residual, templates normalised first."""
    if not len(tt):
        return mm
    sw = np.sqrt(w)
    A = (tt * sw).reshape(len(tt), -1)
    nn = np.sqrt(np.sum(A**2, axis=1))
    A = A[nn > 0] / nn[nn > 0][:, None]
    if not len(A):
        return mm
    y = (mm * sw).ravel()
    x = np.linalg.lstsq(A.T, y, rcond=1e-9)[0]
    tn = tt[nn > 0] / nn[nn > 0].reshape((-1,) + (1,) * (tt.ndim - 1))
    return mm - np.tensordot(x, tn, 1)


def well_posed(c, tt, w):
    """Independent templates must be far from the pseudo-inverse cut."""
    if not len(tt):
        return True
    A = (tt * np.sqrt(w)).reshape(len(tt), -1)
    sv = np.linalg.svd(A @ A.T, compute_uv=False)
    if sv[0] == 0:
        return True
    sv = sv / sv[0]
    return not np.any((sv > 3e-15) & (sv < 1e-6))


def start(c, ctx):
    rng, g, m, mp, t, kw = build(c)
    ctx.label("spin %d" % c["s"], c["grid"]["pix"])
    if any(c["pure"]):
        ctx.label("purified")
    if len(t):
        ctx.label("vanishing templates" if c.get("van") else "templates")
    mf = mp.astype(float) * m
    tm = t * m
    w = g.w
    if not well_posed(c, aug(c, tm, rng_of(c["seed"], 1)), w):
        ctx.label("ill-posed templates (skipped)")
        return None
    if any(c["pure"]) and len(t) and np.linalg.matrix_rank(
            (tm * np.sqrt(w)).reshape(len(t), -1), tol=1e-6) < len(t):
        # masked templates that are degenerate although the full ones are
        # not: the unmasked residual is not determined
        ctx.label("degenerate masked templates (skipped)")
        return None
    ctx.nontrivial(len(t) > 0 and np.ptp(m) > 0)
    return rng, g, m, mp, t, kw, mf, tm


def purified(g, ma, mu, m, c, lmm):
    """Purified coefficients: harmonic sums of the map times the mask and
    its first and second spin derivatives."""
    L = c["lmax"]
    S = sht.SHT(lmm, g.std(g.th), g.std(g.ph))
    q = sht.lm_index(lmm)[0].astype(float)
    w1 = S.synth(np.array([-np.sqrt(q * (q + 1)) * ma, 0 * ma]), 1)
    w2 = S.synth(np.array([np.sqrt(np.maximum(
        (q + 2) * (q + 1) * q * (q - 1), 0)) * ma, 0 * ma]), 2)

    def times(w):
        z = (w[0] - 1j * w[1]) * (mu[0] + 1j * mu[1])
        return np.array([z.real, z.imag])
    a0 = g.ref_alm(mu * m, 2, L, c["n_iter"])
    a1 = g.ref_alm(times(w1), 1, L, c["n_iter"])
    t2 = times(w2)
    a2 = np.array([g.ref_alm(t2[i:i + 1], 0, L, c["n_iter"])[0]
                   for i in (0, 1)])
    q = sht.lm_index(L)[0].astype(float)
    z = np.where(q > 1, (q + 2) * (q - 1), 1.)
    y = np.where(q > 1, (q + 1) * q, 1.)
    out = a0.copy()
    for i in (0, 1):
        if c["pure"][i]:
            out[i] = np.where(q > 1, a0[i] + 2 / np.sqrt(z) * a1[i]
                              + a2[i] / np.sqrt(z * y), a0[i])
    amp = max(np.max(np.abs(x)) for x in (mu * m, times(w1), t2))
    return out, 10 * amp + 1e-300


def fn_maps(c, ctx):
    x = start(c, ctx)
    if x is None:
        return
    rng, g, m, mp, t, kw, mf, tm = x
    f = field(m, mp, aug(c, t, rng_of(c["seed"], 1)), kw, c)
    n = len(mf)
    sc = np.max(np.abs(mf)) + 1e-300
    res = residual(mf, tm, g.w)
    ctx.close(f.get_mask(), g.std(m), 1e-14, msg="mask")
    pure = any(c["pure"])
    if not pure:
        ctx.close(f.get_maps(), g.std(res), 1e-8, scale=sc,
                  msg="masked, deprojected maps")
        # orthogonality
        w = g.std(g.w)
        for k in range(len(t)):
            tk = g.std(tm[k])
            nrm = np.sqrt(np.sum(w * tk**2) * np.sum(w * g.std(mf)**2))
            ctx.check(abs(np.sum(w * tk * f.get_maps())) <= 1e-7 * nrm
                      + 1e-300, "residual is not orthogonal to a template",
                      template=k)
        ctx.close(f.get_alms(), g.ref_alm(g.std(res), c["s"], c["lmax"],
                                          c["n_iter"]),
                  1e-8, scale=sc * 10, msg="coefficients")
    if len(t):
        tg = f.get_templates()
        ctx.close(tg[:len(t)], g.std(tm), 1e-14, scale=np.max(np.abs(tm)),
                  msg="templates")
    ctx.check(f.get_maps().shape == (n, m.size), "shape of the maps")
    # mask coefficients
    ma = g.ref_alm(g.std(m)[None], 0, kw["lmax_mask"], kw["n_iter_mask"])[0]
    ctx.close(f.get_mask_alms(), ma, 1e-10,
              scale=np.max(np.abs(m)) * 10 + 1e-300, msg="mask coefficients")
    ctx.equal(f.beam[:c["lmax"] + 1], kw["beam"][:c["lmax"] + 1]
              if c["beam"] else np.ones(c["lmax"] + 1), "beam")
    if pure:
        mu = g.std(mp.astype(float))
        if len(t):
            # combination that cleans the masked map
            a = np.linalg.lstsq((tm * np.sqrt(g.w)).reshape(len(t), -1).T,
                                (mf * np.sqrt(g.w)).ravel(), rcond=1e-9)[0]
            mu = mu - np.tensordot(a, g.std(t), 1)
        want, amp = purified(g, ma, mu, g.std(m), c, kw["lmax_mask"])
        got = f.get_alms()
        ctx.close(got, want, 1e-8, scale=amp, msg="purified coefficients")
        S = sht.SHT(c["lmax"], g.std(g.th), g.std(g.ph))
        ctx.close(f.get_maps(), S.synth(got, 2), 1e-9, scale=amp * c["lmax"]
                  + 1e-300, msg="purified maps")


def fn_inv(c, ctx):
    """Metamorphic relations, purified fields included."""
    x = start(c, ctx)
    if x is None:
        return
    rng, g, m, mp, t, kw, mf, tm = x
    f = field(m, mp, t, kw)
    a0, m0 = f.get_alms(), f.get_maps()
    sc = np.max(np.abs(a0)) + 1e-9 * np.max(np.abs(mf)) + 1e-300
    scm = np.max(np.abs(mf)) + np.max(np.abs(m0)) + 1e-300
    k = 10. if any(c["pure"]) else 1.
    tol = 1e-8 * k

    def same(h, what, lite=False, tol=tol):
        ctx.close(h.get_alms(), a0, tol, scale=max(sc, scm), msg=what
                  + ": coefficients")
        if not lite:
            ctx.close(h.get_maps(), m0, tol, scale=scm, msg=what + ": maps")
    same(field(m, mp, t, dict(kw, lite=True)), "lite", True, 1e-13)
    ctx.raises(lambda: field(m, mp, t, dict(kw, lite=True)).get_maps(),
               ValueError, "maps of a lite field")
    # already-masked maps (and templates)
    masked = dict(kw, masked_on_input=True)
    if not (any(c["pure"]) and np.any(m == 0)):
        same(field(m, mf, tm, masked), "masked on input")
    else:
        # what lies beneath pixels without weight is lost
        q = (m != 0).astype(float)
        u = field(m, mp.astype(float) * q, t * q, kw)
        h = field(m, mf, tm, masked)
        big = max(np.max(np.abs(u.get_alms())), np.max(np.abs(
            u.get_maps())), scm)
        ctx.close(h.get_alms(), u.get_alms(), tol, scale=big,
                  msg="masked on input, with empty pixels: coefficients")
        ctx.close(h.get_maps(), u.get_maps(), tol, scale=big,
                  msg="masked on input, with empty pixels: maps")
        ctx.label("purified, masked on input, empty pixels")
    if len(t):
        q = rng.standard_normal(len(t))
        add = np.tensordot(q, t, 1)
        # (keeps the sum representable)
        big = np.max(np.abs(add * m))
        h = field(m, mp.astype(float) + add, t, kw)
        ctx.close(h.get_alms(), a0, tol, scale=max(sc, scm) + 10 * big,
                  msg="template combination added: coefficients")
        ctx.close(h.get_maps(), m0, tol, scale=scm + 10 * big,
                  msg="template combination added: maps")
        p = rng.permutation(len(t))
        same(field(m, mp, t[p], kw), "templates reordered")
        r = 10.**rng.uniform(-1, 1, len(t)) * rng.choice([-1, 1], len(t))
        ts = t * r.reshape((-1,) + (1,) * (t.ndim - 1))
        if well_posed(c, ts * m, g.w):
            same(field(m, mp, ts, kw), "templates rescaled")
        same(field(m, mp, aug(c, t, rng_of(c["seed"], 1)), kw),
             "redundant templates")
        # a sky made of templates leaves nothing
        z = field(m, add, t, kw)
        ctx.close(z.get_alms(), a0 * 0, tol, scale=big * 100 + 1e-300,
                  msg="template-only sky")
    # linear in the map (for fixed templates)
    mp2 = rng.standard_normal(mp.shape)
    h = field(m, mp2, t, kw)
    s = field(m, 2 * mp.astype(float) - 0.5 * mp2, t, kw)
    ctx.close(s.get_alms(), 2 * a0 - 0.5 * h.get_alms(), tol,
              scale=10 * max(sc, scm), msg="linearity")
    # values of the map outside the mask do not matter
    if np.any(m == 0) and not any(c["pure"]):
        mo = mp.astype(float).copy()
        mo[:, m == 0] = 1e3
        same(field(m, mo, t, kw), "map outside the mask")


def gen_tol(d):
    c = gen(d)
    c.update(nt=d.int(1, 5), pure=[False, False], red=0, smooth=False, van=0,
             near=[d.choice([0, 0, 1, 1, 2, 3]) for _ in range(5)],
             tol=d.choice(["mid", "mid", "mid", "default", "low", "high"]),
             glob=d.choice([0, 0, 1]))
    return c


def fn_tol(c, ctx):
    """Explicit tolerances: directions of the templates' covariance below
    the tolerance times the largest are left in the map."""
    rng, g, m, mp, t, kw = build(c)
    ctx.label("spin %d" % c["s"], "tolerance " + c["tol"])
    for k in range(1, len(t)):
        if c["near"][k]:
            t[k] = t[k - 1] + 10.**-c["near"][k] * np.std(
                t[k - 1]) * rng.standard_normal(t[k].shape)
    tm, mf = t * m, mp.astype(float) * m
    A = (tm * np.sqrt(g.w)).reshape(len(t), -1)
    ev, u = np.linalg.eigh(A @ A.T)
    if not ev[-1] > 0 or np.any(ev / ev[-1] < 1e-9):
        ctx.label("ill-posed templates (skipped)")
        return
    x = ev / ev[-1]
    gaps = [i for i in range(1, len(x)) if x[i] > 10 * x[i - 1]]
    if c["tol"] == "mid" and gaps:
        i = gaps[int(rng.integers(len(gaps)))]
        tol = float(np.exp(rng.uniform(np.log(2 * x[i - 1]),
                                       np.log(x[i] / 2))))
    elif c["tol"] == "high":
        tol, i = 0.999999, int(np.sum(x < 0.99))
        if np.any((x >= 0.99) & (x < 1)):
            return
    elif c["tol"] == "low":
        tol, i = float(x[0] / 5), 0
    else:
        tol, i = None, 0
    good = np.arange(len(x)) >= i
    ctx.nontrivial(i > 0 and np.ptp(m) > 0)
    b = A @ (mf * np.sqrt(g.w)).ravel()
    al = u[:, good] @ ((u[:, good].T @ b) / ev[good])
    want = mf - np.tensordot(al, tm, 1)
    sc = np.max(np.abs(mf)) + np.max(np.abs(al)) * np.max(np.abs(tm)) + 1e-300
    eps = 1e-12 / x[good][0] + 1e-10
    if tol is not None:
        kw["tol_pinv"] = tol
    if c["glob"] and tol is not None:
        old = nmt.get_default_params()["tol_pinv_default"]
        nmt.set_tol_pinv_default(kw.pop("tol_pinv"))
        try:
            f = field(m, mp, t, kw, c)
        finally:
            nmt.set_tol_pinv_default(old)
    else:
        f = field(m, mp, t, kw, c)
    ctx.close(f.get_maps(), g.std(want), eps, scale=sc, msg="maps cleaned "
              "with a tolerance")
    ctx.close(f.get_alms(), g.ref_alm(g.std(want), c["s"], c["lmax"],
                                      c["n_iter"]), eps, scale=sc * 10,
              msg="coefficients of maps cleaned with a tolerance")


SUBS = [
    Sub("tolerance", gen_tol, fn_tol, 1500, 10000, weight=4.,
        rule="at least one direction of the templates is below the "
        "tolerance"),
    Sub("contents", gen, fn_maps, 6000, 30000, weight=8.),
    Sub("invariances", gen, fn_inv, 3600, 18000, weight=12.),
    Sub("large", gen_large, fn_maps, 60, 1500, weight=200.),
    Sub("large-invariances", gen_large, fn_inv, 60, 1500, weight=300.),
]
