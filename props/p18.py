"""P18: deprojection bias of uncorrelated inhomogeneous noise."""
import numpy as np
import pymaster as nmt
from lib.gen import rng_of
from lib.pbt import Sub
from props.p08 import Grid, gen_grid

RULE = "Non-trivial: at least one template and a variance map that is not " \
    "constant."
ASSUMPTIONS = ["noise is independent between pixels and components, with "
               "the given variance per steradian divided by the area of "
               "each pixel (its quadrature weight)",
               "the ensemble mean is the exact sum over unit maps, one per "
               "pixel and component", "independent templates are well "
               "conditioned"]


def gen(d, big=False):
    s = d.choice([0, 0, 1, 2, 2, 2, 3])
    g = gen_grid(d)
    if g["pix"] == "hp":
        g["nside"] = d.choice([4, 8, 16]) if big else d.choice([2, 2, 4])
    elif not big:
        g.update(ny=d.int(5, 8), patch=None)
        g["nx"] = 2 * (g["ny"] - 1) + d.int(0, 3)
        if d.bool():
            i0, j0 = d.int(0, g["ny"] - 3), d.int(0, g["nx"] - 3)
            g["patch"] = [i0, d.int(2, g["ny"] - i0), j0,
                          d.int(2, g["nx"] - j0)]
    return dict(grid=g, s=s, nt=d.rare(d.choice([0, 1, 1, 2, 3]), 4, 5, 7, n=10), red=d.bool(),
                pure=[bool(s == 2 and d.choice([0, 0, 1])) for _ in
                      range(2)],
                kind=d.choice(["random", "binary", "signed", "ones",
                               "random"]),
                moi=d.choice([0, 0, 0, 1]), flat=d.choice([0, 0, 1]),
                lmax=max(s, d.int(2, 5)), dl=d.int(0, 2),
                n_iter=d.rare(d.choice([0, 0, 1, 3]), 2, 6, n=10), seed=d.seed(),
                dt=d.choice(["f8", "f8", "f4", "i4"]))


def setup(c, ctx):
    rng = rng_of(c["seed"])
    g = Grid(c["grid"])
    n = 2 if c["s"] else 1
    m = g.mask(c["kind"], rng)
    t = rng.standard_normal((c["nt"], n) + g.shape)
    if c["nt"] and c["red"]:
        t = np.concatenate([t, np.tensordot(rng.standard_normal(c["nt"]), t,
                                            1)[None], 0 * t[:1]])
    kw = dict(spin=c["s"], wcs=g.wcs, lmax=c["lmax"],
              lmax_mask=max(2, c["lmax"] + c["dl"]), n_iter=c["n_iter"],
              n_iter_mask=0, purify_e=c["pure"][0], purify_b=c["pure"][1],
              beam=None)
    moi = c["moi"] and not any(c["pure"])
    if len(t):
        A = (t * m * np.sqrt(g.w)).reshape(len(t), -1)
        sv = np.linalg.svd(A @ A.T, compute_uv=False)
        sv /= sv[0] + 1e-300
        if np.any((sv > 3e-15) & (sv < 1e-6)) or np.sum(sv > 1e-6) < c["nt"]:
            ctx.label("ill-posed templates (skipped)")
            return None
    ctx.label("spin %d" % c["s"], c["grid"]["pix"])
    if any(c["pure"]):
        ctx.label("purified")

    def field(mp, temp=True):
        tt = t if temp and len(t) else None
        if moi:
            return nmt.NmtField(m, mp * m, templates=None if tt is None else
                                tt * m, masked_on_input=True, **kw)
        return nmt.NmtField(m, mp, templates=tt, **kw)
    sig = rng.random(g.shape) * rng.choice([0.2, 1, 5], g.shape)
    if c["dt"] == "i4":
        sig = np.rint(10 * sig)
    return rng, g, field, sig.astype(c["dt"])


def fn(c, ctx):
    x = setup(c, ctx)
    if x is None:
        return
    rng, g, field, sig = x
    ctx.nontrivial(c["nt"] > 0)
    n = 2 if c["s"] else 1
    D, N0 = 0., 0.
    var = sig.astype(float) / g.w
    for k in range(n):
        for p in np.ndindex(g.shape):
            e = np.zeros((n,) + g.shape)
            e[(k,) + p] = 1.
            f, f0 = field(e), field(e, False)
            a = nmt.compute_coupled_cell(f0, f0) * var[p]
            D = D + var[p] * nmt.compute_coupled_cell(f, f) - a
            N0 = N0 + a
    got = nmt.uncorr_noise_deprojection_bias(
        f, sig.ravel() if c["flat"] else sig, n_iter=c["n_iter"])
    ctx.close(got, D, 1e-9, scale=np.max(np.abs(N0)) + np.max(np.abs(D))
              + 1e-300, msg="noise bias against the exact ensemble mean")


def fn_rel(c, ctx):
    x = setup(c, ctx)
    if x is None:
        return
    rng, g, field, sig = x
    ctx.nontrivial(c["nt"] > 0)
    n = 2 if c["s"] else 1
    L = c["lmax"] + 1
    f = field(rng.standard_normal((n,) + g.shape))
    ni = c["n_iter"]

    def bias(fl, v):
        return nmt.uncorr_noise_deprojection_bias(fl, v, n_iter=ni)
    s2 = rng.random(g.shape)
    a, b = bias(f, sig), bias(f, s2)
    q, r = rng.uniform(0, 3, 2)
    sc = 5 * (np.max(np.abs(a)) + np.max(np.abs(b))) + 1e-300
    ctx.close(bias(f, q * sig.astype(float) + r * s2), q * a + r * b, 1e-11,
              scale=sc, msg="linearity")
    ctx.close(bias(f, sig.ravel()), a, 1e-13, scale=sc, msg="flattened map")
    ctx.close(bias(field(rng.standard_normal((n,) + g.shape)), sig), a,
              1e-12, scale=sc, msg="other maps")
    x = a.reshape(n, n, L)
    ctx.close(x, x.transpose(1, 0, 2), 1e-11, scale=sc, msg="symmetry")
    z = bias(field(rng.standard_normal((n,) + g.shape), False), sig)
    ctx.check(z.shape == (n * n, L) and np.all(z == 0),
              "bias without templates")
    for bad in (np.zeros(g.w.size + 1), np.zeros(g.w.size - 1)):
        ctx.raises(lambda: bias(f, bad), ValueError, "wrong resolution")


SUBS = [
    Sub("ensemble", lambda d: gen(d), fn, 600, 5000, weight=100.),
    Sub("relations", lambda d: gen(d, True), fn_rel, 800, 6000, weight=20.),
]
