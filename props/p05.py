"""P05: decoupling, coupling and bandpower windows."""
import numpy as np
import pymaster as nmt
from lib import wsgen
from lib.gen import rand_bins, rng_of
from lib.pbt import Sub
from props.p08 import Grid, gen_grid

RULE = ("Non-trivial: at least two bands and a binned coupling matrix with "
        "condition number below 1e8.")
ASSUMPTIONS = ["binned coupling matrices with condition number above 1e8 "
               "are skipped (their inversion is ill-posed)"]


def gen(d):
    c = wsgen.gen_fields(d)
    c.update(norm=d.choice(["MASTER", "MASTER", "FKP"]),
             replace=d.choice([0, 0, 1]), lmin=d.choice([0, 2, 2, 3]),
             long=d.choice([0, 0, 3]), stride=d.bool(),
             longs=[d.choice([0, 0, 2, 5]), d.choice([0, 0, 1, 5])],
             toep=d.choice([0, 0, 0, 1]))
    return c


def gen_large(d):
    """Realistic sizes: many multipoles, many or wide bands."""
    c = gen(d)
    lmax = d.int(48, 130)
    c.update(lmax=lmax, nside=d.choice([16, 32]), nb=d.choice([3, 12, 40]),
             lmax_mask=d.choice([lmax, lmax + d.int(1, 40),
                                 lmax - d.int(1, 30)]),
             k1=d.choice(["cap", "smooth", "ones", "binary"]),
             k2=d.choice(["cap", "smooth", "ones", "binary"]))
    return c


def setup(c, ctx):
    wsgen.labels(c, ctx)
    ctx.label(c["norm"])
    rng = rng_of(c["seed"])
    f1, f2 = wsgen.pair(c, rng)
    lmax = c["lmax"]
    lmin = max(c["lmin"], 0 if max(c["s1"], c["s2"]) == 0 else
               max(2, c["s1"], c["s2"]))
    b, W, F = rand_bins(lmax, rng, lmin=min(lmin, lmax),
                        nbmax=c.get("nb", 5))
    kw = {}
    if c["toep"] and not any(c["pure"]) and not c["aniso"] and lmax > 6:
        kw = dict(l_toeplitz=4, l_exact=2, dl_band=2)
        ctx.label("toeplitz")
    # the joint matrix and anisotropic weights are separate computations
    w = nmt.NmtWorkspace.from_fields(f1, f2, b, is_teb=c["teb"],
                                     normalization=c["norm"], **kw)
    n = wsgen.ncls(c)
    M = w.get_coupling_matrix()
    if c["replace"]:
        ctx.label("replaced matrix")
        M = rng.standard_normal(M.shape) + 3 * np.eye(len(M))
        w.update_coupling_matrix(M)
        ctx.equal(w.get_coupling_matrix(), M, "replaced matrix")
    w2 = np.mean(f1.get_mask() * f2.get_mask())
    beam = f1.beam[:lmax + 1] * f2.beam[:lmax + 1]
    m = wsgen.Model(M, n, lmax, beam, W, F, c["norm"], w2)
    return rng, w, m


def fn(c, ctx):
    rng, w, m = setup(c, ctx)
    n, L, nb = m.n, m.L, len(m.W)
    scM = np.max(np.abs(m.M)) * np.max(np.abs(m.beam)) * L
    cl = rng.standard_normal((n, L + c["long"]))
    if c["stride"]:
        cl = np.repeat(cl, 2, axis=1)[:, ::2]
    c0 = cl.copy()
    pcl = w.couple_cell(cl)
    ctx.equal(cl, c0, "input modified")
    ctx.close(pcl, m.couple(cl), 1e-12, scale=scM, msg="coupled spectra")
    k = m.cond()
    if not k < 1e8:
        ctx.label("ill-conditioned")
        return
    ctx.nontrivial(nb > 1)
    tol = 1e-13 * k * 10 + 1e-11
    # decoupling is the solution of the binned system
    x = rng.standard_normal((n, L + c["long"]))
    want = m.decouple(x)
    sc = np.max(np.abs(want))
    x0 = x.copy()
    got = w.decouple_cell(x)
    ctx.close(got, want, tol, scale=sc, msg="decoupled bandpowers")
    # biases are subtracted
    # (whatever the multipoles each of them extends to)
    y, z = [rng.standard_normal((n, L + k)) for k in c.get("longs", (1, 0))]
    X, Y, Z = x[:, :L], y[:, :L], z[:, :L]
    ctx.close(w.decouple_cell(x, cl_bias=y, cl_noise=z),
              m.decouple(X - Y - Z), tol, scale=sc * 3, msg="biases")
    ctx.close(w.decouple_cell(x, cl_noise=z), m.decouple(X - Z), tol,
              scale=sc * 3, msg="noise bias")
    ctx.close(w.decouple_cell(x, cl_bias=y), m.decouple(X - Y), tol,
              scale=sc * 3, msg="deprojection bias")
    ctx.equal(x, x0, "input modified")
    ctx.label("lengths " + ("differ" if len({c["long"], *c.get("longs", (1, 0))}) > 1
                            else "agree"))
    # linearity
    a = rng.standard_normal()
    ctx.close(w.decouple_cell(X + a * Y), got + a * w.decouple_cell(y), tol,
              scale=sc * (1 + abs(a)) * 3, msg="linearity")
    # round trip
    bp = rng.standard_normal((n, nb))
    st = bp @ m.F
    if m.norm == "MASTER":
        ctx.close(w.decouple_cell(w.couple_cell(st)), bp, tol,
                  scale=np.max(np.abs(bp)), msg="round trip")
    win = w.get_bandpower_windows()
    ww = m.windows()
    ctx.close(win, ww, tol, msg="bandpower windows")
    cl = cl[:, :L]
    ctx.close(np.einsum("ibjl,jl->ib", win, cl),
              w.decouple_cell(w.couple_cell(cl)), tol,
              scale=np.max(np.abs(ww)) * L * n,
              msg="windows applied to a spectrum")


def gen_fkp(d):
    ks = ["random", "binary", "signed", "ones", "tiny"]
    return dict(grid=gen_grid(d), s=[d.choice([0, 0, 1, 2, 2, 3]) for _ in
                                     range(2)], lmax=d.int(3, 9),
                k=[d.choice(ks), d.choice(ks)], same=d.choice([0, 0, 1]),
                cat=d.choice([0, 0, 0, 1]), n=d.int(1, 40),
                maps=d.bool(), aniso=d.choice([0, 0, 0, 1]), seed=d.seed())


def fn_fkp(c, x):
    """FKP on any grid: the mean over the sphere of the product of the
    masks; for a catalogue with itself, its shot-noise level."""
    rng = rng_of(c["seed"])
    L = c["lmax"]
    s = c["s"] if not c["same"] or c["cat"] else c["s"][:1] * 2
    if c["cat"]:
        n = c["n"]
        pos = np.array([np.arccos(rng.uniform(-1, 1, n)),
                        rng.uniform(0, 2 * np.pi, n)])
        wt = rng.uniform(0.2, 2, n)
        f1 = f2 = nmt.NmtFieldCatalog(
            pos, wt, rng.standard_normal((2 if s[0] else 1, n)), L,
            lmax_mask=L + c["same"], spin=s[0])
        w2 = np.sum(wt**2) / (4 * np.pi)
        big = w2
        s = s[:1] * 2
        x.label("catalogue")
    else:
        g = Grid(c["grid"])
        m = [g.mask(k, rng) for k in c["k"]]
        if c["same"]:
            m[1] = m[0]
        q = g.w * m[0] * m[1]
        w2, big = np.sum(q) / (4 * np.pi), np.sum(np.abs(q)) / (4 * np.pi)
        kw = dict(wcs=g.wcs, lmax=L, lmax_mask=max(L, 6), n_iter=0,
                  n_iter_mask=0)
        F = []
        for i in range(2):
            mp = rng.standard_normal((2 if s[i] else 1,) + g.shape) if \
                c["maps"] else None
            an = {}
            if c["aniso"] and s[i] and np.all(m[i] > 0):
                an = dict(mask_22=m[i], mask_12=0.3 * m[i])
                x.label("anisotropic")
            F.append(nmt.NmtField(m[i], mp, spin=s[i], **an, **kw))
        f1, f2 = F
        if c["same"]:
            f2 = f1
        x.label("car" if g.car else "healpix",
                "patch" if c["grid"].get("patch") else "full sky")
    if not abs(w2) > 1e-6 * big or not big > 0:
        x.label("no overlap")
        return
    x.nontrivial(c["cat"] or any(np.ptp(k) > 0 for k in m))
    b, W, _ = rand_bins(L, rng, lmin=min(max(s[0], s[1]), L), nbmax=4)
    w = nmt.NmtWorkspace.from_fields(f1, f2, b, normalization="FKP")
    n = (2 if s[0] else 1) * (2 if s[1] else 1)
    y = rng.standard_normal((n, L + 1))
    want = np.einsum("bl,il->ib", W, y) / w2
    tol = 1e-11 * (1 + big / abs(w2))
    x.close(w.decouple_cell(y), want, tol, msg="FKP bandpowers")
    if not c["cat"] and not c["same"] and not c["aniso"]:
        w = nmt.NmtWorkspace.from_fields(f2, f1, b, normalization="FKP")
        x.close(w.decouple_cell(y), want, tol, msg="FKP, exchanged fields")


SUBS = [
    Sub("algebra", gen, fn, 6000, 40000, weight=6.,
        examples=[dict(nside=4, lmax=12, lmax_mask=12, s1=2, s2=2, teb=False,
                       aniso=0, pure=[False] * 4, beams=True, same=False,
                       k1="cap", k2="smooth", seed=3, norm="MASTER",
                       replace=0, lmin=2, long=0, stride=False, toep=0)]),
    Sub("large", gen_large, fn, 60, 1500, weight=150.),
    Sub("fkp", gen_fkp, fn_fkp, 700, 8000, weight=4.,
        rule="masks that are not constant, or a catalogue"),
]
