"""P03: isotropic coupling matrix = Wigner-3j sums."""
import numpy as np
import healpy as hp
import pymaster as nmt
from lib import ref
from lib.gen import hp_mask, rand_bins, rng_of
from lib.pbt import Sub
from props.p08 import Grid, gen_grid

RULE = ("Non-trivial: mask spectrum with power at several multipoles, so "
        "that off-diagonal coupling is present.")
ASSUMPTIONS = ["the mask coefficients returned by get_mask_alms are those "
               "used (P13 checks them)",
               "purification is defined for spin-2 fields"]

KINDS = ["random", "binary", "smooth", "ones", "point", "signed", "cap",
         "tiny"]


def gen(d, big=False):
    if big:
        lmax = d.choice([90, 150, 260, 400])
        lm = d.choice([60, 150, 300, 500])
        nside = 8
    else:
        lmax = d.int(2, 30)
        lm = d.choice([lmax, lmax, d.int(1, 60), lmax + d.int(1, 30),
                       max(1, lmax - d.int(1, 12))])
        nside = d.choice([2, 4, 8])
    teb = d.choice([False, False, False, True])
    s1 = 0 if teb else d.choice([0, 0, 1, 2, 2, 2, 3, 4, 5])
    s2 = d.choice([1, 2, 2, 3]) if teb else d.choice([0, 1, 2, 2, 2, 3, 4])
    p = [bool(s1 == 2 and d.choice([False, False, True])) for _ in range(2)]
    p += [bool(s2 == 2 and d.choice([False, False, True])) for _ in range(2)]
    return dict(lmax=lmax, lmax_mask=lm, nside=nside, teb=teb, s1=s1, s2=s2,
                pure=p, k1=d.choice(KINDS), k2=d.choice(KINDS),
                same=d.bool() and s1 == s2, niter=d.choice([0, 0, 3]),
                seed=d.seed(), beams=d.bool(), lite=d.bool(),
                norm=d.choice(["MASTER", "MASTER", "FKP"]))


def fields(c, rng):
    m1 = hp_mask(c["nside"], c["k1"], rng)
    m2 = hp_mask(c["nside"], c["k2"], rng)
    kw = dict(lmax=c["lmax"], lmax_mask=c["lmax_mask"],
              n_iter_mask=c["niter"], lite=c["lite"])
    b = [None, None]
    if c["beams"]:
        b = [rng.random(c["lmax"] + 1) + 0.1 for _ in range(2)]
    pe1, pb1, pe2, pb2 = c["pure"]
    f1 = nmt.NmtField(m1, None, spin=c["s1"], beam=b[0], purify_e=pe1,
                      purify_b=pb1, **kw)
    if c["same"]:
        return f1, f1
    f2 = nmt.NmtField(m2, None, spin=c["s2"], beam=b[1], purify_e=pe2,
                      purify_b=pb2, **kw)
    return f1, f2


def pcl_of(f1, f2):
    a1, a2 = f1.get_mask_alms(), f2.get_mask_alms()
    return hp.alm2cl(a1, a2)


def labels(c, ctx):
    ctx.label(f"spins {min(c['s1'], c['s2'])}-{max(c['s1'], c['s2'])}")
    if any(c["pure"]):
        ctx.label("purified")
    if c["teb"]:
        ctx.label("teb")
    ctx.label("lmax_mask %s lmax" % ("<" if c["lmax_mask"] < c["lmax"] else
                                     ">" if c["lmax_mask"] > c["lmax"]
                                     else "="))


def fn(c, ctx):
    rng = rng_of(c["seed"])
    f1, f2 = fields(c, rng)
    s1, s2 = c["s1"], c["s2"]
    p = list(c["pure"])
    if c["same"]:
        s2 = s1
        p[2:] = p[:2]
    labels(dict(c, s2=s2, pure=p), ctx)
    lmax = c["lmax"]
    b, _, _ = rand_bins(lmax, rng)
    w = nmt.NmtWorkspace.from_fields(f1, f2, b, is_teb=c["teb"],
                                     normalization=c["norm"])
    got = w.get_coupling_matrix()
    pcl = pcl_of(f1, f2)
    want = ref.mcm_iso(pcl, lmax, s1, s2, *p, is_teb=c["teb"])
    ctx.nontrivial(np.sum(np.abs(pcl[1:]) > 1e-6 * np.abs(pcl[0])) > 1)
    big = np.max(np.abs(pcl) * (2 * np.arange(len(pcl)) + 1))
    tol = 3e-11 * (1 + (lmax / 30.)**2)
    if any(p) and lmax > 150:
        tol = 1e-6   # accuracy of the reference
    ctx.close(got, want, tol, msg="coupling matrix",
              scale=np.max(np.abs(want)) + 1e-3 * big)


def fn_inv(c, ctx):
    """Depends only on the masks, spins, ranges and flags."""
    rng = rng_of(c["seed"])
    f1, f2 = fields(c, rng)
    lmax = c["lmax"]
    labels(c, ctx)
    b, _, _ = rand_bins(lmax, rng)
    w = nmt.NmtWorkspace.from_fields(f1, f2, b, is_teb=c["teb"])
    M = w.get_coupling_matrix()
    ctx.nontrivial(c["k1"] != "ones")
    rng = rng_of(c["seed"])
    m1 = hp_mask(c["nside"], c["k1"], rng)
    m2 = m1 if c["same"] else hp_mask(c["nside"], c["k2"], rng)
    r2 = rng_of(c["seed"], 1)
    kw = dict(lmax=lmax, lmax_mask=c["lmax_mask"], n_iter_mask=c["niter"])
    fs = []
    npix = len(m1)
    for m, s, p in ((m1, c["s1"], c["pure"][:2]),
                    (m2, c["s1"] if c["same"] else c["s2"],
                     c["pure"][:2] if c["same"] else c["pure"][2:])):
        mp = r2.standard_normal((2 if s else 1, npix))
        if s > lmax or any(p):
            mp = None
        fs.append(nmt.NmtField(m, mp, spin=s, purify_e=p[0], purify_b=p[1],
                               beam=r2.random(lmax + 3) + 0.1, n_iter=0,
                               **kw))
    b2, _, _ = rand_bins(lmax, r2)
    w2 = nmt.NmtWorkspace.from_fields(fs[0], fs[1], b2, is_teb=c["teb"],
                                      normalization="FKP")
    ctx.close(w2.get_coupling_matrix(), M, 1e-12,
              scale=np.max(np.abs(M)) + 1e-300,
              msg="maps, beams, bins or normalisation change the matrix")
    if not c["teb"]:
        # exchanging the fields permutes the components
        ws = nmt.NmtWorkspace.from_fields(f2, f1, b)
        n = M.shape[0] // (lmax + 1)
        perm = {1: [0], 2: [0, 1], 4: [0, 2, 1, 3]}[n]
        T = M.reshape(lmax + 1, n, lmax + 1, n)[:, perm][:, :, :, perm]
        ctx.close(ws.get_coupling_matrix(), T.reshape(M.shape), 1e-11,
                  scale=np.max(np.abs(M)) + 1e-300,
                  msg="exchanging the fields")


def gen_def(d):
    g = gen_grid(d)
    if g["pix"] == "hp":
        g["nside"] = d.choice([2, 4])
    return dict(grid=g, lmax=d.choice([0, 0, d.int(2, 11)]), omit=d.bool(),
                same=d.choice([0, 0, 1]),
                s=[d.choice([0, 0, 1, 2, 2, 3]) for _ in range(2)],
                cat=d.choice([0, 0, 0, 0, 1]), n=d.int(3, 30),
                k=[d.choice(["random", "binary", "signed", "tiny"])
                   for _ in range(2)], maps=d.bool(), seed=d.seed())


def fn_def(c, x):
    """Ranges that are not given: the whole resolution of the map, for
    maps and for masks; the range of the field for catalogues."""
    rng = rng_of(c["seed"])
    F, P = [], []
    same = c["same"]
    s = c["s"][:1] * 2 if same else c["s"]
    if c["cat"]:
        L = max(c["lmax"], 3)
        x.label("catalogue")
        for i in range(2 - same):
            n = c["n"] + i
            pos = np.array([np.arccos(rng.uniform(-1, 1, n)),
                            rng.uniform(0, 2 * np.pi, n)])
            args = (pos, rng.uniform(0.2, 2, n), rng.standard_normal(
                (2 if s[i] else 1, n)), L)
            F.append(nmt.NmtFieldCatalog(*args, spin=s[i]))
            P.append(nmt.NmtFieldCatalog(*args, spin=s[i], lmax_mask=L))
        LM = L
    else:
        g = Grid(c["grid"])
        x.label("car" if g.car else "healpix")
        if g.car:
            LM = int(180. / min(180. / (c["grid"]["ny"] - 1),
                                360. / c["grid"]["nx"]) + 1e-3)
        else:
            LM = 3 * c["grid"]["nside"] - 1
        kw = {}
        L = LM
        if c["lmax"]:
            L = kw["lmax"] = c["lmax"]
        if not c["omit"]:
            kw["lmax_mask"] = None
        x.label("lmax given" if c["lmax"] else "lmax omitted")
        for i in range(2 - same):
            m = g.mask(c["k"][i], rng)
            mp = rng.standard_normal((2 if s[i] else 1,) + g.shape) if \
                c["maps"] and L >= s[i] else None
            o = dict(spin=s[i], wcs=g.wcs, n_iter=0, n_iter_mask=0)
            F.append(nmt.NmtField(m, mp, **o, **kw))
            P.append(nmt.NmtField(m, mp, **dict(o, lmax=L, lmax_mask=LM)))
    if L < 2:
        return
    x.nontrivial(L != LM or c["cat"] or not c["lmax"])
    for f, p in zip(F, P):
        x.check(f.ainfo.lmax == L and f.ainfo_mask.lmax == LM,
                "default multipole ranges", got=(f.ainfo.lmax,
                                                 f.ainfo_mask.lmax),
                expected=(L, LM))
        x.close(f.get_mask_alms(), p.get_mask_alms(), 1e-12,
                msg="mask coefficients")
    b, _, _ = rand_bins(L, rng)
    M = nmt.NmtWorkspace.from_fields(F[0], F[-1], b).get_coupling_matrix()
    E = nmt.NmtWorkspace.from_fields(P[0], P[-1], b).get_coupling_matrix()
    x.close(M, E, 1e-11, scale=np.max(np.abs(E)) + 1e-300,
            msg="coupling matrix with the ranges given or omitted")
    want = ref.mcm_iso(pcl_of(P[0], P[-1]), L, s[0], s[1])
    if c["cat"]:
        # without the noise of the weights
        return
    x.close(M, want, 1e-10 * (1 + (L / 30.)**2), msg="coupling matrix",
            scale=np.max(np.abs(want)) + 1e-300)


SUBS = [
    Sub("wigner", lambda d: gen(d), fn, 1600, 30000, weight=2.,
        examples=[dict(lmax=24, lmax_mask=24, nside=8, teb=False, s1=2, s2=2,
                       pure=[False, True, False, True], k1="cap",
                       k2="smooth", same=False, niter=0, seed=5, beams=True,
                       lite=False, norm="MASTER"),
                  dict(lmax=16, lmax_mask=40, nside=8, teb=True, s1=0, s2=2,
                       pure=[False, False, True, True], k1="cap",
                       k2="cap", same=False, niter=0, seed=7, beams=False,
                       lite=True, norm="MASTER")]),
    Sub("large", lambda d: gen(d, True), fn, 32, 600, weight=120.),
    Sub("defaults", gen_def, fn_def, 500, 8000, weight=3.,
        rule="ranges of maps and masks differ, or one was omitted"),
    Sub("only_masks", lambda d: gen(d), fn_inv, 500, 8000, weight=3.),
]
