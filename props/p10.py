"""P10: pseudo-spectra and the one-call estimator as compositions."""
import healpy as hp
import numpy as np
import pymaster as nmt
from lib import sht
from lib.gen import MASK_KINDS, car_wcs, hp_mask, rand_bins, rng_of
from lib.pbt import Sub

RULE = ("Non-trivial: both fields have non-zero coefficients; for the "
        "estimator, the bandpower covariance of the inversion is well "
        "conditioned.")
ASSUMPTIONS = ["the one-call estimator is compared with the documented "
               "sequence of public calls (each decided by its own property)"]
PIX = ["hp", "hp", "hp2", "car", "cat", "clust", "lite"]


def gen(d, est=False):
    f = []
    for _ in range(2):
        s = d.choice([0, 0, 1, 2, 2, 3])
        pix = d.choice(PIX)
        if pix == "clust":
            s = 0
        f.append(dict(s=s, pix=pix, kind=d.choice(["random", "smooth", "cap",
                                                   "random"]),
                      pure=[bool(s == 2 and pix not in ("cat", "clust") and
                                 d.choice([0, 0, 1])) for _ in range(2)],
                      nt=0 if pix in ("cat", "clust", "lite") else
                      d.choice([0, 0, 1, 2]), beam=d.bool()))
    lmax = d.int(3, 14)
    return dict(f=f, same=d.choice([0, 0, 1]) == 1, lmax=lmax,
                dl=d.choice([0, 0, 1, 3]), n_iter=d.choice([0, 0, 2]),
                noise=d.bool(), guess=d.bool(), ws=d.bool(),
                norm=d.choice(["MASTER", "MASTER", "FKP"]),
                toep=d.choice([0, 0, 1]), seed=d.seed())


def gen_large(d):
    c = gen(d)
    c.update(lmax=d.int(32, 95), dl=d.choice([0, 0, 17]), ns=32)
    for q in c["f"]:
        q["nt"] = min(q["nt"], 1)
    return c


def make(c, i, rng):
    q = c["f"][i]
    n = 2 if q["s"] else 1
    lmax, lmm = c["lmax"], c["lmax"] + c["dl"]
    beam = 0.2 + rng.random(lmax + 1 + c["seed"] % 3) if q["beam"] else None
    if q["pix"] in ("cat", "clust"):
        k = 40
        pos = np.array([np.arccos(rng.uniform(-1, 1, k)),
                        rng.uniform(0, 2 * np.pi, k)])
        w = rng.random(k) + 0.1
        if q["pix"] == "clust":
            return nmt.NmtFieldCatalogClustering(
                pos, w, np.array([np.arccos(rng.uniform(-1, 1, 3 * k)),
                                  rng.uniform(0, 2 * np.pi, 3 * k)]),
                rng.random(3 * k) + 0.1, lmax)
        return nmt.NmtFieldCatalog(pos, w, rng.standard_normal((n, k)), lmax,
                                   lmax_mask=lmm, spin=q["s"], beam=beam)
    wcs = None
    if q["pix"] == "car":
        ny, nx = (10, 18) if c["lmax"] < 30 else (90, 180)
        wcs, th, ph = car_wcs(ny, nx, bool(c["seed"] & 1),
                              bool(c["seed"] & 2))
        shape = th.shape
        m = 0.2 + rng.random(shape)
    else:
        ns = 4 if q["pix"] == "hp2" else 8
        ns = c.get("ns", ns)
        shape = (hp.nside2npix(ns),)
        m = hp_mask(ns, q["kind"], rng)
    mp = rng.standard_normal((n,) + shape)
    t = rng.standard_normal((q["nt"], n) + shape) if q["nt"] else None
    return nmt.NmtField(m, mp, spin=q["s"], templates=t, beam=beam, wcs=wcs,
                        lmax=lmax, lmax_mask=lmm, n_iter=c["n_iter"],
                        n_iter_mask=0, purify_e=q["pure"][0],
                        purify_b=q["pure"][1], lite=q["pix"] == "lite")


def pcl(a, b, lmax):
    ls, ms = sht.lm_index(lmax)
    out = np.zeros((len(a), len(b), lmax + 1))
    wt = np.where(ms == 0, 1., 2.) / (2. * ls + 1)
    for i in range(len(a)):
        for j in range(len(b)):
            p = (a[i] * np.conj(b[j])).real * wt
            out[i, j] = np.bincount(ls, p, minlength=lmax + 1)
    return out.reshape(-1, lmax + 1)


def start(c, ctx):
    rng = rng_of(c["seed"])
    if c["dl"] and "clust" in [x["pix"] for x in c["f"]]:
        c = dict(c, dl=0)
    f1 = make(c, 0, rng)
    f2 = f1 if c["same"] else make(c, 1, rng)
    s = sorted([f1.spin, f2.spin])
    ctx.label(f"spins {s[0]}-{s[1]}", *{x["pix"] for x in c["f"][:1 if c[
        "same"] else 2]})
    if c["same"]:
        ctx.label("same")
    return rng, f1, f2


def nf(f):
    """Zero-separation power of a catalogue field."""
    return f.Nf


def fn_pcl(c, ctx):
    rng, f1, f2 = start(c, ctx)
    lmax = c["lmax"]
    a1, a2 = f1.get_alms(), f2.get_alms()
    ctx.nontrivial(np.any(a1) and np.any(a2))
    n1, n2 = len(a1), len(a2)
    ctx.check(n1 == (2 if f1.spin else 1), "number of components")
    want = pcl(a1, a2, lmax)
    if c["same"]:
        for i in range(n1):
            want[i * n1 + i] -= nf(f1)
    sc = np.sqrt(np.max(np.abs(pcl(a1, a1, lmax))) *
                 np.max(np.abs(pcl(a2, a2, lmax)))) + 1e-300
    got = nmt.compute_coupled_cell(f1, f2)
    if c["same"] and f1.spin and f1.is_catalog:
        # (noise below the spin is decided by P14)
        want[:, :f1.spin] = got[:, :f1.spin]
    ctx.close(got, want, 1e-12, scale=sc, msg="pseudo-spectra")
    tr = nmt.compute_coupled_cell(f2, f1).reshape(n2, n1, -1)
    ctx.close(tr.transpose(1, 0, 2).reshape(n1 * n2, -1), got, 1e-12,
              scale=sc, msg="transposed components")
    ctx.close(nmt.compute_coupled_cell(f1, f2), got, 1e-12,
              scale=np.max(np.abs(got)) + 1e-300, msg="repeated call")


def fn_bilinear(c, ctx):
    """Pseudo-spectra of combined maps."""
    rng = rng_of(c["seed"])
    c = dict(c, same=False)
    q = c["f"][0]
    if q["pix"] in ("cat", "clust"):
        q = dict(q, pix="hp")
    s = q["s"]
    n = 2 if s else 1
    m = hp_mask(4, q["kind"], rng)
    kw = dict(spin=s, lmax=c["lmax"], lmax_mask=c["lmax"] + c["dl"],
              n_iter=c["n_iter"], n_iter_mask=0, purify_e=q["pure"][0],
              purify_b=q["pure"][1])
    if q["nt"]:
        kw["templates"] = rng.standard_normal((q["nt"], n, len(m)))
    x, y = rng.standard_normal((2, n, len(m)))
    f2 = make(c, 1, rng) if not (c["f"][1]["pix"] == "clust" and c["dl"]) \
        else nmt.NmtField(m, [x[0]], lmax=c["lmax"],
                          lmax_mask=c["lmax"] + c["dl"])
    al, be = rng.uniform(-2, 2, 2)
    F = [nmt.NmtField(m, v, **kw) for v in (x, y, al * x + be * y)]
    p = [nmt.compute_coupled_cell(f, f2) for f in F]
    ctx.nontrivial(np.any(p[0]))
    ctx.label(f"spins {min(s, f2.spin)}-{max(s, f2.spin)}")
    sc = 4 * np.max(np.abs(p[:2])) + 1e-300
    ctx.close(p[2], al * p[0] + be * p[1], 1e-7 if any(q["pure"]) else 1e-9,
              scale=sc, msg="linear in the first field")
    p = [nmt.compute_coupled_cell(f2, f) for f in F]
    ctx.close(p[2], al * p[0] + be * p[1], 1e-7 if any(q["pure"]) else 1e-9,
              scale=sc, msg="linear in the second field")
    xx = nmt.compute_coupled_cell(F[0], F[0])
    yy = nmt.compute_coupled_cell(F[1], F[1])
    xy = nmt.compute_coupled_cell(F[0], F[1])
    yx = nmt.compute_coupled_cell(F[1], F[0])
    ctx.close(nmt.compute_coupled_cell(F[2], F[2]), al**2 * xx + be**2 * yy
              + al * be * (xy + yx), 1e-7 if any(q["pure"]) else 1e-9,
              scale=16 * max(np.max(np.abs(xx)), np.max(np.abs(yy))),
              msg="quadratic in the field")


def fn_full(c, ctx):
    rng, f1, f2 = start(c, ctx)
    lmax = c["lmax"]
    n = f1.nmaps * f2.nmaps
    lo = max(2, f1.spin, f2.spin)
    if lo > lmax:
        return
    b, W, F = rand_bins(lmax, rng, lmin=lo, nbmax=3)
    kw = dict(normalization=c["norm"])
    if c["norm"] == "FKP" and (f1.is_catalog or f2.is_catalog or
                               c["f"][0]["pix"] != c["f"][-c["same"] % 2][
                                   "pix"]):
        kw = {}
    if kw.get("normalization") == "FKP" and f1.is_compatible(f2) and \
            not np.any(f1.get_mask() * f2.get_mask()):
        ctx.label("masks without overlap")
        return      # nothing to divide by
    if c["toep"] and not any(c["f"][0]["pure"] + c["f"][1]["pure"]):
        kw.update(l_toeplitz=max(2, lmax - 1), l_exact=max(1, lmax // 2),
                  dl_band=max(1, lmax // 3))
        if kw["l_exact"] > kw["l_toeplitz"] or kw["l_toeplitz"] >= lmax:
            for k in ("l_toeplitz", "l_exact", "dl_band"):
                kw.pop(k)
        else:
            ctx.label("Toeplitz")
    noise = rng.standard_normal((n, lmax + 1)) if c["noise"] else None
    full = not (f1.lite or f2.lite) and f1.is_compatible(f2)
    guess = None
    if c["guess"] and full:
        guess = rng.random((n, lmax + 1))
        ctx.label("guess", "templates" if getattr(f1, "n_temp", 0) +
                  getattr(f2, "n_temp", 0) else "no templates")
    try:
        w = nmt.NmtWorkspace.from_fields(f1, f2, b, **kw)
    except ValueError as e:
        # combinations a workspace refuses are refused in one call too
        ctx.label("refused")
        ctx.raises(lambda: nmt.compute_full_master(
            f1, f2, b, cl_noise=noise, cl_guess=guess, **kw), ValueError,
            f"workspace refused ({e})")
        return
    M = w.get_coupling_matrix().reshape(lmax + 1, n, lmax + 1, n)
    bm = f1.beam[:lmax + 1] * f2.beam[:lmax + 1]
    K = np.einsum("bl,limj,m,cm->bicj", W, M, bm, F).reshape(n * len(W), -1)
    if kw.get("normalization") != "FKP" and not np.linalg.cond(K) < 1e10:
        ctx.label("ill-conditioned (skipped)")
        return
    pcld = nmt.compute_coupled_cell(f1, f2)
    want = w.decouple_cell(
        pcld, cl_bias=None if guess is None else nmt.deprojection_bias(
            f1, f2, guess), cl_noise=noise)
    ctx.nontrivial(np.any(want))
    sc = np.max(np.abs(want)) + np.max(np.abs(w.decouple_cell(pcld)))
    tol = 1e-12 * max(1e3, np.linalg.cond(K) if "normalization" not in kw or
                      kw["normalization"] != "FKP" else 1)
    args = [dict(b=b, **kw)]
    if c["ws"]:
        # a supplied workspace wins over (and does not need) the bands
        args += [dict(workspace=w), dict(
            b=nmt.NmtBin.from_lmax_linear(lmax, 1), workspace=w)]
    for a in args:
        got = nmt.compute_full_master(f1, f2, cl_noise=noise, cl_guess=guess,
                                      **a)
        ctx.close(got, want, tol, scale=sc, msg="one-call estimator, "
                  + ", ".join(sorted(a)))


SUBS = [
    Sub("pseudo-spectra", lambda d: gen(d), fn_pcl, 2000, 15000, weight=8.),
    Sub("bilinear", lambda d: gen(d), fn_bilinear, 800, 6000, weight=20.),
    Sub("one-call", lambda d: gen(d), fn_full, 1000, 8000, weight=15.),
    Sub("large-spectra", gen_large, fn_pcl, 60, 1500, weight=100.),
    Sub("large-one-call", gen_large, fn_full, 50, 1200, weight=150.),
]
