"""P04: ensemble-mean pseudo-spectra = coupling matrix times the spectra."""
import numpy as np
import pymaster as nmt
from lib import curved
from lib.gen import rand_bins, rng_of
from lib.pbt import Sub

RULE = ("Non-trivial: mask with structure (not constant), at least two "
        "multipoles of sky power.")
ASSUMPTIONS = ["the ensemble mean is evaluated exactly as the sum over the "
               "independent harmonic modes of the sky, synthesised by the "
               "reference transform",
               "sky and mask band-limited on a full-sky grid fine enough "
               "for exact quadrature"]


def gen(d, pure=True):
    aniso = d.choice([0, 0, 1, 2, 3])
    lmax = d.int(2, 7)
    s1 = d.choice([0, 0, 1, 2, 2, 3])
    s2 = d.choice([0, 1, 2, 2, 2, 3])
    if aniso & 1:
        s1 = d.choice([1, 1, 2, 2, 3])
    if aniso & 2:
        s2 = d.choice([1, 1, 2, 2])
    lm = d.int(1, 6)
    p = [False] * 4
    if pure and not aniso and d.choice([0, 1]):
        p[:2] = [s1 == 2 and d.bool(), s1 == 2 and d.bool()]
        p[2:] = [s2 == 2 and d.bool(), s2 == 2 and d.bool()]
    lmask = lm + d.choice([0, 0, 3])
    if aniso:
        lm = d.int(1, 8)
        lmask = max(lm, 2 * s1, 2 * s2)
    return dict(lmax=max(lmax, s1, s2), lm=lm, lmask=lmask,
                s1=s1, s2=s2, aniso=aniso, pure=[bool(x) for x in p],
                k1=d.choice(["random", "positive", "positive"]),
                k2=d.choice(["random", "positive", "const"]),
                same=bool(d.choice([0, 0, 1])), grid=curved.gen_grid(d),
                seed=d.seed())


def setup(c, ctx, beams=False):
    rng = rng_of(c["seed"])
    lmax, lm = c["lmax"], c["lm"]
    s1, s2, p, an = c["s1"], c["s2"], list(c["pure"]), c["aniso"]
    if c["same"]:
        s2 = s1
        p[2:] = p[:2]
        an = (an & 1) * 3
    ctx.label(f"spins {min(s1, s2)}-{max(s1, s2)}")
    if any(p):
        ctx.label("purified")
    if an:
        ctx.label(f"aniso{an}")
    g = curved.Grid(max(2 * lmax + lm, lm + max(2, c["lmask"])), c["grid"])
    mk1 = curved.masks(g, lm, rng, s1, an & 1, c["k1"])
    mk2 = mk1 if c["same"] else curved.masks(g, lm, rng, s2, an & 2, c["k2"])
    kw = dict(lmax=lmax, lmax_mask=c["lmask"], n_iter=0, n_iter_mask=0)
    if any(p):
        kw["lmax_mask"] = max(c["lmask"], 2)
    bm = [None, None]
    if beams:
        bm = [rng.random(lmax + 1) * 0.8 + 0.3 for _ in range(2)]
        if c["same"]:
            bm[1] = bm[0]
    b1 = curved.basis_fields(g, mk1, s1, lmax, dict(
        kw, purify_e=p[0], purify_b=p[1]), bm[0])
    b2 = b1 if c["same"] else curved.basis_fields(g, mk2, s2, lmax, dict(
        kw, purify_e=p[2], purify_b=p[3]), bm[1])
    n1, n2 = (2 if s1 else 1), (2 if s2 else 1)
    R = curved.response(b1, b2, n1, n2, lmax)
    f1 = next(iter(b1.values()))[1]
    f2 = f1 if c["same"] else next(iter(b2.values()))[1]
    return rng, R, f1, f2, n1, n2


def fn(c, ctx):
    rng, R, f1, f2, n1, n2 = setup(c, ctx)
    lmax, L, n = c["lmax"], c["lmax"] + 1, n1 * n2
    ctx.nontrivial(c["k1"] != "const" and lmax - max(c["s1"], c["s2"]) >= 1)
    b = nmt.NmtBin.from_lmax_linear(lmax, 1)
    w = nmt.NmtWorkspace.from_fields(f1, f2, b)
    M = w.get_coupling_matrix().reshape(L, n, L, n).transpose(1, 0, 3, 2)
    # no sky power below the spins
    lo = max(f1.spin, f2.spin)
    ctx.close(M[:, :, :, lo:], R[:, :, :, lo:], 1e-10,
              scale=np.max(np.abs(R)), msg="response matrix")
    cl = rng.standard_normal((n, L))
    cl[:, :lo] = 0
    ctx.close(w.couple_cell(cl), np.einsum("iljk,jk->il", R, cl), 1e-10,
              scale=np.max(np.abs(R)) * 10, msg="mean pseudo-spectra")


def fn_unbiased(c, ctx):
    rng, R, f1, f2, n1, n2 = setup(c, ctx, beams=True)
    lmax, L, n = c["lmax"], c["lmax"] + 1, n1 * n2
    lo = max(f1.spin, f2.spin)
    lmin = max(2, lo)
    b, W, F = rand_bins(lmax, rng, lmin=lmin, nbmax=3, gaps=False)
    w = nmt.NmtWorkspace.from_fields(f1, f2, b)
    M = w.get_coupling_matrix()
    # binned matrix, to skip ill-posed inversions
    bp = rng.standard_normal((n, len(W)))
    cl = bp @ F
    K = np.einsum("bl,iljk,ck->ibjc", W, R, F).reshape(n * len(W), -1)
    if np.linalg.cond(K) > 1e7:
        ctx.label("ill-conditioned (skipped)")
        return
    ctx.nontrivial(c["k1"] != "const" and lmax > lmin)
    del M
    pcl = np.einsum("iljk,jk->il", R, cl)
    ctx.close(w.decouple_cell(pcl), bp, 1e-10 * np.linalg.cond(K) * 10,
              scale=np.max(np.abs(bp)), msg="decoupled mean")
    # bandpowers of the true spectrum: windows
    win = w.get_bandpower_windows()
    cl = rng.standard_normal((n, L))
    cl[:, :lo] = 0
    pcl = np.einsum("iljk,jk->il", R, cl)
    ctx.close(np.einsum("ibjl,jl->ib", win, cl), w.decouple_cell(pcl),
              1e-9 * np.linalg.cond(K), scale=np.max(np.abs(bp)) * 3 + 1,
              msg="windows give the mean bandpowers")


def gen_teb(d):
    c = gen(d, pure=False)
    c.update(aniso=0, s1=0, s2=d.choice([1, 2, 2, 3]), same=False)
    c["lmax"] = max(c["lmax"], c["s2"])
    c["pure"] = [False] * 2 + [c["s2"] == 2 and d.choice([0, 0, 1]) == 1,
                               c["s2"] == 2 and d.choice([0, 0, 1]) == 1]
    c["samemask"] = d.bool()
    return c


def fn_teb(c, ctx):
    """Joint temperature-polarisation matrix with one common mask."""
    rng = rng_of(c["seed"])
    lmax, lm, s = c["lmax"], c["lm"], c["s2"]
    L = lmax + 1
    ctx.label(f"teb spin {s}")
    if any(c["pure"]):
        ctx.label("purified")
    g = curved.Grid(max(2 * lmax + lm, lm + max(2, c["lmask"])), c["grid"])
    mk = curved.masks(g, lm, rng, s, 0, c["k1"])
    kw = dict(lmax=lmax, lmax_mask=max(2, c["lmask"]), n_iter=0, n_iter_mask=0)
    b0 = curved.basis_fields(g, mk, 0, lmax, kw)
    b2 = curved.basis_fields(g, mk, s, lmax, dict(
        kw, purify_e=c["pure"][2], purify_b=c["pure"][3]))
    R00 = curved.response(b0, b0, 1, 1, lmax)
    R02 = curved.response(b0, b2, 1, 2, lmax)
    R22 = curved.response(b2, b2, 2, 2, lmax)
    want = np.zeros((7, L, 7, L))
    want[:1, :, :1] = R00
    want[1:3, :, 1:3] = R02
    want[3:, :, 3:] = R22
    f0 = next(iter(b0.values()))[1]
    f2 = next(iter(b2.values()))[1]
    ctx.nontrivial(c["k1"] != "const")
    w = nmt.NmtWorkspace.from_fields(
        f0, f2, nmt.NmtBin.from_lmax_linear(lmax, 1), is_teb=True)
    M = w.get_coupling_matrix().reshape(L, 7, L, 7).transpose(1, 0, 3, 2)
    for i in range(7):
        lo = 0 if i == 0 else s
        ctx.close(M[:, :, i, lo:], want[:, :, i, lo:], 1e-10,
                  scale=np.max(np.abs(want)), msg=f"joint matrix, input {i}")


SUBS = [
    Sub("response", lambda d: gen(d), fn, 1200, 6000, weight=60.),
    Sub("unbiased", lambda d: gen(d), fn_unbiased, 480, 3000, weight=60.),
    Sub("joint", gen_teb, fn_teb, 240, 1200, weight=100.),
]
