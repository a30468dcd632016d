"""P01: curved-sky bandpowers."""
import numpy as np
import pymaster as nmt
from lib.pbt import Sub

RULE = ("Non-trivial: at least two bands, one of them with several "
        "multipoles.")
ASSUMPTIONS = ["multipoles assigned to at most one band; weights positive "
               "(individual weights may be zero)"]


def rng_of(c):
    return np.random.default_rng(c["seed"])


def verify(b, bands, lmax, rng, ctx, f_of):
    """bands: list of (ells, normalised weights); f_of: dict ell->prefactor."""
    nb = len(bands)
    ctx.check(b.lmax == lmax, "lmax", got=b.lmax, want=lmax)
    ctx.check(b.get_n_bands() == nb, "number of bands",
              got=b.get_n_bands(), want=nb)
    ctx.equal(b.get_nell_list(), [len(e) for e, _ in bands],
              "number of multipoles per band")
    leff = b.get_effective_ells()
    nmul = 0
    for i, (e, w) in enumerate(bands):
        nmul = max(nmul, len(e))
        got = np.asarray(b.get_ell_list(i))
        gw = np.asarray(b.get_weight_list(i))
        o, p = np.argsort(got), np.argsort(e)
        ctx.equal(got[o], np.asarray(e)[p], f"multipoles of band {i}")
        ctx.close(gw[o], np.asarray(w)[p], 1e-12, msg=f"weights of band {i}")
        ctx.close(np.sum(gw), 1., 1e-12, msg="weight normalisation")
        ctx.check(b.get_ell_min(i) == min(e), "smallest multipole of a band",
                  band=i, got=int(b.get_ell_min(i)), want=int(min(e)))
        ctx.check(b.get_ell_max(i) == max(e), "largest multipole of a band",
                  band=i, got=int(b.get_ell_max(i)), want=int(max(e)))
        ctx.close(leff[i], np.sum(np.asarray(e) * w), 1e-12,
                  atol=1e-12, msg="effective multipole")
    ctx.nontrivial(nb > 1 and nmul > 1)
    # binning
    ncl = int(rng.integers(1, 5))
    if rng.random() < 0.1 and lmax < 500:
        ncl = int(rng.integers(5, 30))
    cl = rng.standard_normal((ncl, lmax + 1)) * 10.**rng.integers(-6, 6)
    want = np.array([[np.sum([wi * f_of[li] * c[li] for li, wi in zip(e, w)])
                      for e, w in bands] for c in cl])
    mag = np.array([[np.sum([wi * f_of[li] * abs(c[li])
                             for li, wi in zip(e, w)])
                     for e, w in bands] for c in cl])
    cl0 = cl.copy()
    got = b.bin_cell(cl)
    ctx.close(got, want, 1e-12, scale=mag, atol=1e-300, msg="binned spectrum")
    ctx.equal(cl, cl0, "input modified")
    ctx.close(b.bin_cell(cl[0]), got[0], 1e-13, scale=mag[0], atol=1e-300,
              msg="1-D and 2-D binning differ")
    wide = np.zeros((ncl, 2 * (lmax + 1)))
    wide[:, ::2] = cl
    ctx.close(b.bin_cell(wide[:, ::2]), got, 1e-13, scale=mag, atol=1e-300,
              msg="strided input")
    # unbinning
    bp = rng.standard_normal((ncl, nb))
    ub = np.zeros((ncl, lmax + 1))
    for i, (e, w) in enumerate(bands):
        for li in e:
            ub[:, li] = bp[:, i] / f_of[li]
    gu = b.unbin_cell(bp)
    ctx.close(gu, ub, 1e-13, scale=np.abs(ub), msg="unbinned spectrum")
    ctx.close(b.unbin_cell(bp[0]), gu[0], 1e-13, scale=np.abs(ub[0]),
              msg="1-D and 2-D unbinning differ")
    ctx.close(b.bin_cell(gu), bp, 1e-11, msg="bin(unbin)")


# ---------------------------------------------------------------- explicit
def gen_explicit(d):
    lmax = d.choice([2, 3, 5, 8, 13, 30, 64, 200, 2500])
    nb = d.rare(d.int(1, min(lmax, 12)), d.int(1, min(lmax, 300)))
    return dict(lmax=lmax, nb=nb, seed=d.seed(), order=d.choice(
        ["sorted", "shuffled", "reversed"]),
        weights=d.choice(["none", "uniform", "random", "wild", "somezero"]),
        f=d.choice(["none", "random", "dell", "withzero", "wild"]),
        over=d.choice([0, 0, 3]), neg=d.choice([0.0, 0.3, 0.7]),
        pass_lmax=d.bool(), dt=d.choice(["int32", "int64", "uint16"]))


def fn_explicit(c, ctx):
    rng = rng_of(c)
    lmax, nb = c["lmax"], c["nb"]
    n = lmax + 1 + c["over"]
    ells = np.arange(n)
    bpw = rng.integers(0, nb, n)
    bpw[rng.random(n) < c["neg"]] = -1 - int(rng.integers(0, 3))
    first = rng.permutation(lmax + 1)[:nb]
    bpw[first] = np.arange(nb)
    keep = rng.random(n) < 0.8
    keep[first] = True
    keep[lmax] = True
    ells, bpw = ells[keep], bpw[keep]
    if c["order"] == "shuffled":
        p = rng.permutation(len(ells))
        ells, bpw = ells[p], bpw[p]
    elif c["order"] == "reversed":
        ells, bpw = ells[::-1].copy(), bpw[::-1].copy()
    ctx.label(c["order"], "w=" + c["weights"], "f=" + c["f"])
    n = len(ells)
    kw = {}
    w = np.ones(n)
    if c["weights"] == "uniform":
        w = np.full(n, 0.25)
    elif c["weights"] == "random":
        w = rng.random(n) + 0.01
    elif c["weights"] == "wild":
        w = 10.**rng.uniform(-8, 8, n)
    elif c["weights"] == "somezero":
        w = rng.random(n) + 0.1
        w[rng.random(n) < 0.3] = 0
        for i in range(nb):
            q = (bpw == i) & (ells <= lmax)
            if np.sum(w[q]) == 0:
                w[q] = 1.
    if c["weights"] != "none":
        kw["weights"] = w
    f = np.ones(n)
    if c["f"] == "random":
        f = rng.random(n) + 0.1
    elif c["f"] == "dell":
        f = ells * (ells + 1.) / (2 * np.pi)
    elif c["f"] == "withzero":
        f = rng.random(n) + 0.1
        f[rng.random(n) < 0.2] = 0
    elif c["f"] == "wild":
        f = 10.**rng.uniform(-20, 10, n)
    if c["f"] != "none":
        kw["f_ell"] = f
    lm = int(np.amax(ells))
    if c["over"] or c["pass_lmax"]:
        kw["lmax"] = lm = lmax
    dt = np.dtype(c["dt"])
    if dt.kind == "u" and (bpw < 0).any():
        dt = np.dtype("int32")
    b = nmt.NmtBin(bpws=bpw.astype(dt),
                   ells=ells.astype(dt), **kw)
    f_of = {int(e): (fi if fi > 0 else 1.) for e, fi in zip(ells, f)}
    bands = []
    for i in range(nb):
        q = (bpw == i) & (ells <= lm)
        bands.append((ells[q], w[q] / np.sum(w[q])))
    verify(b, bands, lm, rng, ctx, f_of)


# ---------------------------------------------------------------- edges
def gen_edges(d):
    nb = d.int(1, 10)
    widths = [d.rare(d.int(1, 12), d.int(13, 600), n=20) for _ in range(nb)]
    gaps = [d.choice([0, 0, 0, 1, 4]) for _ in range(nb)]
    k = d.rare(1, d.int(5, 50), n=12)     # the same pattern k times
    widths, gaps = widths * k, gaps * k
    return dict(start=d.int(0, 5), widths=widths, gaps=gaps,
                perm=d.bool(), is_dell=d.bool(), f=d.bool(), seed=d.seed(),
                kind=d.choice(["array", "list"]))


def fn_edges(c, ctx):
    rng = rng_of(c)
    lo, hi = [], []
    x = c["start"]
    for w, g in zip(c["widths"], c["gaps"]):
        x += g
        lo.append(x)
        x += w
        hi.append(x)
    if c["perm"]:
        p = rng.permutation(len(lo))
        lo, hi = [lo[i] for i in p], [hi[i] for i in p]
        ctx.label("bands out of order")
    if any(c["gaps"][1:]):
        ctx.label("gap between bands")
    allell = np.concatenate([np.arange(a, z) for a, z in zip(lo, hi)])
    lmax = int(np.amax(allell))
    kw = {}
    f = np.ones(len(allell))
    if c["is_dell"]:
        kw["is_Dell"] = True
        f = allell * (allell + 1) / (2 * np.pi)
    if c["f"]:
        f = 10.**rng.uniform(-14, 3, len(allell))
        kw["f_ell"] = f
    f_of = {int(e): (fi if fi > 0 else 1.) for e, fi in zip(allell, f)}
    a = (lambda v: np.array(v)) if c["kind"] == "array" else list
    b = nmt.NmtBin.from_edges(a(lo), a(hi), **kw)
    bands = [(np.arange(s, e), np.full(e - s, 1. / (e - s)))
             for s, e in zip(lo, hi)]
    verify(b, bands, lmax, rng, ctx, f_of)


# ---------------------------------------------------------------- linear
def gen_linear(d):
    return dict(nside=d.choice([0, 0, 0, 1, 2, 4, 8, 16, 32]),
                lmax=d.choice([d.int(3, 150), d.int(3, 150), d.int(150, 3000)]),
                nlb=d.choice([1, 2, 3, 4, 7, 10, 25]), is_dell=d.bool(),
                f=d.bool(), seed=d.seed())


def fn_linear(c, ctx):
    rng = rng_of(c)
    lmax = 3 * c["nside"] - 1 if c["nside"] else c["lmax"]
    nlb = c["nlb"]
    nb = (lmax - 1) // nlb
    kw = {}
    ell = np.arange(lmax + 1)
    f = np.ones(lmax + 1)
    if c["is_dell"]:
        kw["is_Dell"] = True
        f = ell * (ell + 1) / (2 * np.pi)
    if c["f"]:
        f = 10.**rng.uniform(-14, 3, lmax + 1)
        kw["f_ell"] = f

    def make():
        if c["nside"]:
            return nmt.NmtBin.from_nside_linear(c["nside"], nlb, **kw)
        return nmt.NmtBin.from_lmax_linear(lmax, nlb, **kw)
    if nb == 0:
        ctx.label("no complete band")
        ctx.raises(make, Exception, "no complete band")
        return
    if (lmax - 1) % nlb:
        ctx.label("incomplete last band dropped")
    b = make()
    bands = [(np.arange(2 + i * nlb, 2 + (i + 1) * nlb),
              np.full(nlb, 1. / nlb)) for i in range(nb)]
    verify(b, bands, lmax, rng, ctx,
           {int(e): (fi if fi > 0 else 1.) for e, fi in zip(ell, f)})


# ---------------------------------------------------------------- overlap
def gen_overlap(d):
    nb = d.int(2, 6)
    lo = [d.int(0, 30) for _ in range(nb)]
    return dict(lo=lo, wd=[d.int(1, 20) for _ in range(nb)], seed=d.seed())


def fn_overlap(c, ctx):
    """Overlapping bands are legitimate for binning."""
    rng = rng_of(c)
    lo = np.array(c["lo"])
    hi = lo + np.array(c["wd"])
    b = nmt.NmtBin.from_edges(lo, hi)
    lmax = int(np.amax(hi)) - 1
    cl = rng.standard_normal(lmax + 1)
    ctx.nontrivial(any(lo[i] < hi[j] and lo[j] < hi[i]
                       for i in range(len(lo)) for j in range(i)))
    ctx.close(b.bin_cell(cl), [np.mean(cl[s:e]) for s, e in zip(lo, hi)],
              1e-12, atol=1e-13, msg="binned spectrum, overlapping bands")
    ctx.close(b.get_effective_ells(), (lo + hi - 1) / 2., 1e-12,
              msg="effective multipoles")


# ---------------------------------------------------------------- refusals
def gen_bad(d):
    return dict(kind=d.choice(["empty", "negw", "zerow", "len_bin",
                               "len_unbin", "dim3", "len_w", "len_b",
                               "len_f"]),
                lmax=d.int(6, 40), seed=d.seed())


def fn_bad(c, ctx):
    rng = rng_of(c)
    lmax = c["lmax"]
    ells = np.arange(lmax + 1)
    bpw = ells // 3
    k = c["kind"]
    ctx.label(k)
    ctx.nontrivial()
    if k == "empty":
        bpw[bpw == 1] = -1
        ctx.raises(lambda: nmt.NmtBin(bpws=bpw, ells=ells), msg="empty band")
    elif k in ("negw", "zerow"):
        w = np.ones(lmax + 1)
        w[bpw == 1] = -1. if k == "negw" else 0.
        ctx.raises(lambda: nmt.NmtBin(bpws=bpw, ells=ells, weights=w),
                   msg="bad weights")
    elif k in ("len_w", "len_b", "len_f"):
        kw = dict(bpws=bpw, ells=ells, weights=np.ones(lmax + 1),
                  f_ell=np.ones(lmax + 1))
        nm = {"len_w": "weights", "len_b": "bpws", "len_f": "f_ell"}[k]
        m = int(rng.choice([-1, 1, 2]))
        kw[nm] = np.ones(lmax + 1 + m, dtype=kw[nm].dtype)
        ctx.raises(lambda: nmt.NmtBin(**kw), msg="length mismatch " + nm)
    else:
        b = nmt.NmtBin(bpws=bpw, ells=ells)
        m = int(rng.choice([-1, 1, 3]))
        if k == "len_bin":
            ctx.raises(lambda: b.bin_cell(np.ones(lmax + 1 + m)))
            ctx.raises(lambda: b.bin_cell(np.ones((2, lmax + 1 + m))))
        elif k == "len_unbin":
            ctx.raises(lambda: b.unbin_cell(np.ones(b.get_n_bands() + m)))
        else:
            ctx.raises(lambda: b.bin_cell(np.ones((2, 2, lmax + 1))))
            ctx.raises(lambda: b.unbin_cell(np.ones((2, 2,
                                                     b.get_n_bands()))))
        ctx.close(b.bin_cell(np.ones(lmax + 1)), np.ones(b.get_n_bands()),
                  1e-12, msg="usable after refusal")


SUBS = [
    Sub("explicit", gen_explicit, fn_explicit, 1200, 40000),
    Sub("edges", gen_edges, fn_edges, 1200, 40000),
    Sub("linear", gen_linear, fn_linear, 800, 20000),
    Sub("overlap", gen_overlap, fn_overlap, 300, 6000),
    Sub("refused", gen_bad, fn_bad, 200, 4000),
]
