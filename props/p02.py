"""P02: flat-sky bandpowers."""
import numpy as np
import pymaster as nmt
from lib.pbt import Sub

RULE = "Non-trivial: two or more bands."
ASSUMPTIONS = ["bands are given in increasing order and do not overlap "
               "(gaps allowed); spectra are sampled at increasing multipoles"]


def gen(d):
    nb = d.rare(d.int(1, 10), d.int(11, 300))
    return dict(nb=nb, l0=d.choice([0., 2., 10.5]), seed=d.seed(),
                scale=d.choice([1., 37.3, 1e3]),
                gaps=d.choice(["none", "none", "some", "all"]),
                equal=d.bool(), ncl=d.rare(d.int(1, 4), d.int(5, 20)),
                order=d.choice(["sorted", "random", "reversed"]),
                nl=d.choice([2, 3, 10, 200]),
                reach=d.choice(["inside", "beyond", "narrow"]))


def edges(c, rng):
    w = np.ones(c["nb"]) if c["equal"] else rng.random(c["nb"]) + 0.05
    g = np.zeros(c["nb"])
    if c["gaps"] == "some":
        g = np.where(rng.random(c["nb"]) < 0.4, rng.random(c["nb"]), 0)
    elif c["gaps"] == "all":
        g = rng.random(c["nb"]) + 0.05
    g[0] = 0
    lo, hi = [], []
    x = c["l0"]
    for wi, gi in zip(w, g):
        x = x + gi * c["scale"] if gi else x
        lo.append(x)
        x = x + wi * c["scale"]
        hi.append(x)
    return np.array(lo), np.array(hi)


def fn(c, ctx):
    rng = np.random.default_rng(c["seed"])
    lo, hi = edges(c, rng)
    nb, ncl = c["nb"], c["ncl"]
    lo0, hi0 = lo.copy(), hi.copy()
    b = nmt.NmtBinFlat(lo, hi)
    ctx.nontrivial(nb > 1)
    ctx.label("gaps " + c["gaps"], c["order"], c["reach"])
    # the scheme does not alias its inputs
    lo[:] = -7
    hi[:] = -3
    lo, hi = lo0, hi0
    ctx.check(b.get_n_bands() == nb, "number of bands")
    mid = 0.5 * (lo + hi)
    ctx.close(b.get_effective_ells(), mid, 1e-13, msg="effective multipoles")
    # binning = linear interpolation at the centre, constant outside
    top = hi[-1] - lo[0]
    a, z = {"inside": (lo[0] - 0.1 * top, hi[-1] + 0.1 * top),
            "beyond": (lo[0] - 3 * top, hi[-1] + 3 * top),
            "narrow": (lo[0] + 0.4 * top, lo[0] + 0.6 * top)}[c["reach"]]
    ls = np.sort(rng.uniform(a, z, c["nl"]))
    if len(np.unique(ls)) != len(ls):
        return
    cl = rng.standard_normal((ncl, c["nl"]))
    want = np.array([np.interp(mid, ls, x) for x in cl])
    got = b.bin_cell(ls, cl)
    ctx.close(got, want, 1e-9, atol=1e-10, msg="binned spectrum")
    ctx.close(b.bin_cell(ls, cl[0]), got[0], 1e-12, atol=1e-12,
              msg="1-D and 2-D binning differ")
    # membership
    npt = 60
    q = rng.uniform(lo[0] - 0.3 * top, hi[-1] + 0.3 * top, npt)
    q = np.concatenate([q, lo, hi, mid, np.nextafter(hi, -1e30),
                        np.nextafter(lo, -1e30)])
    if c["order"] == "random":
        q = q[rng.permutation(len(q))]
    elif c["order"] == "reversed":
        q = np.sort(q)[::-1].copy()
    else:
        q = np.sort(q)
    bp = rng.standard_normal((ncl, nb))
    got = b.unbin_cell(bp, q)
    ctx.check(got.shape == (ncl, len(q)), "shape of the unbinned spectrum")
    member = (q[:, None] >= lo) & (q[:, None] < hi)
    ins = member.any(axis=1)
    idx = np.argmax(member, axis=1)
    ctx.equal(got[:, ins], bp[:, idx[ins]], "value of the containing band")
    outv = got[:, ~ins]
    if outv.size:
        ctx.check(np.all(outv == outv.flat[0]),
                  "multipoles outside every band are not marked uniformly")
        ctx.check(not np.any(np.isin(outv.flat[0], bp)),
                  "multipole outside every band given the value of a band")
    # independent of the order, and of asking one at a time
    p = rng.permutation(len(q))
    ctx.equal(b.unbin_cell(bp, q[p]), got[:, p], "order of the multipoles")
    k = int(rng.integers(len(q)))
    ctx.equal(b.unbin_cell(bp[0], q[k:k + 1]), got[0, k:k + 1],
              "single multipole")
    # binning undoes unbinning when sampled finely inside the bands
    fine = np.sort(np.concatenate([lo + f * (hi - lo)
                                   for f in (0.1, 0.3, 0.5, 0.7, 0.9)]))
    ctx.close(b.bin_cell(fine, b.unbin_cell(bp, fine)), bp, 1e-9,
              msg="bin(unbin)")


def gen_bad(d):
    return dict(kind=d.choice(["len_edges", "len_cl", "len_bp", "dim3"]),
                nb=d.int(2, 8), seed=d.seed())


def fn_bad(c, ctx):
    rng = np.random.default_rng(c["seed"])
    lo = np.arange(c["nb"]) * 10.
    ctx.nontrivial()
    ctx.label(c["kind"])
    if c["kind"] == "len_edges":
        ctx.raises(lambda: nmt.NmtBinFlat(lo, np.concatenate([lo + 10, [9]])))
        ctx.raises(lambda: nmt.NmtBinFlat(lo, lo[:-1] + 10))
        return
    b = nmt.NmtBinFlat(lo, lo + 10)
    ls = np.linspace(0, 50, 20)
    m = int(rng.choice([-1, 1, 4]))
    if c["kind"] == "len_cl":
        ctx.raises(lambda: b.bin_cell(ls, np.ones(20 + m)))
        ctx.raises(lambda: b.bin_cell(ls, np.ones((3, 20 + m))))
    elif c["kind"] == "len_bp":
        ctx.raises(lambda: b.unbin_cell(np.ones(c["nb"] + m), ls))
    else:
        ctx.raises(lambda: b.unbin_cell(np.ones((2, 2, c["nb"])), ls))
        ctx.raises(lambda: b.bin_cell(ls, np.ones((2, 2, 20))))
    ctx.close(b.bin_cell(ls, np.ones(20)), np.ones(c["nb"]), 1e-12)


SUBS = [Sub("bands", gen, fn, 2500, 80000),
        Sub("refused", gen_bad, fn_bad, 100, 2000)]
