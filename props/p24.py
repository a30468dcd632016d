"""P24: flat-sky deprojection bias."""
import numpy as np
import pymaster as nmt
from lib.flat import interp
from lib.gen import rng_of
from lib.pbt import Sub
from props.p21 import (MASKS, bands_of, basis, cuts_of, gen_bands, gen_cuts,
                       gen_patch, mask_of, patch_of)

RULE = ("Non-trivial: some field has a template, and the bias is not zero.")
ASSUMPTIONS = ["the ensemble mean is the exact sum over a complete set of "
               "Fourier modes; spin fields use grids without Nyquist "
               "frequencies",
               "the mean of a field with odd spin does not correlate with "
               "one of even spin"]
SPINS = [0, 0, 0, 1, 2, 2, 2, 3]


def gen(d, nmax=5):
    s = [d.choice(SPINS), d.choice(SPINS)]
    same = d.choice([False, False, True])
    if same:
        s[1] = s[0]
    return dict(patch=gen_patch(d, nmax, odd=any(s)), s=s, same=same,
                nt=[d.rare(d.int(0, 2), 3, 4, 6), d.int(0, 2)], bands=gen_bands(d),
                cuts=gen_cuts(d),
                pure=[[d.bool(), d.bool()] if x == 2 and d.choice([0, 1])
                      else [False, False] for x in s],
                mask=[d.choice(MASKS), d.choice(MASKS)],
                deg=d.choice([0, 0, 0, 1]), beam=d.bool(), seed=d.seed())


class Setup:
    pass


def setup(c):
    rng = rng_of(c["seed"])
    o = Setup()
    o.rng = rng
    P = o.P = patch_of(c, rng)
    o.l0, o.lf = bands_of(c, P)
    o.cuts = cuts_of(c, P)
    o.ok = P.clear(o.l0, o.lf, *o.cuts)
    o.bin = nmt.NmtBinFlat(o.l0, o.lf)
    o.m, o.t, o.s, o.pure = [], [], list(c["s"]), [list(p) for p in c["pure"]]
    o.n = [2 if s else 1 for s in o.s]
    sh = (P.ny, P.nx)
    for i in (0, 1):
        if i == 1 and c["same"]:
            o.m.append(o.m[0])
            o.t.append(o.t[0])
            o.pure[1] = o.pure[0]
            continue
        o.m.append(mask_of(P.ny, P.nx, c["mask"][i], rng))
        t = rng.standard_normal((c["nt"][i], o.n[i]) + sh)
        if len(t) and c["deg"]:
            t = np.concatenate([t, 2 * t[:1]])
        o.t.append(t)
    o.cond = 1.
    for i in (0, 1):
        if len(o.t[i]):
            A = (o.t[i] * o.m[i]).reshape(len(o.t[i]), -1)
            s = np.linalg.svd(A, compute_uv=False)
            if s[0] == 0:
                continue
            r = s / s[0]
            if np.any((r > 1e-9) & (r < 3e-2)):
                o.ok = False
            k = r[r > 1e-6][-1]
            # purified: unmasked templates are removed with coefficients
            # from the masked ones
            o.cond = max(o.cond, k**-2)
            if any(o.pure[i]) and np.any(r < 1e-6) and not c["deg"]:
                o.ok = False
    n = int(rng.integers(2, 12))
    km = max(float(np.max(P.k)), 1e-3)
    o.ls = np.sort(rng.uniform(0, 1.3, n)) * km
    o.g = rng.standard_normal((o.n[0] * o.n[1], n))
    if (o.s[0] + o.s[1]) % 2:
        o.ls[0] = 0.
        o.g[:, 0] = 0.
    o.beam = np.array([[0., km], [1., 0.5]]) if c["beam"] else None
    return o


def field(o, i, mp, temp=True, lite=False, masked_on_input=False):
    kw = {}
    if temp and len(o.t[i]):
        kw = dict(templates=o.t[i], tol_pinv=1e-8)
    return nmt.NmtFieldFlat(o.P.lx, o.P.ly, o.m[i], mp, spin=o.s[i],
                            purify_e=bool(o.pure[i][0]), beam=o.beam,
                            purify_b=bool(o.pure[i][1]), lite=lite,
                            masked_on_input=masked_on_input, **kw)


def bias(o, f1, f2, g=None, ls=None):
    return nmt.deprojection_bias_flat(
        f1, f2, o.bin, o.ls if ls is None else ls, o.g if g is None else g,
        ell_cut_x=o.cuts[0], ell_cut_y=o.cuts[1])


def labels(c, o, x):
    x.label("spins %d%d" % tuple(o.s), "%d+%d templates" % (
        len(o.t[0]), len(o.t[1])))
    if c["same"]:
        x.label("same field")
    if np.any(o.pure):
        x.label("purified")


def rand_maps(o, i):
    return o.rng.standard_normal((o.n[i], o.P.ny, o.P.nx))


def natural(o, g=None):
    """Size of the pseudo-spectra, to which rounding is relative."""
    S = np.max(np.abs(o.g if g is None else g)) * np.sqrt(
        np.mean(o.m[0]**2) * np.mean(o.m[1]**2))
    if np.any(o.pure):
        S *= (np.max(o.P.k) / min(o.P.dkx, o.P.dky))**2
    return S


def mean(c, x):
    o = setup(c)
    if not o.ok:
        return
    P = o.P
    labels(c, o, x)
    f1 = field(o, 0, rand_maps(o, 0))
    f2 = f1 if c["same"] else field(o, 1, rand_maps(o, 1))
    got = bias(o, f1, f2)
    C = np.array([interp(P.k, o.ls, q) for q in o.g]).reshape(
        (o.n[0], o.n[1]) + P.k.shape)
    want = np.zeros(got.shape)
    sc = natural(o)
    for q, (iy, ix), a in basis(P, o.s[0]):
        if (iy, ix) == (0, 0) and o.s[0] % 2:
            a = a * 1j
        m1 = P.maps(a, o.s[0])
        a2 = np.zeros((o.n[1],) + P.k.shape, dtype=complex)
        for t in range(o.n[1]):
            a2[t] = C[q, t, iy, ix] * a[q]
        m2 = P.maps(a2, o.s[1])
        for tmp, sg in ((True, 1), (False, -1)):
            cl = nmt.compute_coupled_cell_flat(
                field(o, 0, m1, tmp), field(o, 1, m2, tmp), o.bin,
                ell_cut_x=o.cuts[0], ell_cut_y=o.cuts[1])
            want += sg * cl
            sc += np.max(np.abs(cl))
    # scale of the individual terms, also where no band has modes
    x.close(got, want, atol=1e-10 * o.cond**2 * (
        sc + np.max(np.abs(got))), msg="deprojection bias")
    x.nontrivial(np.max(np.abs(want)) > 1e-9 * sc and
                 len(o.t[0]) + len(o.t[1]) > 0)


def relate(c, x):
    o = setup(c)
    if not o.ok:
        return
    P = o.P
    labels(c, o, x)
    f1 = field(o, 0, rand_maps(o, 0))
    f2 = f1 if c["same"] else field(o, 1, rand_maps(o, 1))
    got = bias(o, f1, f2)
    sc = np.max(np.abs(got)) + 1e-300
    # what it is linear in, and scale through the largest guess
    g2 = o.rng.standard_normal(o.g.shape)
    if (o.s[0] + o.s[1]) % 2:
        g2[:, 0] = 0.
    b2 = bias(o, f1, f2, g2)
    sc = max(sc, np.max(np.abs(b2)), natural(o), natural(o, g2))
    al = o.rng.uniform(-2, 2)
    tol = dict(rtol=0, atol=1e-9 * o.cond**2 * sc)
    x.close(bias(o, f1, f2, o.g + al * g2), got + al * b2,
            msg="linearity in the guess", **tol)
    n1, n2 = o.n
    gt = o.g.reshape(n1, n2, -1).transpose(1, 0, 2).reshape(n1 * n2, -1)
    x.close(bias(o, f2, f1, gt).reshape(n2, n1, -1).transpose(
        1, 0, 2).reshape(got.shape), got, msg="exchanged fields", **tol)
    # only the templates count, not the maps
    h1 = field(o, 0, rand_maps(o, 0))
    x.close(bias(o, h1, h1 if c["same"] else f2), got, msg="other maps",
            **tol)
    # maps and templates that come already masked
    ts = o.t
    o.t = [t * (m != 0) for t, m in zip(ts, o.m)]
    ref = bias(o, *[field(o, i, rand_maps(o, i)) for i in (0, 1)])
    o.t = [t * m for t, m in zip(ts, o.m)]
    h = [field(o, i, rand_maps(o, i) * o.m[i], masked_on_input=True)
         for i in (0, 1)]
    o.t = ts
    x.label("masked on input")
    x.close(bias(o, *h), ref, msg="masked on input", **tol)
    # the guess is interpolated linearly
    k = int(o.rng.integers(1, len(o.ls)))
    t = o.rng.uniform(0.2, 0.8)
    ls = np.insert(o.ls, k, (1 - t) * o.ls[k - 1] + t * o.ls[k])
    gi = np.insert(o.g, k, (1 - t) * o.g[:, k - 1] + t * o.g[:, k], axis=1)
    x.close(bias(o, f1, f2, gi, ls), got, msg="finer sampling of the guess",
            **tol)
    e1, e2 = field(o, 0, rand_maps(o, 0), False), field(
        o, 1, rand_maps(o, 1), False)
    x.check(np.all(bias(o, e1, e2) == 0), "bias without templates")
    l1 = field(o, 0, rand_maps(o, 0), lite=True)
    x.raises(lambda: bias(o, l1, f2), Exception, "lite field")
    x.nontrivial(np.max(np.abs(got)) > 1e-9 * sc)


def gen_rel(d):
    return gen(d, 9)


SUBS = [Sub("mean", gen, mean, quick=1500, thorough=8000),
        Sub("relate", gen_rel, relate, quick=1500, thorough=15000)]
