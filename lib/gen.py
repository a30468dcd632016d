"""Shared builders: masks, grids, bands from small JSON descriptions."""
import numpy as np
import healpy as hp
import pymaster as nmt


def rng_of(seed, *extra):
    return np.random.default_rng([int(seed)] + [int(e) for e in extra])


MASK_KINDS = ["random", "binary", "smooth", "ones", "point", "signed", "cap",
              "tiny"]


def hp_mask(nside, kind, rng):
    npix = hp.nside2npix(nside)
    if kind == "random":
        return rng.random(npix)
    if kind == "binary":
        m = (rng.random(npix) < 0.7).astype(float)
        m[int(rng.integers(npix))] = 1.
        return m
    if kind == "ones":
        return np.ones(npix)
    if kind == "point":
        m = np.zeros(npix)
        m[rng.integers(npix)] = 1.
        m[rng.integers(npix)] = 0.5
        return m
    if kind == "signed":
        return rng.standard_normal(npix)
    x = np.array(hp.pix2vec(nside, np.arange(npix)))
    v = rng.standard_normal(3)
    v /= np.sqrt(v @ v)
    c = v @ x
    if kind == "cap":
        return (c > rng.uniform(-0.8, 0.5)).astype(float)
    if kind == "tiny":
        return 1e-6 * (1.2 + c)
    return 0.5 * (1 + c) * (1 + 0.3 * x[2])


def car_wcs(ny, nx, flip_t=False, flip_p=False, ra0=0., patch=None):
    """Full-sky Clenshaw-Curtis plate carree grid with ny rows (both poles
    included) and nx columns. flip_t: declination grows with the row index;
    flip_p: right ascension decreases with the column index. ra0: longitude
    of the reference pixel. patch=(i0, ni, j0, nj): rows and columns kept.
    Returns (wcs, theta, phi), with the angles of every pixel (2D)."""
    from astropy.wcs import WCS
    w = WCS(naxis=2)
    dth = 180. / (ny - 1)
    dph = 360. / nx
    sp = -1 if flip_p else 1
    sd = 1 if flip_t else -1
    i0, ni, j0, nj = patch if patch else (0, ny, 0, nx)
    w.wcs.cdelt = [sp * dph, sd * dth]
    w.wcs.crval = [ra0, 0.]
    w.wcs.crpix = [nx // 2 + 1 - j0, (ny - 1) / 2. + 1 - i0]
    w.wcs.ctype = ["RA---CAR", "DEC--CAR"]
    dec = sd * dth * (np.arange(i0, i0 + ni) - (ny - 1) / 2.)
    ra = ra0 + sp * dph * (np.arange(j0, j0 + nj) - nx // 2)
    th = np.radians(90 - dec)
    ph = np.radians(ra)
    th, ph = np.meshgrid(th, ph, indexing="ij")
    return w, th, ph


def bins_of(spec):
    """spec: dict(lmax, ells, bpws, weights?, f_ell?)"""
    kw = {}
    for k in ("weights", "f_ell"):
        if spec.get(k) is not None:
            kw[k] = np.array(spec[k], dtype=float)
    return nmt.NmtBin(bpws=np.array(spec["bpws"]), ells=np.array(
        spec["ells"]), lmax=spec["lmax"], **kw)


def rand_bins(lmax, rng, lmin=0, nbmax=8, with_f=True, gaps=True,
              with_w=True, overlap=False):
    """Random contiguous-ish bands. Returns (NmtBin, W) with W[b,l] the
    weight-times-prefactor matrix and F[b,l] the unbinning matrix."""
    nb = int(rng.integers(1, max(1, min(nbmax, lmax + 1 - lmin)) + 1))
    cuts = np.sort(rng.choice(np.arange(lmin + 1, lmax + 1),
                              size=min(nb - 1, lmax - lmin), replace=False)
                   ) if nb > 1 else np.array([], dtype=int)
    e = np.concatenate([[lmin], cuts, [lmax + 1]]).astype(int)
    nb = len(e) - 1
    ells = np.arange(lmax + 1)
    bpw = np.full(lmax + 1, -1)
    for i in range(nb):
        bpw[e[i]:e[i + 1]] = i
    if gaps:
        for i in range(nb):
            if e[i + 1] - e[i] > 2 and rng.random() < 0.3:
                bpw[int(rng.integers(e[i], e[i + 1]))] = -1
    w = rng.random(lmax + 1) + 0.2 if (with_w and rng.random() < 0.6) \
        else np.ones(lmax + 1)
    f = np.ones(lmax + 1)
    if with_f:
        r = rng.random()
        if r < 0.3:
            f = rng.random(lmax + 1) + 0.3
        elif r < 0.6:
            f = ells * (ells + 1.) / (2 * np.pi)
    if overlap and nb > 1:
        # some multipoles also belong to the next or the previous band
        more = [(i, l) for i in range(nb) for l in range(lmin, lmax + 1)
                if bpw[l] >= 0 and abs(bpw[l] - i) == 1 and rng.random() < 0.3]
        if more:
            bpw = np.concatenate([bpw, [i for i, _ in more]])
            ells = np.concatenate([ells, [l for _, l in more]])
            w = np.concatenate([w, w[[l for _, l in more]] * 0.3])
            f = f[ells]
            p = rng.permutation(len(ells))
            bpw, ells, w, f = bpw[p], ells[p], w[p], f[p]
    b = nmt.NmtBin(bpws=bpw, ells=ells, lmax=lmax, weights=w, f_ell=f)
    ff = np.where(f > 0, f, 1.)
    W = np.zeros((nb, lmax + 1))
    F = np.zeros((nb, lmax + 1))
    for i in range(nb):
        q = bpw == i
        W[i, ells[q]] = w[q] / np.sum(w[q]) * ff[q]
        F[i, ells[q]] = 1. / ff[q]
    return b, W, F
