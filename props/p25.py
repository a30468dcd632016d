"""P25: flat-sky Gaussian covariance."""
import numpy as np
import pymaster as nmt
from lib.flat import Patch
from lib.gen import rng_of
from lib.pbt import Sub
from props.p11 import reference
from props.p21 import (bands_of, beam_of, beamprod, cuts_of, gen_bands,
                       gen_cuts, gen_patch, mask_of, patch_of, MASKS)

RULE = ("Non-trivial: at least one band with Fourier modes in it, masks that "
        "are not all constant and binned coupling matrices with condition "
        "number below 1e7.")
ASSUMPTIONS = ["the library uses the spin-2 coefficients for every non-zero "
               "spin", "Fourier modes are not on the edge of a band to "
               "rounding"]
WHO = [[0, 1, 2, 3], [0, 1, 0, 1], [0, 0, 0, 0], [0, 1, 1, 0], [0, 1, 0, 2],
       [0, 0, 1, 1], [0, 1, 2, 1]]


def gen(d):
    s = [d.choice([0, 0, 2, 2, 1]) for _ in range(4)]
    if d.choice([0, 0, 1]):
        s[2:] = s[:2]
    p, b = gen_patch(d, 7), gen_bands(d)
    if d.choice([True, True, True, False]):
        p["nx"] += 3
        p["ny"] += 3
        b["nb"] = min(b["nb"], 3)
    return dict(patch=p, bands=b, s=s,
                who=d.choice(WHO), cuts=gen_cuts(d), beams=d.bool(),
                mask=[d.choice(MASKS) for _ in range(4)],
                nl=d.int(2, 20), hi=d.bool(), lo=d.bool(), sm=d.bool(),
                seed=d.seed())


class Obj:
    pass


def coeffs(P, m, b, nb):
    """Mode-coupling coefficients of each pair of bands. m: masks a, c, b, d
    of the pairing (ac)(bd)."""
    fa = np.fft.fft2(m[0] * m[1]) * P.lx * P.ly / (P.nx * P.ny)
    fb = np.fft.fft2(m[2] * m[3]) * P.lx * P.ly / (P.nx * P.ny)
    M = (fa * np.conj(fb)).real / (4 * np.pi**2)
    iy, ix = [x.ravel() for x in np.mgrid[:P.ny, :P.nx]]
    M = M[np.subtract.outer(iy, iy) % P.ny, np.subtract.outer(ix, ix) % P.nx]
    dp = 2 * np.subtract.outer(P.phi.ravel(), P.phi.ravel())
    bf = b.ravel()
    W = np.array([(bf == i) / max(1., np.sum(bf == i)) for i in range(nb)])
    area = P.lx * P.ly
    n = 4 * np.pi**2 / area**2
    q = dict(zip(("00", "02", "++", "--"), (
        M, M * np.cos(dp), M * np.cos(dp)**2, M * np.sin(dp)**2)))
    out = {k: n * np.einsum("ai,ij,bj->ab", W, v, W, optimize=True)
           for k, v in q.items()}
    out["size"] = n * np.max(np.abs(M))   # before the average over modes
    return out


def setup(c, x):
    o = Obj()
    rng = o.rng = rng_of(c["seed"])
    P = o.P = patch_of(c, rng)
    o.l0, o.lf = bands_of(c, P)
    o.nb = len(o.l0)
    o.ok = P.clear(o.l0, o.lf)
    o.cx, o.cy = cuts_of(c, P)
    if not o.ok or not P.clear(o.l0, o.lf, o.cx, o.cy):
        o.ok = False
        return o
    _, o.bnc = P.bands(o.l0, o.lf)
    o.bcut = P.bands(o.l0, o.lf, o.cx, o.cy)[0]
    o.bin = nmt.NmtBinFlat(o.l0, o.lf)
    m = [mask_of(P.ny, P.nx, k, rng) for k in c["mask"]]
    o.m = [m[i] for i in c["who"]]
    o.s = c["s"]
    o.n = [2 if s else 1 for s in o.s]
    bm = [beam_of(P, rng) if c["beams"] else None for _ in range(4)]
    o.beam = [bm[i] for i in c["who"]]
    o.F = [nmt.NmtFieldFlat(P.lx, P.ly, o.m[i], None, spin=o.s[i],
                            beam=o.beam[i]) for i in range(4)]
    o.xi = [coeffs(P, [o.m[i] for i in q], o.bnc, o.nb)
            for q in ((0, 2, 1, 3), (0, 3, 1, 2))]
    x.label("spins " + "".join(map(str, o.s)))
    return o


def spectra(o, c):
    """Guess spectra and their values at the centre of the bands."""
    rng, P = o.rng, o.P
    lc = 0.5 * (o.l0 + o.lf)
    lo = 0. if c["lo"] else rng.uniform(0., 1.) * lc[-1]
    hi = o.lf[-1] if c["hi"] else rng.uniform(0.5, 1.2) * lc[-1]
    if hi <= lo:
        lo, hi = 0., o.lf[-1]
    l = np.sort(np.concatenate([[lo, hi], rng.uniform(lo, hi, c["nl"])]))
    cls = [rng.standard_normal((o.n[i], o.n[j], len(l)))
           for i, j in ((0, 2), (0, 3), (1, 2), (1, 3))]
    return l, cls, [np.array([[np.interp(lc, l, q) for q in r] for r in y])
                    for y in cls]


def workspaces(o):
    ws, K = [], []
    P = o.P
    for k in (0, 2):
        w = nmt.NmtWorkspaceFlat()
        w.compute_coupling_matrix(o.F[k], o.F[k + 1], o.bin, ell_cut_x=o.cx,
                                  ell_cut_y=o.cy)
        C = P.coupling(o.m[k], o.m[k + 1], o.s[k], o.s[k + 1],
                       beam2=beamprod(P, o.beam[k:k + 2]))
        B = P.bin_cols(P.bin_rows(C, o.bcut, o.nb), o.bnc, o.nb)
        n = C.shape[0] * o.nb
        B = B.transpose(1, 0, 3, 2).reshape(n, n)
        sv = np.linalg.svd(B, compute_uv=False)
        S = np.max(np.sum(np.abs(C), axis=(2, 3)))
        cond = S / sv[-1] if sv[-1] > 0 else np.inf
        ws.append(w)
        K.append((B, cond))
    return ws, K


def call(cw, o, l, cls, wa, wb):
    return nmt.gaussian_covariance_flat(cw, *o.s, l, *[
        y.reshape(-1, y.shape[-1]) for y in cls], wa, wb)


def workspace(o, idx=(0, 1, 2, 3), **kw):
    cw = nmt.NmtCovarianceWorkspaceFlat()
    F = [o.F[i] for i in idx]
    cw.compute_coupling_coefficients(F[0], F[1], o.bin, F[2], F[3], **kw)
    return cw


def fn(c, x):
    o = setup(c, x)
    if not o.ok:
        return
    ws, K = workspaces(o)
    cd = max(k[1] for k in K)
    if not cd < 1e7:
        x.label("singular")
        return
    x.nontrivial(any(np.ptp(m) > 0 for m in o.m))
    if c["sm"] and c["who"][:2] == c["who"][2:] and o.s[:2] == o.s[2:]:
        x.label("same pair")
        cw = nmt.NmtCovarianceWorkspaceFlat()
        cw.compute_coupling_coefficients(o.F[0], o.F[1], o.bin)
    else:
        cw = workspace(o, bin_b=nmt.NmtBinFlat(o.l0, o.lf) if c["sm"] else
                       None)
    l, cls, bcl = spectra(o, c)
    na, nb = o.n[0] * o.n[1], o.n[2] * o.n[3]
    ref = reference(o.xi, o.s, bcl, o.nb)
    ref = ref.reshape(o.nb * na, o.nb * nb)
    want = np.linalg.solve(K[0][0], np.linalg.solve(K[1][0], ref.T).T)
    got = call(cw, o, l, cls, *ws)
    # scale of the terms in the products
    inv = [np.linalg.inv(k[0]) for k in K]
    sx = max(q["size"] for q in o.xi) * np.max(
        [np.max(np.abs(v)) for v in bcl])**2
    sc = np.max(np.abs(inv[0])) * np.max(np.abs(inv[1])) * max(
        sx, np.max(np.abs(ref)))
    tol = 1e-13 * (K[0][1] + K[1][1]) + 1e-10
    x.close(got, want, atol=tol * sc, msg="covariance")
    cwt = workspace(o, (2, 3, 0, 1))
    ct = [cls[0].transpose(1, 0, 2), cls[2].transpose(1, 0, 2),
          cls[1].transpose(1, 0, 2), cls[3].transpose(1, 0, 2)]
    ot = Obj()
    ot.s = o.s[2:] + o.s[:2]
    tr = call(cwt, ot, l, ct, ws[1], ws[0])
    x.close(tr.T, got, atol=tol * sc, msg="exchanged pairs")


def gen_sym(d):
    c = gen(d)
    c["s"] = c["s"][:2] * 2
    c["who"] = [0, 1, 0, 1]
    return c


def fn_sym(c, x):
    o = setup(c, x)
    if not o.ok:
        return
    ws, K = workspaces(o)
    cd = max(k[1] for k in K)
    if not cd < 1e5:
        x.label("singular")
        return
    x.nontrivial(any(np.ptp(m) > 0 for m in o.m))
    cw = workspace(o)
    l, cls, bcl = spectra(o, c)
    rng = o.rng
    n0, n1 = o.n[:2]
    z = rng.standard_normal((n0 + n1, n0 + n1, len(l)))
    z = z + z.transpose(1, 0, 2)
    aa, ab, bb = z[:n0, :n0], z[:n0, n0:], z[n0:, n0:]
    cl = [aa, ab, ab.transpose(1, 0, 2), bb]
    inv = np.linalg.inv(K[0][0])
    sc = np.max(np.abs(inv))**2 * 100. * max(
        q["size"] for q in o.xi)
    tol = (1e-13 * cd + 1e-10) * sc
    k = call(cw, o, l, cl, ws[0], None)
    x.close(k, k.T, atol=tol, msg="symmetric")
    x.close(call(cw, o, l, cl, ws[0], ws[1]), k, atol=tol,
            msg="wb given explicitly")
    for idx in ((0, 1), (2, 3)):
        # linear in (C_ac, C_ad) for fixed (C_bc, C_bd), and conversely
        a, e = rng.uniform(-2, 2, 2)
        l1 = [cls[i] if i in idx else cl[i] for i in range(4)]
        l2 = [a * cl[i] + e * cls[i] if i in idx else cl[i]
              for i in range(4)]
        k1 = call(cw, o, l, l1, ws[0], None)
        k2 = call(cw, o, l, l2, ws[0], None)
        x.close(k2, a * k + e * k1, atol=8 * tol, msg="bilinear")


def gen_white(d):
    p = gen_patch(d, 3)
    p["nx"] = 2 * p["nx"] + 1
    p["ny"] = 2 * p["ny"] + 1
    return dict(patch=p, bands=gen_bands(d), s=[d.choice([0, 2])] * 4 if
                d.bool() else [d.choice([0, 2]) for _ in range(4)],
                who=d.choice(WHO), beams=False,
                cuts=dict(x="no", y="no", cseed=0),
                mask=[d.choice(["random", "signed", "smooth", "ones",
                                "stripe"]) for _ in range(4)], seed=d.seed())


def fn_white(c, x):
    """White skies (equal E and B power; no correlation between spins):
    exact covariance of the pseudo-spectra for the components with no
    parity-odd coupling, from the fields of all pixels."""
    o = setup(c, x)
    if not o.ok:
        return
    P = o.P
    o.bin = nmt.NmtBinFlat(o.l0, o.lf)
    ws, K = workspaces(o)
    cd = max(k[1] for k in K)
    if not cd < 1e6:
        x.label("singular")
        return
    npix = P.nx * P.ny
    # unit power: pixel variance 4 pi^2 ... n_pix / area
    var = npix / P.area

    def cov(i, j):
        """<first component of i, of j> at all pairs of modes, per unit
        power; real and imaginary parts."""
        if o.s[i] != o.s[j]:
            return np.zeros((npix, npix), dtype=complex)
        n = o.n[i]
        A = np.zeros((2, n * npix, npix), dtype=complex)
        for q in range(n * npix):
            e = np.zeros((n, P.ny, P.nx))
            e.reshape(-1)[q] = 1.
            for t, f in enumerate((i, j)):
                A[t, q] = P.alms(e * o.m[f], o.s[i])[0].ravel()
        return var * A[0].T @ A[1].conj()
    C = o.rng.random((2, 2)) + 0.3
    bf = o.bnc.ravel()
    W = np.array([(bf == i) / max(1., np.sum(bf == i))
                  for i in range(o.nb)]) * 4 * np.pi**2 / P.area

    def full(k1, k2):
        # <a c*> <b* d> : sum over pairs of modes
        return np.einsum("ai,ij,bj->ab", W, (k1 * np.conj(k2)).real, W,
                         optimize=True)
    ref = np.array([C[0, 0] * C[1, 1] * full(cov(0, 2), cov(1, 3)),
                    C[0, 1] * C[1, 0] * full(cov(0, 3), cov(1, 2))])
    tot = ref.sum(0)
    x.nontrivial(np.any(tot))
    lc = 0.5 * (o.l0 + o.lf)
    l = np.array([0., lc[-1] * 1.1])

    def guess(i, j, v):
        r = np.zeros((o.n[i], o.n[j], 2))
        if o.s[i] == o.s[j]:
            for k in range(o.n[i]):
                r[k, k] = v
        return r
    cl = [guess(0, 2, C[0, 0]), guess(0, 3, C[0, 1]), guess(1, 2, C[1, 0]),
          guess(1, 3, C[1, 1])]
    cw = workspace(o)
    got = call(cw, o, l, cl, *ws)
    # back to the covariance of the pseudo-spectra
    got = K[0][0] @ got @ K[1][0].T
    got = got.reshape([o.nb, o.n[0], o.n[1], o.nb, o.n[2], o.n[3]])
    sc = np.max(np.abs(ref)) + np.max(np.abs(o.xi[0]["00"])) + np.max(
        np.abs(o.xi[1]["00"]))
    for i in np.ndindex(*o.n):
        def zero(a, b):
            return o.n[a] == 2 == o.n[b] and i[a] != i[b]
        odd = [zero(0, 2), zero(1, 3), zero(0, 3), zero(1, 2)]
        if (odd[0] and o.s[1] == o.s[3]) or (
                odd[1] and o.s[0] == o.s[2]) or (
                odd[2] and o.s[1] == o.s[2]) or (
                odd[3] and o.s[0] == o.s[3]):
            continue
        x.close(got[:, i[0], i[1], :, i[2], i[3]], tot,
                atol=(1e-12 * cd + 1e-10) * cd * 1e-2 * sc + 1e-9 * sc,
                msg=f"exact covariance of white skies, components {i}")


def gen_big(d):
    return dict(n=d.int(10, 60), seed=d.seed())


def fn_big(c, x):
    """Gap-free white noise in a single band with all modes: the variance of
    the mean power is 2 C^2 / n_modes, whatever the number of modes."""
    n = c["n"]
    rng = rng_of(c["seed"])
    n2 = n + (n % 7)
    lx, ly = rng.uniform(0.01, 0.1, 2)
    P = Patch(n2, n, float(lx), float(ly))
    m = np.ones((n, n2))
    f = nmt.NmtFieldFlat(P.lx, P.ly, m, None, spin=0)
    b = nmt.NmtBinFlat(np.array([0.]), np.array([np.max(P.k) * 1.01]))
    cw = nmt.NmtCovarianceWorkspaceFlat()
    cw.compute_coupling_coefficients(f, f, b)
    w = nmt.NmtWorkspaceFlat()
    w.compute_coupling_matrix(f, f, b)
    a = rng.uniform(0.5, 2)
    cl = np.array([[a, a]])
    l = np.array([0., np.max(P.k)])
    k = nmt.gaussian_covariance_flat(cw, 0, 0, 0, 0, l, cl, cl, cl, cl, w)
    x.nontrivial(True)
    x.close(k, np.array([[2 * a**2 / (n * n2)]]), 1e-9, msg="variance of a "
            "single band")


SUBS = [
    Sub("formula", gen, fn, 1400, 60000),
    Sub("symmetry", gen_sym, fn_sym, 500, 15000),
    Sub("white", gen_white, fn_white, 300, 8000, weight=5.),
    Sub("many", gen_big, fn_big, 16, 100, weight=50.,
        examples=[dict(n=217, seed=1)]),
]
