"""Reference models, written directly from the definitions and independent of
the library (numpy only)."""
from functools import lru_cache

import numpy as np
from math import lgamma


# --------------------------------------------------------------- Wigner d
def wigner_d(lmax, m, n, theta):
    """d^l_{mn}(theta) for all 0<=l<=lmax. Shape (lmax+1, len(theta))."""
    th = np.asarray(theta, dtype=float)
    if abs(n) > abs(m):
        return (-1.)**(m - n) * wigner_d(lmax, n, m, th)
    if m < 0:
        return (-1.)**(m - n) * wigner_d(lmax, -m, -n, th)
    out = np.zeros((lmax + 1, th.size))
    j = m
    if j > lmax:
        return out
    x = np.cos(th)
    lf = 0.5 * (lgamma(2 * j + 1) - lgamma(j + n + 1) - lgamma(j - n + 1))
    with np.errstate(divide="ignore", under="ignore", invalid="ignore"):
        lc = np.log(np.cos(th / 2)) * (j + n) if j + n else 0.
        ls = np.log(np.sin(th / 2)) * (j - n) if j - n else 0.
        out[j] = (-1.)**(j - n) * np.exp(lf + lc + ls)
    if j == 0 and lmax >= 1:
        out[1] = x
    for l in range(max(j, 1), lmax):
        a = (2 * l + 1) * (l * (l + 1) * x - m * n)
        b = (l + 1) * np.sqrt(float(l * l - m * m) * float(l * l - n * n))
        c = l * np.sqrt(float((l + 1)**2 - m * m) * float((l + 1)**2 - n * n))
        prev = out[l - 1] if l > 0 else 0.
        out[l + 1] = (a * out[l] - b * prev) / c
    return out


@lru_cache(maxsize=16)
def _gl(n):
    x, w = np.polynomial.legendre.leggauss(n)
    return np.arccos(x), w


@lru_cache(maxsize=64)
def _dgl(lmax, m, n, nn):
    return wigner_d(lmax, m, n, _gl(nn)[0])


def _np_fac(a, l):
    """Numerator (mask) factors of the purification terms."""
    if a == 0:
        return np.ones_like(l)
    if a == 1:
        return 2 * np.sqrt((l + 1) * l)
    return np.sqrt((l + 2) * (l + 1) * l * np.maximum(l - 1, 0))


def _dp_fac(a, l):
    """Denominator (field) factors of the purification terms."""
    if a == 0:
        return np.ones_like(l)
    ok = l > 1
    ll = np.where(ok, l, 2.)
    if a == 1:
        return np.where(ok, 1 / np.sqrt((ll + 2) * (ll - 1)), 0.)
    return np.where(ok, 1 / np.sqrt((ll + 2) * (ll + 1) * ll * (ll - 1)), 0.)


def xi_coeffs(pcl, lmax, s1, p1, s2, p2):
    """Parity-even and parity-odd sums over l1 of
    pcl(l1)(2l1+1)/4pi * W1(l1,l2,l3) * W2(l1,l2,l3), where W is the 3j symbol
    (l1 l2 l3; 0 s -s), or its purified counterpart when p is set (s must be
    2). Exact: Gauss-Legendre integration of products of Wigner d functions.
    Returns (even, odd), each [l2, l3]."""
    pcl = np.asarray(pcl, dtype=float)[:2 * lmax + 1]
    lm = len(pcl) - 1
    if (p1 or p2) and lmax <= 150:
        return _xi_pure(pcl, lmax, s1, p1, s2, p2)
    nn = (lm + 2 * lmax) // 2 + 2
    th, w = _gl(nn)
    l1 = np.arange(lm + 1.)
    l2 = np.arange(lmax + 1.)
    A = np.zeros((lmax + 1, lmax + 1))
    B = np.zeros((lmax + 1, lmax + 1))
    for a in ((0, 1, 2) if p1 else (0,)):
        for b in ((0, 1, 2) if p2 else (0,)):
            q = (pcl * (2 * l1 + 1) / (4 * np.pi)
                 * _np_fac(a, l1) * _np_fac(b, l1))
            dd = _dp_fac(a, l2) * _dp_fac(b, l2)
            for sg, M in ((1, A), (-1, B)):
                xi = q @ _dgl(lm, a, sg * b, nn)
                d2 = _dgl(lmax, s1 - a, sg * (s2 - b), nn)
                d3 = _dgl(lmax, -s1, -sg * s2, nn)
                M += dd[:, None] * 0.5 * ((d2 * (w * xi)) @ d3.T)
    return 0.5 * (A + B), 0.5 * (A - B)


def _xi_pure(pcl, lmax, s1, p1, s2, p2):
    """As xi_coeffs, integrating for each l1 separately: accurate when the
    purification factors have a large dynamic range."""
    lm = len(pcl) - 1
    nn = (lm + 2 * lmax) // 2 + 2
    th, w = _gl(nn)
    lf = np.arange(lmax + 1.)
    tri = np.abs(lf[:, None] - lf[None, :])
    trs = lf[:, None] + lf[None, :]
    par = (-1.)**trs
    ev = np.zeros((lmax + 1, lmax + 1))
    od = np.zeros((lmax + 1, lmax + 1))
    for a in ((0, 1, 2) if p1 else (0,)):
        for b in ((0, 1, 2) if p2 else (0,)):
            d1 = _dgl(lm, a, b, nn)
            d2 = _dgl(lmax, s1 - a, s2 - b, nn) * w
            d3 = _dgl(lmax, -s1, -s2, nn).T
            dd = (_dp_fac(a, lf) * _dp_fac(b, lf))[:, None]
            l1s = np.arange(lm + 1.)
            fa = (pcl * (2 * l1s + 1) / (4 * np.pi) * _np_fac(a, l1s)
                  * _np_fac(b, l1s))
            for l1 in range(lm + 1):
                if fa[l1] == 0:
                    continue
                t = 0.5 * ((d2 * d1[l1]) @ d3)
                t *= dd * fa[l1] * ((tri <= l1) & (l1 <= trs))
                even = par * (-1.)**l1 > 0
                ev += np.where(even, t, 0)
                od += np.where(even, 0, t)
    return ev, od


def mcm_iso(pcl, lmax, s1, s2, pe1=0, pb1=0, pe2=0, pb2=0, is_teb=False):
    """Unbinned coupling matrix in the library's documented ordering."""
    L = lmax + 1
    sgn = (-1.)**(s1 + s2)
    fac = sgn * (2 * np.arange(L) + 1.)[None, :]

    @lru_cache(maxsize=None)
    def xi(x1, q1, x2, q2):
        e, o = xi_coeffs(pcl, lmax, x1, q1, x2, q2)
        return fac * e, fac * o

    if is_teb:
        s = s2
        n = 7
        M = np.zeros((L, n, L, n))
        one = (2 * np.arange(L) + 1.)[None, :]
        # every block carries the sign of its own pair of spins
        M[:, 0, :, 0] = one * xi_coeffs(pcl, lmax, 0, 0, 0, 0)[0]
        sg = (-1.)**s
        for k, p in ((1, pe2), (2, pb2)):
            M[:, k, :, k] = sg * one * xi_coeffs(pcl, lmax, 0, 0, s, p)[0]
        blk = [(pe2, pe2), (pe2, pb2), (pb2, pe2), (pb2, pb2)]
        sw = [3, 2, 1, 0]
        sn = [1, -1, -1, 1]
        for k, (q1, q2) in enumerate(blk):
            e, o = xi_coeffs(pcl, lmax, s, q1, s, q2)
            M[:, 3 + k, :, 3 + k] = one * e
            M[:, 3 + k, :, 3 + sw[k]] += sn[k] * one * o
        return M.reshape(n * L, n * L)
    if s1 == 0 and s2 == 0:
        return xi(0, 0, 0, 0)[0]
    if s1 == 0 or s2 == 0:
        M = np.zeros((L, 2, L, 2))
        for k, (q1, q2) in enumerate(((pe1, pe2), (pb1, pb2))):
            M[:, k, :, k] = xi(s1, q1 if s1 else 0, s2, q2 if s2 else 0)[0]
        return M.reshape(2 * L, 2 * L)
    M = np.zeros((L, 4, L, 4))
    blk = [(pe1, pe2), (pe1, pb2), (pb1, pe2), (pb1, pb2)]
    sw = [3, 2, 1, 0]
    sn = [1, -1, -1, 1]
    for k, (q1, q2) in enumerate(blk):
        e, o = xi(s1, q1, s2, q2)
        M[:, k, :, k] = e
        M[:, k, :, sw[k]] += sn[k] * o
    return M.reshape(4 * L, 4 * L)
