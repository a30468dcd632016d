"""Direct spin-weighted spherical harmonic sums (reference transforms), with
the HEALPix sign conventions. Dense matrices: small problems only."""
import numpy as np
from functools import lru_cache
from lib.ref import wigner_d


def nalm(lmax):
    return (lmax + 1) * (lmax + 2) // 2


@lru_cache(maxsize=64)
def lm_index(lmax):
    """l and m of every coefficient in healpy order."""
    ls = np.concatenate([np.arange(m, lmax + 1) for m in range(lmax + 1)])
    ms = np.concatenate([np.full(lmax + 1 - m, m) for m in range(lmax + 1)])
    return ls, ms


def sylm(s, lmax, theta, phi):
    """_sY_lm for m in -lmax..lmax. Shape (2lmax+1, lmax+1, npoints)."""
    theta = np.atleast_1d(np.asarray(theta, float))
    phi = np.atleast_1d(np.asarray(phi, float))
    ut, inv = np.unique(theta, return_inverse=True)
    out = np.zeros((2 * lmax + 1, lmax + 1, theta.size), dtype=complex)
    norm = np.sqrt((2 * np.arange(lmax + 1) + 1) / (4 * np.pi))
    for m in range(-lmax, lmax + 1):
        d = wigner_d(lmax, m, -s, ut) * norm[:, None]
        out[m + lmax] = d[:, inv] * np.exp(1j * m * phi)
    return out * (-1.)**s


def full_alm(alm, lmax):
    """a_lm for m=-lmax..lmax from the m>=0 coefficients of a real field.
    Shape (2lmax+1, lmax+1)."""
    ls, ms = lm_index(lmax)
    out = np.zeros((2 * lmax + 1, lmax + 1), dtype=complex)
    a = np.array(alm, dtype=complex)
    a = np.where(ms == 0, a.real, a)
    out[ms + lmax, ls] = a
    q = ms > 0
    out[-ms[q] + lmax, ls[q]] = (-1.)**ms[q] * np.conj(a[q])
    return out


class SHT:
    """Reference transform on a fixed set of points."""

    def __init__(self, lmax, theta, phi):
        self.lmax, self.theta, self.phi = lmax, theta, phi
        self._y = {}

    def y(self, s):
        if s not in self._y:
            self._y[s] = sylm(s, self.lmax, self.theta, self.phi)
        return self._y[s]

    def synth(self, alm, spin):
        """alm: (ncomp, nalm) -> (ncomp, npoints)"""
        if spin == 0:
            f = full_alm(alm[0], self.lmax)
            return np.array([np.einsum('ml,mlp->p', f, self.y(0)).real])
        e = full_alm(alm[0], self.lmax)
        b = full_alm(alm[1], self.lmax)
        z = -np.einsum('ml,mlp->p', e + 1j * b, self.y(spin))
        return np.array([z.real, z.imag])

    def anal(self, maps, spin, w):
        """Sum over points of w * map * conj(Y)."""
        lmax = self.lmax
        ls, ms = lm_index(lmax)
        if spin == 0:
            a = np.einsum('p,mlp->ml', w * maps[0], np.conj(self.y(0)))
            return np.array([a[ms + lmax, ls]])
        z = w * (maps[0] + 1j * maps[1])
        a = -np.einsum('p,mlp->ml', z, np.conj(self.y(spin)))
        # _s a = -(E+iB) removed the sign; E and B from m and -m
        am = (-1.)**ms * np.conj(a[-ms + lmax, ls])
        ap = a[ms + lmax, ls]
        return np.array([(ap + am) / 2, (ap - am) / 2j])


def basis(lmax):
    """Real basis of the coefficients of a real field, normalised so that
    unit power at l corresponds to unit-variance amplitudes. Yields (l, alm).
    """
    ls, ms = lm_index(lmax)
    out = []
    for i, (l, m) in enumerate(zip(ls, ms)):
        a = np.zeros(len(ls), dtype=complex)
        if m == 0:
            a[i] = 1.
            out.append((l, a))
        else:
            a[i] = 1 / np.sqrt(2)
            out.append((l, a))
            out.append((l, 1j * a))
    return out
