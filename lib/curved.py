"""Exactly solvable curved-sky problems: band-limited skies and masks on
Clenshaw-Curtis grids that integrate all the products involved exactly."""
import numpy as np
import pymaster as nmt
from lib import sht
from lib.gen import car_wcs


class Grid:
    """Full-sky grid exact for products of total degree `deg`."""

    def __init__(self, deg, g):
        self.ny = deg + 2 + g.get("dy", 0)
        self.nx = deg + 1 + g.get("dx", 0)
        self.wcs, th, ph = car_wcs(self.ny, self.nx, g.get("ft", 0),
                                   g.get("fp", 0), ra0=g.get("ra0", 0.))
        self.shape = th.shape
        self.th, self.ph = th.ravel(), ph.ravel()
        self._s = {}

    def sht(self, lmax):
        if lmax not in self._s:
            self._s[lmax] = sht.SHT(lmax, self.th, self.ph)
        return self._s[lmax]

    def synth(self, alm, spin, lmax):
        m = self.sht(lmax).synth(np.atleast_2d(alm), spin)
        return m.reshape((len(m),) + self.shape)

    def basis_maps(self, spin, lmax):
        """[(comp, l, index of (l,m,part), map)] for every real harmonic
        degree of freedom."""
        out = []
        b = sht.basis(lmax)
        n = 2 if spin else 1
        for c in range(n):
            for k, (l, a) in enumerate(b):
                if l < spin:
                    continue
                al = np.zeros((n, len(a)), dtype=complex)
                al[c] = a
                out.append((c, int(l), k, self.synth(al, spin, lmax)))
        return out

    def rand_alm(self, lmax, rng, spin=0, lmin=None):
        ls, ms = sht.lm_index(lmax)
        n = 2 if spin else 1
        a = (rng.standard_normal((n, len(ls)))
             + 1j * rng.standard_normal((n, len(ls))))
        a[:, ms == 0] = a[:, ms == 0].real
        a[:, ls < (abs(spin) if lmin is None else lmin)] = 0
        return a

    def rand_map(self, lmax, rng, spin=0):
        return self.synth(self.rand_alm(lmax, rng, spin), spin, lmax)


def gen_grid(d):
    return dict(dy=d.int(0, 3), dx=d.int(0, 4), ft=int(d.bool()),
                fp=int(d.bool()), ra0=d.choice([0., 0., 40., 180., 300.]))


def masks(grid, lm, rng, spin, aniso, kind="random"):
    """Band-limited isotropic mask, or anisotropic weights for a given
    spin. Returns dict of NmtField keyword arguments (mask first)."""
    m = grid.rand_map(lm, rng)[0]
    if kind == "positive":
        m = m / np.max(np.abs(m)) + 1.05
    elif kind == "const":
        m = np.ones(grid.shape) * rng.uniform(0.3, 2)
    if not aniso:
        return dict(mask=m)
    m = m / np.max(np.abs(m)) + 1.6
    q = np.zeros((2,) + grid.shape)
    if 2 * spin <= lm:
        q = grid.rand_map(lm, rng, 2 * spin)
        q = 0.55 * q / np.max(np.sqrt(q[0]**2 + q[1]**2))
    return dict(mask=m + q[0], mask_22=m - q[0], mask_12=q[1])


def basis_fields(grid, mk, spin, lmax, kw, beam=None):
    out = {}
    for c, l, k, mp in grid.basis_maps(spin, lmax):
        if beam is not None:
            mp = mp * beam[l]
        out[(c, k)] = (l, nmt.NmtField(mk["mask"], mp, spin=spin,
                                       wcs=grid.wcs,
                                       mask_22=mk.get("mask_22"),
                                       mask_12=mk.get("mask_12"),
                                       beam=beam, **kw))
    return out


def response(b1, b2, n1, n2, lmax, cell=None):
    """Exact ensemble response of the pseudo-spectra to the spectra:
    R[i, l, j, l'] summed over the modes of every sky multipole."""
    if cell is None:
        cell = nmt.compute_coupled_cell
    R = np.zeros((n1 * n2, lmax + 1, n1 * n2, lmax + 1))
    for (c1, k), (l, f1) in b1.items():
        for c2 in range(n2):
            if (c2, k) not in b2:
                continue
            f2 = b2[(c2, k)][1]
            R[:, :, c1 * n2 + c2, l] += cell(f1, f2)
    return R
