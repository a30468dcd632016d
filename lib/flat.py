"""Reference for flat-sky fields: everything is a direct sum over the full
Fourier plane of the patch."""
import numpy as np


class Patch:
    def __init__(self, nx, ny, lx, ly):
        self.nx, self.ny, self.lx, self.ly = nx, ny, lx, ly
        self.dkx, self.dky = 2 * np.pi / lx, 2 * np.pi / ly
        ix, iy = np.arange(nx), np.arange(ny)
        # Nyquist frequencies count as positive
        self.jx = np.where(2 * ix <= nx, ix, ix - nx)
        self.jy = np.where(2 * iy <= ny, iy, iy - ny)
        self.kx = np.where(2 * ix <= nx, ix * self.dkx,
                           -((nx - ix) * self.dkx))
        self.ky = np.where(2 * iy <= ny, iy * self.dky,
                           -((ny - iy) * self.dky))
        self.KX, self.KY = np.meshgrid(self.kx, self.ky)
        self.k = np.sqrt(self.KX**2 + self.KY**2)
        self.phi = np.arctan2(self.KY, self.KX)
        self.area = lx * ly
        # index of -k, and modes for which +-k are not both on the grid
        IX, IY = np.meshgrid(ix, iy)
        self.right = 2 * IX <= nx
        self.cIX, self.cIY = (nx - IX) % nx, (ny - IY) % ny

    def hermit(self, a):
        """Left half plane from the right one."""
        return np.where(self.right, a, np.conj(a[self.cIY, self.cIX]))

    def fft(self, m):
        return self.area / (2 * np.pi * self.nx * self.ny) * np.fft.fft2(m)

    def ifft(self, a):
        return 2 * np.pi * self.nx * self.ny / self.area * np.fft.ifft2(a)

    def alms(self, maps, spin):
        a = [self.fft(m) for m in maps]
        if spin == 0:
            return [self.hermit(a[0])]
        s = -(1j)**spin
        c, n = np.cos(spin * self.phi), np.sin(spin * self.phi)
        return [self.hermit(s * (a[0] * c - a[1] * n)),
                self.hermit(s * (a[0] * n + a[1] * c))]

    def maps(self, alms, spin):
        """Inverse of alms (no Nyquist modes for spin>0)."""
        if spin == 0:
            return np.array([self.ifft(alms[0]).real])
        s = -(-1j)**spin
        c, n = np.cos(spin * self.phi), np.sin(spin * self.phi)
        return np.array([self.ifft(s * (alms[0] * c + alms[1] * n)).real,
                         self.ifft(s * (-alms[0] * n + alms[1] * c)).real])

    def bands(self, l0, lf, cx=(1., -1.), cy=(1., -1.)):
        """Band of every mode, with and without mode cuts (-1: none)."""
        b = np.full(self.k.shape, -1)
        for i in range(len(l0)):
            b[(self.k >= l0[i]) & (self.k < lf[i])] = i
        cut = ((self.KX >= cx[0]) & (self.KX <= cx[1])) | \
            ((self.KY >= cy[0]) & (self.KY <= cy[1]))
        return np.where(cut, -1, b), b

    def clear(self, l0, lf, cx=(1., -1.), cy=(1., -1.), eps=1e-9):
        """No mode sits on the edge of a band or cut to rounding."""
        e = np.array([x for x in list(l0) + list(lf) if x > 0])
        s = eps * max(np.max(self.k), 1e-300)
        if len(e) and np.min(np.abs(self.k[..., None] - e)) < s:
            return False
        for k, c in ((self.kx, cx), (self.ky, cy)):
            d = np.abs(k[:, None] - np.array(c)[None])
            d[(k == 0)[:, None] & (np.array(c) == 0)[None]] = np.inf
            if np.min(d) < s:     # (no rounding at zero)
                return False
        return True

    def cls(self, a1, a2, b, nb):
        """Band powers: (n1*n2, nb)."""
        out = []
        n = np.array([np.sum(b == i) for i in range(nb)])
        for x in a1:
            for y in a2:
                p = (x * np.conj(y)).real
                out.append([np.sum(p[b == i]) / max(n[i], 1)
                            for i in range(nb)])
        return np.array(out) * 4 * np.pi**2 / self.area

    def coupling(self, m1, m2, s1, s2, pure1=(0, 0), pure2=(0, 0),
                 beam2=None, teb=False):
        """Mode coupling C[p, k1, q, k2], such that the mean power of the
        p-th pseudo-spectrum at k1 is sum_{q,k2} C[p,k1,q,k2] C_q(k2), with
        the modes flattened. beam2: product of beams at every mode."""
        nx, ny = self.nx, self.ny
        f1, f2 = self.fft(m1), self.fft(m2)
        M = (f1 * np.conj(f2)).real
        iy, ix = np.divmod(np.arange(nx * ny), nx)
        D = M[(iy[:, None] - iy[None]) % ny, (ix[:, None] - ix[None]) % nx]
        D = D * 4 * np.pi**2 / self.area**2
        if beam2 is not None:
            D = D * beam2.ravel()[None, :]
        ph = self.phi.ravel()
        k = self.k.ravel()
        with np.errstate(divide="ignore", invalid="ignore"):
            kr = (k[None, :] / k[:, None])**2
        kr[0, :] = 0.
        kr[0, 0] = 1.

        def rot(s, pure):
            """R[p,q,k1,k2]: observed p from true q."""
            if s == 0:
                return np.ones((1, 1) + D.shape)
            d = s * (ph[:, None] - ph[None])
            R = np.zeros((2, 2) + D.shape)
            R[0, 0] = R[1, 1] = np.cos(d)
            R[0, 1] = -np.sin(d)
            R[1, 0] = np.sin(d)
            for i in (0, 1):
                if pure[i]:
                    R[i, i] = kr
                    R[i, 1 - i] = 0.
            return R

        def prod(A, B):
            n1, n2 = A.shape[0], B.shape[0]
            C = np.zeros((n1 * n2, n1 * n2) + D.shape)
            for p in range(n1):
                for q in range(n2):
                    for r in range(n1):
                        for t in range(n2):
                            C[p * n2 + q, r * n2 + t] = \
                                A[p, r] * B[q, t] * D
            return C
        A, B = rot(s1, pure1), rot(s2, pure2)
        if not teb:
            C = prod(A, B)
        else:
            C = np.zeros((7, 7) + D.shape)
            C[0, 0] = D
            C[1:3, 1:3] = prod(A, B)
            C[3:, 3:] = prod(B, B)
        return C.transpose(0, 2, 1, 3)

    def bin_rows(self, C, b, nb):
        """Averages the rows of a coupling over the modes of each band."""
        out = np.zeros((C.shape[0], nb) + C.shape[2:])
        bf = b.ravel()
        for i in range(nb):
            q = bf == i
            if q.any():
                out[:, i] = np.mean(C[:, q], axis=1)
        return out

    def bin_cols(self, C, b, nb):
        out = np.zeros(C.shape[:3] + (nb,))
        bf = b.ravel()
        for i in range(nb):
            out[..., i] = np.sum(C[..., bf == i], axis=-1)
        return out

    def rings(self, n_ell):
        """Ring of each mode (-1: beyond the last one)."""
        dell = min(self.dkx, self.dky)
        r = (self.k * (1. / dell)).astype(int)
        return np.where(r < n_ell, r, -1)

    def ambiguous(self):
        """Groups of modes on a ring boundary to rounding: list of (boolean
        array, ring above the boundary)."""
        dell = min(self.dkx, self.dky)
        x = self.k / dell
        q = (np.abs(x - np.round(x)) < 1e-9) & (x > 0.5)
        out = []
        for kk in sorted(set(zip(*map(
                lambda v: np.round(np.abs(v[q]) / dell, 9),
                (self.KX, self.KY))))):
            g = q & (np.abs(np.abs(self.KX) / dell - kk[0]) < 1e-6) & \
                (np.abs(np.abs(self.KY) / dell - kk[1]) < 1e-6)
            out.append((g, int(np.round(x[g][0]))))
        return out


def interp(k, ls, f, below=None, above=0.):
    """The library's tabulated functions."""
    ls, f = np.asarray(ls, float), np.asarray(f, float)
    out = np.interp(k, ls, f)
    out = np.where(k <= ls[0], f[0] if below is None else below, out)
    return np.where(k >= ls[-1], above, out)


def ring_average(v, r, n):
    """Average of v over rings, put back on the modes."""
    out = np.zeros(v.shape)
    for i in range(n):
        q = r == i
        if q.any():
            out[q] = np.mean(v[q])
    return out
