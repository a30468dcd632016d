"""Generated pairs of curved-sky fields and workspaces, and the reference
algebra of a workspace."""
import numpy as np
import pymaster as nmt
from lib.gen import hp_mask, rand_bins

KINDS = ["random", "binary", "smooth", "cap", "ones", "random", "smooth"]


def gen_fields(d, lmax_hi=20, aniso=True, teb=True):
    tb = teb and d.choice([0, 0, 0, 1]) == 1
    an = 0 if (tb or not aniso) else d.choice([0, 0, 0, 1, 2, 3])
    s1 = 0 if tb else d.choice([0, 0, 1, 2, 2, 2, 3])
    s2 = d.choice([1, 2, 2, 3]) if tb else d.choice([0, 0, 1, 2, 2, 2, 3])
    if an & 1:
        s1 = d.choice([1, 2, 2])
    if an & 2:
        s2 = d.choice([1, 2, 2])
    p = [False] * 4
    if not an and d.choice([0, 0, 1]):
        p = [bool(s1 == 2 and d.bool()), bool(s1 == 2 and d.bool()),
             bool(s2 == 2 and d.bool()), bool(s2 == 2 and d.bool())]
    lmax = d.int(4, lmax_hi)
    return dict(nside=d.choice([2, 4, 4, 8]), lmax=lmax,
                lmax_mask=max(4, d.choice([lmax, lmax + d.int(1, 8),
                                           lmax - d.int(1, 4)])),
                s1=s1, s2=s2, teb=tb, aniso=an, pure=p, beams=d.bool(),
                same=d.choice([0, 0, 1]) == 1 and s1 == s2 and an in (0, 3)
                and p[:2] == p[2:],
                k1=d.choice(KINDS), k2=d.choice(KINDS), seed=d.seed())


def make_field(c, i, rng, beam=None, mask=None, **kw):
    """Field i (1 or 2) of the pair described by c, mask only."""
    s = c["s%d" % i]
    if mask is None:
        mask = hp_mask(c["nside"], c["k%d" % i], rng)
    p = c["pure"][2 * i - 2:2 * i]
    mk = dict(mask=mask)
    if c["aniso"] & i:
        # positive-definite weight matrices
        n = len(mask)
        e = 0.9 * rng.random(n)
        a = rng.random(n) * 2 * np.pi
        m = np.abs(mask)
        mk = dict(mask=m * (1 + e * np.cos(a)), mask_22=m * (
            1 - e * np.cos(a)), mask_12=m * e * np.sin(a))
    args = dict(spin=s, lmax=c["lmax"], lmax_mask=c["lmax_mask"],
                purify_e=p[0], purify_b=p[1], beam=beam, n_iter=0,
                n_iter_mask=0)
    args.update(kw)
    maps = args.pop("maps", None)
    return nmt.NmtField(mk.pop("mask"), maps, **mk, **args)


def pair(c, rng):
    bm = [None, None]
    if c["beams"]:
        bm = [0.2 + rng.random(c["lmax"] + 1 + (c.get("seed", 0) >> k) % 3)
              for k in range(2)]
    f1 = make_field(c, 1, rng, bm[0])
    f2 = f1 if c["same"] else make_field(c, 2, rng, bm[1])
    return f1, f2


def ncls(c):
    if c["teb"]:
        return 7
    return (2 if c["s1"] else 1) * (2 if c["s2"] else 1)


def labels(c, ctx):
    ctx.label(f"spins {min(c['s1'], c['s2'])}-{max(c['s1'], c['s2'])}")
    for k in ("teb", "same"):
        if c[k]:
            ctx.label(k)
    if any(c["pure"]):
        ctx.label("purified")
    if c["aniso"]:
        ctx.label(f"aniso{c['aniso']}")


class Model:
    """Reference algebra: M[l, i, l', j], beam product, bands (W, F)."""

    def __init__(self, M, n, lmax, beam, W, F, norm="MASTER", w2=None):
        L = lmax + 1
        self.M = np.array(M).reshape(L, n, L, n)
        self.n, self.L = n, L
        self.beam, self.W, self.F, self.norm, self.w2 = beam, W, F, norm, w2

    @property
    def K(self):
        nb = len(self.W)
        if self.norm == "FKP":
            return self.w2 * np.eye(nb * self.n)
        return np.einsum("bl,limj,m,cm->bicj", self.W, self.M, self.beam,
                         self.F, optimize=True).reshape(nb * self.n, -1)

    def cond(self):
        k = self.K
        if not np.all(np.isfinite(k)) or np.max(np.abs(k)) == 0:
            return np.inf
        return np.linalg.cond(k)

    def couple(self, cl):
        return np.einsum("limj,m,jm->il", self.M, self.beam,
                         np.asarray(cl)[:, :self.L], optimize=True)

    def decouple(self, cl):
        nb = len(self.W)
        x = np.einsum("bl,il->bi", self.W, np.asarray(cl)[:, :self.L])
        return np.linalg.solve(self.K, x.ravel()).reshape(nb, self.n).T

    def windows(self):
        nb = len(self.W)
        X = np.einsum("bl,limj,m->bimj", self.W, self.M, self.beam)
        return np.linalg.solve(self.K, X.reshape(nb * self.n, -1)).reshape(
            nb, self.n, self.L, self.n).transpose(1, 0, 3, 2)
