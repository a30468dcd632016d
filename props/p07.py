"""P07: anisotropic weights."""
import healpy as hp
import numpy as np
import pymaster as nmt
from lib import curved, sht
from lib.gen import MASK_KINDS, hp_mask, car_wcs, rng_of
from lib.pbt import Sub
from lib.ref import wigner_d, _gl

RULE = ("Non-trivial: weight matrices that vary between pixels and have "
        "both diagonal and off-diagonal parts (or, for the isotropic limit "
        "and refusals, a non-constant mask).")
ASSUMPTIONS = ["the coupling is compared for sky multipoles at or above the "
               "spins of the fields (lower ones carry no power)"]


# ------------------------------------------------------------- references
def three_sums(W, lmax, sa, ta, sb, tb):
    """G[l,l'] = (2l'+1) sum_L (2L+1)/4pi W_L 3j(l L l'; sa, ta-sa, -ta)
    3j(l L l'; sb, tb-sb, -tb), by Gauss-Legendre quadrature of the product
    of Wigner d functions (product of 3j = 1/2 int d d d)."""
    lm = len(W) - 1
    x, w = _gl((lm + 2 * lmax) // 2 + 2)
    q = W * (2 * np.arange(lm + 1) + 1) / (4 * np.pi)
    dL = wigner_d(lm, ta - sa, tb - sb, x)
    xi = w * (q @ dL)
    d1 = wigner_d(lmax, sa, sb, x)
    d3 = wigner_d(lmax, -ta, -tb, x)
    return 0.5 * ((d1 * xi) @ d3.T) * (2 * np.arange(lmax + 1) + 1)


def cross(a, b, lmax):
    """sum_M a_LM b*_LM / (2L+1) over positive and negative M, for complex
    fields given by (E,B)-type pairs of coefficients of spin +-u: a is the
    (2l+1 x l) full array."""
    return np.einsum("ml,ml->l", a, np.conj(b)) / (2 * np.arange(
        lmax + 1) + 1)


def spin_coeffs(alms, u, lmax):
    """Full coefficients of the spin +u and -u parts."""
    if u == 0:
        f = sht.full_alm(alms[0], lmax)
        return {0: f}
    e = sht.full_alm(alms[0], lmax)
    b = sht.full_alm(alms[1], lmax)
    return {u: -(e + 1j * b), -u: -(-1.)**u * (e - 1j * b)}


def aniso_mcm(w1, w2, s1, s2, lmax):
    """Reference coupling matrix [i,l,j,l']. w = (alm of the scalar weight,
    pair of alms of the spin-2s weight or None), with lmax_mask implied."""
    L = lmax + 1
    out = {}
    lm = None

    def weights(w, s):
        nonlocal lm
        lm = int(np.sqrt(2 * len(w[0]))) - 1
        d = dict(spin_coeffs([w[0]], 0, lm))
        if w[1] is not None:
            d.update(spin_coeffs(w[1], 2 * s, lm))
        return d
    d1, d2 = weights(w1, s1), weights(w2, s2)
    sp1 = [s1, -s1] if s1 else [0]
    sp2 = [s2, -s2] if s2 else [0]
    n1, n2 = len(sp1), len(sp2)
    G = np.zeros((n1, n2, L, n1, n2, L), dtype=complex)
    for i, sa in enumerate(sp1):
        for j, sb in enumerate(sp2):
            for k, ta in enumerate(sp1):
                for m, tb in enumerate(sp2):
                    if (sa - ta) not in d1 or (sb - tb) not in d2:
                        continue
                    W = cross(d1[sa - ta], d2[sb - tb], lm)
                    f = (-1.)**(sa + sb)
                    g = [three_sums(W.real, lmax, sa, ta, sb, tb),
                         three_sums(W.imag, lmax, sa, ta, sb, tb)]
                    G[i, j, :, k, m, :] = f * (g[0] + 1j * g[1])
    del out

    # helicity <-> E/B
    def toh(s):
        if s == 0:
            return np.ones((1, 1), dtype=complex)
        return np.array([[-1, -1j], [-(-1.)**s, 1j * (-1.)**s]])
    H1, H2 = toh(s1), toh(s2)
    # C^{sa sb} = sum H1[sa,e] conj(H2[sb,f]) C^{ef}
    T = np.einsum("ae,bf->abef", H1, np.conj(H2)).reshape(n1 * n2, n1 * n2)
    Ti = np.linalg.inv(T)
    G = G.reshape(n1 * n2, L, n1 * n2, L)
    R = np.einsum("xa,albm,by->xlym", Ti, G, T)
    return R.real, np.max(np.abs(R.imag))


def weights_of(mask, rng, kind="random"):
    """Positive-definite weight matrices (m11, m22, m12)."""
    n = mask.shape
    m = np.abs(mask)
    e = 0.95 * rng.random(n)
    a = rng.random(n) * 2 * np.pi
    if kind == "diag":
        a = np.where(rng.random(n) < 0.5, 0., np.pi)
    return m * (1 + e * np.cos(a)), m * (1 - e * np.cos(a)), m * e * np.sin(a)


# ------------------------------------------------------------------ maps
def gen_maps(d):
    return dict(pix=d.choice(["hp", "hp", "car"]), nside=d.choice([2, 4]),
                ny=d.int(6, 14), dx=d.int(0, 5), ft=int(d.bool()),
                fp=int(d.bool()), kind=d.choice(MASK_KINDS),
                wk=d.choice(["random", "random", "diag"]),
                s=d.choice([1, 2, 2, 3]), moi=d.choice([0, 0, 1]),
                lite=d.bool(), beam=d.bool(), niter=d.choice([0, 0, 1, 3]),
                nim=d.choice([0, 0, 1, 4]), seed=d.seed())


def fn_maps(c, ctx):
    rng = rng_of(c["seed"])
    if c["pix"] == "hp":
        wcs, shape = None, (hp.nside2npix(c["nside"]),)
        base = hp_mask(c["nside"], c["kind"], rng)
    else:
        ny = c["ny"]
        nx = 2 * (ny - 1) + c["dx"]
        wcs, th, _ = car_wcs(ny, nx, c["ft"], c["fp"])
        shape = th.shape
        base = rng.random(shape)
    m11, m22, m12 = weights_of(base, rng, c["wk"])
    mp = rng.standard_normal((2,) + shape)
    ctx.nontrivial(c["wk"] == "random" and np.ptp(m12) > 0)
    lmax = 4
    ni, nim = c["niter"], c["nim"]
    kw = dict(spin=c["s"], wcs=wcs, lmax=lmax, lmax_mask=lmax + 2, n_iter=ni,
              mask_22=m22, mask_12=m12, masked_on_input=bool(c["moi"]))
    f = nmt.NmtField(m11, mp, **kw)
    want = mp if c["moi"] else np.array([m11 * mp[0] + m12 * mp[1],
                                         m12 * mp[0] + m22 * mp[1]])
    sc = np.max(np.abs(want)) + 1e-300

    def norient(x):
        # stored orientation: the library may flip rows and columns
        x = x.reshape(x.shape[:1] + shape) if x.ndim > 1 else x.reshape(shape)
        return x

    if c["pix"] == "hp":
        ctx.close(f.get_maps(), want, 1e-13, scale=sc, msg="weighted maps")
        ctx.close(f.get_mask(), 0.5 * (m11 + m22), 1e-14, msg="scalar weight")
        a = f.get_anisotropic_mask()
        ctx.close(a, np.array([0.5 * (m11 - m22), m12]), 1e-14, scale=np.max(
            m11 + m22) + 1e-300, msg="spin weight")
    # same coefficients as a field given the weighted maps
    g = nmt.NmtField(np.ones(shape), want, spin=c["s"], wcs=wcs, lmax=lmax,
                     lmax_mask=lmax + 2, n_iter=ni)
    ctx.close(f.get_alms(), g.get_alms(), 1e-12, scale=np.max(np.abs(
        g.get_alms())) + 1e-300, msg="coefficients of the weighted map")
    ctx.close(f.get_maps(), g.get_maps(), 1e-13, scale=sc,
              msg="weighted maps (any orientation)")
    if c["lite"]:
        h = nmt.NmtField(m11, mp, lite=True, **kw)
        ctx.close(h.get_alms(), f.get_alms(), 1e-13, msg="lite field")
    # the weight's coefficients are those of its parts
    wa = nmt.NmtField(np.ones(shape), np.array([0.5 * (m11 - m22), m12]),
                      spin=2 * c["s"], wcs=wcs, lmax=lmax + 2, n_iter=nim)
    fm = nmt.NmtField(m11, None, **{k: v for k, v in kw.items()
                                    if k != "masked_on_input"},
                      n_iter_mask=nim, lite=c["lite"])
    ctx.close(fm.get_anisotropic_mask_alms(), wa.get_alms(), 1e-12,
              scale=np.max(np.abs(wa.get_alms())) + 1e-300,
              msg="coefficients of the spin weight")
    w0 = nmt.NmtField(np.ones(shape), [0.5 * (m11 + m22)], wcs=wcs,
                      lmax=lmax + 2, n_iter=nim)
    ctx.close(fm.get_mask_alms(), w0.get_alms()[0], 1e-12,
              scale=np.max(np.abs(w0.get_alms())) + 1e-300,
              msg="coefficients of the scalar weight")


# -------------------------------------------------------------- coupling
def gen_mcm(d):
    an = d.choice([1, 2, 3, 3])
    s1 = d.choice([1, 2, 2, 3]) if an & 1 else d.choice([0, 0, 1, 2, 3])
    s2 = d.choice([1, 2, 2, 3]) if an & 2 else d.choice([0, 0, 1, 2, 3])
    lmax = d.int(4, 20)
    return dict(nside=d.choice([2, 4, 8]), lmax=lmax, aniso=an, s1=s1, s2=s2,
                lmask=max(6, lmax + d.choice([0, d.int(1, 25), -d.int(1, 6)])
                          ), same=bool(d.choice([0, 0, 1])),
                k1=d.choice(MASK_KINDS), k2=d.choice(MASK_KINDS),
                wk=d.choice(["random", "random", "diag"]),
                seed=d.seed())


def mask_field(c, i, rng):
    m = hp_mask(c["nside"], c["k%d" % i], rng)
    kw = dict(spin=c["s%d" % i], lmax=c["lmax"], lmax_mask=c["lmask"],
              n_iter=0, n_iter_mask=0)
    if not c["aniso"] & i:
        return nmt.NmtField(m, None, **kw)
    m11, m22, m12 = weights_of(m, rng, c["wk"])
    return nmt.NmtField(m11, None, mask_22=m22, mask_12=m12, **kw)


def fn_mcm(c, ctx):
    rng = rng_of(c["seed"])
    s1, s2, an, lmax = c["s1"], c["s2"], c["aniso"], c["lmax"]
    f1 = mask_field(c, 1, rng)
    if c["same"] and an & 1:
        s2, an = s1, 3
        f2 = f1
        ctx.label("same field")
    else:
        f2 = mask_field(c, 2, rng)
    ctx.label(f"spins {s1}-{s2}", f"aniso{an}")
    ctx.nontrivial(c["wk"] == "random")
    al = []
    for f in (f1, f2):
        al.append((f.get_mask_alms(), f.get_anisotropic_mask_alms()
                   if f.anisotropic_mask else None))
    want, im = aniso_mcm(al[0], al[1], s1, s2, lmax)
    b = nmt.NmtBin.from_lmax_linear(lmax, max(1, lmax // 4))
    w = nmt.NmtWorkspace.from_fields(f1, f2, b)
    L = lmax + 1
    n = want.shape[0]
    M = w.get_coupling_matrix().reshape(L, n, L, n).transpose(1, 0, 3, 2)
    lo = max(s1, s2)
    ctx.check(im <= 1e-9 * np.max(np.abs(want)) + 1e-300,
              "reference is not real", imag=im)
    ctx.close(M[:, :, :, lo:], want[:, :, :, lo:], 1e-10,
              scale=np.max(np.abs(want)) + 1e-300,
              msg="anisotropic coupling matrix")


# --------------------------------------------------------------- response
def gen_resp(d):
    from props.p04 import gen
    c = gen(d, pure=False)
    if not c["aniso"]:
        c["aniso"] = 3
        c["s1"], c["s2"] = max(1, c["s1"]), max(1, c["s2"])
        c["lmax"] = max(c["lmax"], c["s1"], c["s2"])
        c["lmask"] = max(c["lm"], 2 * c["s1"], 2 * c["s2"])
    return c


def fn_resp(c, ctx):
    from props.p04 import fn
    fn(c, ctx)


# ---------------------------------------------------------- isotropic limit
def gen_iso(d):
    lmax = d.int(4, 24)
    return dict(nside=d.choice([2, 4, 8]), lmax=lmax,
                lmask=max(6, lmax + d.choice([0, d.int(1, 20),
                                              -d.int(1, 6)])),
                s1=d.choice([1, 2, 2, 3]), s2=d.choice([0, 1, 2, 2, 3]),
                slot=d.choice([1, 2, 3]), k1=d.choice(MASK_KINDS),
                k2=d.choice(MASK_KINDS), lite=d.bool(), maps=d.bool(),
                scale=d.choice([1., 1., 1e-5, 1e4]), seed=d.seed())


def fn_iso(c, ctx):
    rng = rng_of(c["seed"])
    k1 = c["k1"] if c["k1"] != "signed" else "random"
    k2 = c["k2"]
    if c["slot"] == 3 and k2 == "signed":
        k2 = "random"
    m1 = hp_mask(c["nside"], k1, rng) * c["scale"]
    m2 = hp_mask(c["nside"], k2, rng)
    s1, s2 = c["s1"], c["s2"]
    slot = c["slot"]
    if slot == 3 and s2 == 0:
        slot = 1
    ctx.label(f"spins {s1}-{s2}", f"slot {slot}")
    ctx.nontrivial(np.ptp(m1) > 0)
    npix = len(m1)
    maps = rng.standard_normal((2, npix)) if c["maps"] else None

    def mk(m, s, an, mp=None):
        kw = dict(spin=s, lmax=c["lmax"], lmax_mask=c["lmask"], n_iter=0,
                  n_iter_mask=0)
        if an:
            kw.update(mask_22=m.copy(), mask_12=np.zeros_like(m))
        return nmt.NmtField(m, mp, lite=c["lite"] and mp is not None, **kw)
    A1, I1 = mk(m1, s1, 1, maps), mk(m1, s1, 0, maps)
    A2, I2 = (mk(m2, s2, 1) if slot == 3 else mk(m2, s2, 0)), mk(m2, s2, 0)
    if maps is not None:
        ctx.close(A1.get_alms(), I1.get_alms(), 1e-13, scale=np.max(np.abs(
            I1.get_alms())) + 1e-300, msg="coefficients")
        if not c["lite"]:
            ctx.close(A1.get_maps(), I1.get_maps(), 1e-14, scale=np.max(
                np.abs(I1.get_maps())) + 1e-300, msg="maps")
    b = nmt.NmtBin.from_lmax_linear(c["lmax"], 2)
    pr = ((A1, A2), (I1, I2)) if slot != 2 else ((A2, A1), (I2, I1))
    Ma, Mi = [nmt.NmtWorkspace.from_fields(x, y, b).get_coupling_matrix()
              for x, y in pr]
    L = c["lmax"] + 1
    lo = max(s1, s2)
    n = len(Mi) // L
    # columns at multipoles without power are not compared
    Ma, Mi = [M.reshape(L, n, L, n)[:, :, lo:] for M in (Ma, Mi)]
    ctx.close(Ma, Mi, 1e-11, scale=np.max(np.abs(Mi)) + 1e-300,
              msg="coupling matrix in the isotropic limit")


# --------------------------------------------------------------- refusals
def gen_ref(d):
    return dict(nside=d.choice([2, 4]), kind=d.choice(
        ["indefinite", "negative", "missing", "spin0", "purify", "template",
         "teb", "pure_pair", "toeplitz", "ok"]), nbad=d.int(1, 6),
        maps=d.bool(), scale=d.choice([1., 1., 1e-4, 1e-8, 1e5]),
        s=d.choice([1, 2, 3]), seed=d.seed())


def fn_ref(c, ctx):
    rng = rng_of(c["seed"])
    npix = hp.nside2npix(c["nside"])
    m11, m22, m12 = weights_of(rng.random(npix) + 0.1, rng)
    k = c["kind"]
    s = c["s"]
    ctx.label(k)
    ctx.nontrivial()
    mp = rng.standard_normal((2, npix)) if c["maps"] else None
    kw = dict(lmax=3, lmax_mask=6, n_iter=0, n_iter_mask=0)
    q = rng.choice(npix, size=min(npix, c["nbad"]), replace=False)
    if k == "indefinite":
        t = rng.integers(2)
        if t:
            m12[q] = (1.5 + rng.random(len(q))) * np.sqrt(
                m11[q] * m22[q]) + 0.5
        else:
            m11[q] = -m11[q] - 0.3
            m22[q] += 0.3
    if k == "negative":
        if rng.random() < 0.3:
            q = np.arange(npix)
        m11[q], m22[q], m12[q] = -m11[q] - .2, -m22[q] - .2, -m12[q]
    m11, m22, m12 = [x * c["scale"] for x in (m11, m22, m12)]
    an = dict(mask_22=m22, mask_12=m12)

    def fld(**e):
        a = dict(spin=s, **kw, **an)
        a.update(e)
        return nmt.NmtField(m11, a.pop("maps", mp), **a)
    if k in ("indefinite", "negative"):
        ctx.raises(fld, ValueError, k + " weights")
    elif k == "missing":
        ctx.raises(lambda: fld(mask_22=None), ValueError, "no mask_22")
        ctx.raises(lambda: fld(mask_12=None), ValueError, "no mask_12")
    elif k == "spin0":
        ctx.raises(lambda: fld(spin=0, maps=mp if mp is None else mp[:1]),
                   ValueError, "spin 0")
    elif k == "purify":
        m = rng.standard_normal((2, npix))
        for p in ("purify_e", "purify_b"):
            ctx.raises(lambda: fld(spin=2, maps=m, **{p: True}),
                       NotImplementedError, p)
    elif k == "template":
        m = rng.standard_normal((2, npix))
        ctx.raises(lambda: fld(maps=m, templates=rng.standard_normal(
            (1, 2, npix))), NotImplementedError, "templates")
    else:
        f = fld()
        b = nmt.NmtBin.from_lmax_linear(3, 1)
        i0 = nmt.NmtField(m11, None, spin=0, **kw)
        ip = nmt.NmtField(m11, None, spin=2, purify_b=True, **kw)
        i2 = nmt.NmtField(m11, None, spin=2, **kw)
        fr = nmt.NmtWorkspace.from_fields
        if k == "teb":
            ctx.raises(lambda: fr(i0, f, b, is_teb=True), Exception, "joint")
        if k == "pure_pair":
            ctx.raises(lambda: fr(ip, f, b), Exception, "purified first")
            ctx.raises(lambda: fr(f, ip, b), Exception, "purified second")
        if k == "toeplitz":
            ctx.raises(lambda: fr(f, i2, b, l_toeplitz=1, l_exact=1,
                                  dl_band=1), NotImplementedError, "toeplitz")
            ctx.raises(lambda: nmt.NmtCovarianceWorkspace.from_fields(
                f, i2), NotImplementedError, "covariance")
        # still usable
        M = fr(f, i2, b).get_coupling_matrix()
        ctx.check(np.all(np.isfinite(M)), "valid call")


SUBS = [
    Sub("maps", gen_maps, fn_maps, 1600, 8000, weight=10.),
    Sub("coupling", gen_mcm, fn_mcm, 3000, 20000, weight=15.),
    Sub("response", gen_resp, fn_resp, 800, 6000, weight=60.),
    Sub("isotropic_limit", gen_iso, fn_iso, 2000, 12000, weight=10.),
    Sub("refused", gen_ref, fn_ref, 1000, 6000, weight=3.),
]
