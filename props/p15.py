"""P15: apodisation of HEALPix masks."""
import healpy as hp
import numpy as np
import pymaster as nmt
from scipy.spatial import cKDTree
from lib.gen import rng_of
from lib.pbt import Sub

RULE = ("Non-trivial: the mask has both zero and non-zero pixels and some "
        "pixel is changed by the apodisation.")
ASSUMPTIONS = ["masks are not negative; scales are at most 180 degrees and "
               "not below a quarter of a pixel (documented refusal)",
               "the disc around a masked pixel used by Smooth contains the "
               "pixels that overlap with it (HEALPix inclusive disc)"]
KINDS = ["holes", "holes", "dense", "polar", "seam", "cap", "one", "island",
         "sparse", "all0", "none0"]


def mask_of(nside, kind, weighted, rng):
    n = hp.nside2npix(nside)
    th, ph = hp.pix2ang(nside, np.arange(n))
    m = np.ones(n)
    if kind == "holes":
        m[rng.integers(0, n, size=rng.integers(1, 6))] = 0
    elif kind == "one":
        m[rng.integers(n)] = 0
    elif kind == "dense":
        m = (rng.random(n) < 0.7).astype(float)
    elif kind == "polar":
        m[th < rng.uniform(0.1, 1)] = 0
        if rng.random() < 0.5:
            m[th > np.pi - rng.uniform(0.1, 1)] = 0
    elif kind == "seam":
        m[(ph < rng.uniform(0.2, 1.5)) & (th > rng.uniform(0, 1.5))] = 0
    elif kind == "cap":
        v = rng.standard_normal(3)
        v /= np.sqrt(v @ v)
        m[v @ np.array(hp.pix2vec(nside, np.arange(n))) < rng.uniform(
            -0.9, 0.9)] = 0
    elif kind == "island":
        m[:] = 0
        m[rng.integers(0, n, size=rng.integers(1, 4))] = 1
    elif kind == "sparse":
        m = (rng.random(n) < 0.15).astype(float)
    elif kind == "all0":
        m[:] = 0
    if weighted:
        m *= rng.uniform(0.1, 3, n)
    return m


def gen(d, types=("C1", "C2")):
    return dict(nside=d.choice([2, 4, 4, 8, 8, 16]), kind=d.choice(KINDS),
                w=d.bool(), typ=d.choice(types), q=d.int(0, 100),
                dt=d.choice(["f8", "f8", "f4", "i4", "f8"]), seed=d.seed())


def gen_large(d):
    c = gen(d)
    ns = d.choice([32, 32, 64, 64, 128])
    c.update(nside=ns, q=d.int(0, {32: 70, 64: 50, 128: 30}[ns]))
    return c


def scale(c, rng, lo=0.26):
    """Log-uniform between the smallest scale and the whole sphere."""
    a = lo * 60. / c["nside"]
    return float(a * (180. / a)**((c["q"] + rng.random()) / 101.))


def setup(c):
    rng = rng_of(c["seed"])
    m = mask_of(c["nside"], c["kind"], c["w"], rng)
    if c["dt"] == "i4":
        m = np.ceil(m)
    m = m.astype(c["dt"])
    return m, scale(c, rng, 0.26 if c["typ"] != "Smooth" else 0.13)


def apodise(m, a, typ):
    m0 = m.copy()
    out = nmt.mask_apodization(m, a, apotype=typ)
    if not np.array_equal(m, m0):
        raise AssertionError("the input mask was modified")
    return out


def cx(c, x):
    m, a = setup(c)
    got = apodise(m, a, c["typ"])
    v = np.array(hp.pix2vec(c["nside"], np.arange(len(m))))
    z = m == 0
    mm = m.astype(float)
    want = mm.copy()
    if z.any() and not z.all():
        # 1-cos from chords, for accuracy at small separations
        x2 = 0.5 * cKDTree(v[:, z].T).query(v.T)[0]**2
        xx = np.sqrt(x2 / (1 - np.cos(np.radians(a))))
        if c["typ"] == "C1":
            f = xx - np.sin(2 * np.pi * xx) / (2 * np.pi)
        else:
            f = 0.5 * (1 - np.cos(np.pi * xx))
        f = np.where(xx < 1, f, 1.)
        want = np.where(z, 0., mm * f)
        x.nontrivial(np.any(want != mm))
    x.label(c["typ"], c["kind"], "wide" if a > 60 else (
        "pixel" if a < 60. / c["nside"] else "usual"))
    x.close(got, want, atol=1e-9 * np.max(mm), msg="apodised mask")
    x.check(np.all(got[z] == 0), "masked pixels are not zero any more")


def disc(nside, ip, r):
    """Pixels that overlap with a disc (HEALPix rule)."""
    th, ph = hp.pix2ang(nside, ip)
    reff = min(r + 1.071 * np.pi / (4 * nside), np.pi)
    ca, z0 = np.cos(reff), np.cos(th)
    out = []
    for iz in range(1, 4 * nside):
        start, nr, cth, sth, sh = [q[0] for q in hp.ringinfo(
            nside, np.array([iz]))]
        cd = (ca - cth * z0) / np.sqrt((1 - z0 * z0) * (1 - cth * cth))
        if cd > 1:
            continue
        dphi = np.pi if cd < -1 else np.arccos(cd)
        h = 0.5 if sh else 0.
        lo = int(np.rint(nr * (ph - dphi) / (2 * np.pi) - h))
        hi = int(np.rint(nr * (ph + dphi) / (2 * np.pi) - h))
        if hi - lo >= nr - 1:
            out.append(start + np.arange(nr))
        else:
            out.append(start + np.arange(lo, hi + 1) % nr)
    return np.concatenate(out)


def gen_s(d):
    c = gen(d, ["Smooth"])
    c["nside"] = d.choice([2, 4, 4, 8])
    return c


def smooth(c, x):
    m, a = setup(c)
    ns = c["nside"]
    got = apodise(m, a, "Smooth")
    mm = m.astype(float)
    t = mm.copy()
    for ip in np.where(m == 0)[0]:
        t[disc(ns, ip, min(2.5 * np.radians(a), np.pi))] = 0
    L = 3 * ns - 1
    ls = np.arange(L + 1)
    al = hp.map2alm(t, lmax=L, iter=3)
    al = hp.almxfl(al, np.exp(-0.5 * ls * (ls + 1) * np.radians(a)**2))
    want = hp.alm2map(al, ns, lmax=L) * mm
    x.label(c["kind"], "wide" if a > 60 else "usual",
            "erased" if not t.any() else "kept")
    x.close(got, want, atol=1e-7 * np.max(mm)**2, msg="smoothed mask")
    x.check(np.all(got[m == 0] == 0), "masked pixels are not zero any more")
    x.nontrivial(bool(np.any(m == 0)) and bool(t.any()))


def gen_sl(d):
    c = gen(d, ["Smooth"])
    c.update(nside=d.choice([16, 32]), kind=d.choice(["holes", "polar", "cap",
                                                      "one"]),
             q=d.int(0, 40))
    return c


def gen_rot(d):
    c = gen(d, ["C1", "C2", "Smooth"])
    c.update(rot=d.int(0, 3), flip=d.bool(), mirror=d.bool())
    c["nside"] = d.choice([4, 8, 16])
    return c


def rotate(c, x):
    """Symmetries of the pixelisation are symmetries of the result."""
    m, a = setup(c)
    ns = c["nside"]
    th, ph = hp.pix2ang(ns, np.arange(len(m)))
    if c["flip"]:
        th = np.pi - th
    if c["mirror"]:
        ph = -ph
    ip = hp.ang2pix(ns, th, ph + c["rot"] * np.pi / 2)
    if len(np.unique(ip)) != len(ip):
        return
    x.close(apodise(m[ip], a, c["typ"]), apodise(m, a, c["typ"])[ip],
            atol=1e-7 * float(np.max(m))**2, msg="symmetric mask")
    x.label(c["typ"])
    x.nontrivial(bool(np.any(m == 0) and np.any(m)))


def gen_edge(d):
    return dict(nside=d.choice([2, 4, 8]), kind=d.choice(KINDS), w=d.bool(),
                typ=d.choice(["C1", "C2", "Smooth"]), q=0, dt="f8",
                what=d.choice(["zero", "negative", "type", "length",
                               "tiny"]), f=d.float(0.01, 1.), seed=d.seed())


def edge(c, x):
    m, _ = setup(c)
    w = c["what"]
    x.label(w)
    x.nontrivial()
    if w == "zero":
        if c["typ"] != "Smooth":
            x.equal(apodise(m, 0., c["typ"]), m, "zero scale")
    elif w == "negative":
        x.raises(lambda: apodise(m, -5 * c["f"], c["typ"]), Exception, w)
    elif w == "type":
        x.raises(lambda: apodise(m, 5., c["typ"].lower()), Exception, w)
        x.raises(lambda: apodise(m, 5., "C12"), Exception, w)
    elif w == "length":
        x.raises(lambda: apodise(m[:-1], 5., c["typ"]), Exception, w)
        x.raises(lambda: apodise(np.ones(12 * 9), 5., c["typ"]), Exception,
                 w)
    else:
        # too small for the pixels: refused, or nothing is apodised
        a = 0.1 * c["f"] * 60. / c["nside"]
        try:
            g = apodise(m, a, c["typ"])
        except Exception:
            return
        if c["typ"] != "Smooth":
            x.equal(g, m, "scale far below the pixel size")


SUBS = [
    Sub("distance", gen, cx, quick=750, thorough=4000, isolate=True,
        rule=RULE),
    Sub("smooth", gen_s, smooth, quick=240, thorough=1200, isolate=True,
        rule="zero pixels, and some of the mask survives"),
    Sub("symmetry", gen_rot, rotate, quick=240, thorough=1500, isolate=True,
        rule="zero and non-zero pixels"),
    Sub("edges", gen_edge, edge, quick=120, thorough=400, isolate=True,
        rule="every case"),
    Sub("large", gen_large, cx, quick=80, thorough=1000, isolate=True,
        rule=RULE, weight=50),
    Sub("large-smooth", gen_sl, smooth, quick=30, thorough=300, isolate=True,
        rule="zero pixels, and some of the mask survives", weight=100),
]
