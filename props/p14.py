"""P14: catalogue fields."""
import healpy as hp
import numpy as np
import pymaster as nmt
from lib import ref, sht
from lib.gen import rng_of
from lib.pbt import Sub

RULE = ("Non-trivial: at least two sources with different weights and "
        "non-zero values.")
ASSUMPTIONS = ["catalogue transforms promise a relative accuracy of 1e-5; "
               "they are compared at 1e-4 of the rms coefficient times the "
               "square root of their number",
               "below the spin the auto-spectra may contain minus the noise "
               "(known finding, pinned by a stable test)"]
POS = ["uniform", "uniform", "poles", "seam", "cluster", "cap"]


def positions(n, kind, rng):
    th = np.arccos(rng.uniform(-1, 1, n))
    ph = rng.uniform(0, 2 * np.pi, n)
    if kind == "poles":
        th = rng.choice([0., np.pi, 1e-8, np.pi - 1e-7, 0.3], n)
    elif kind == "seam":
        ph = rng.choice([0., 2 * np.pi, 1e-12, np.pi, 6.283185], n)
    elif kind == "cluster":
        th = np.full(n, th[0])
        ph = np.full(n, ph[0])
        k = n // 2
        th[:k] = np.clip(th[:k] + 1e-6 * rng.standard_normal(k), 0, np.pi)
    elif kind == "cap":
        th = 0.2 * rng.random(n)
    return np.array([th, ph])


def gen_cat(d, nmax=12):
    return dict(n=d.int(1, nmax), kind=d.choice(POS), w=d.choice(
        ["ones", "random", "random", "zeros", "signed"]), lonlat=d.bool(),
        weighted=d.bool(), aslist=d.bool(), seed=d.seed())


class Cat:
    def __init__(self, c, s, spin_given=True):
        rng = rng_of(c["seed"], 7)
        n = c["n"]
        self.c, self.s = c, s
        self.pos = positions(n, c["kind"], rng)
        w = rng.uniform(0.1, 3, n)
        if c["w"] == "ones":
            w[:] = 1
        elif c["w"] == "zeros":
            w[rng.random(n) < 0.3] = 0
        elif c["w"] == "signed":
            w *= rng.choice([-1, 1], n)
        self.w = w
        self.v = rng.standard_normal((2 if s else 1, n)) * 10.**rng.uniform(
            -3, 3)
        self.z = self.v * w

    def given(self, pos):
        if self.c["lonlat"]:
            lat = 90 - np.degrees(pos[0])
            lat[pos[0] == 0] = 90.
            lat[pos[0] == np.pi] = -90.
            lon = np.degrees(pos[1])
            lon[pos[1] == 2 * np.pi] = 360.
            pos = np.array([lon, np.clip(lat, -90, 90)])
        return [list(p) for p in pos] if self.c["aslist"] else pos

    def field(self, L, Lm=None, values=True, beam=None):
        v = self.z if self.c["weighted"] else self.v
        v = v if values else None
        if values and self.s == 0 and self.c["aslist"]:
            v = v[0]
        return nmt.NmtFieldCatalog(
            self.given(self.pos), self.w, v, L, lmax_mask=Lm, spin=self.s,
            field_is_weighted=self.c["weighted"], lonlat=self.c["lonlat"],
            beam=beam)

    def alm(self, L):
        return sht.SHT(L, *self.pos).anal(self.z, self.s, np.ones(
            self.c["n"]))

    def mask(self, L):
        return sht.SHT(L, *self.pos).anal([self.w], 0, np.ones(
            self.c["n"]))[0]

    def nf(self):
        return np.sum(self.z**2) / (4 * np.pi * len(self.z))

    def nw(self):
        return np.sum(self.w**2) / (4 * np.pi)

    def nontrivial(self):
        return self.c["n"] > 1 and np.any(self.z[:, 1] != 0)


def tol(want, values=0.):
    """The transforms promise 1e-5, relative to what they are given: sums
    over sources may cancel."""
    return 1e-4 * np.sqrt(np.sum(np.abs(want)**2)) + 2e-5 * np.sqrt(
        np.sum(np.square(values))) + 1e-300


def gen(d):
    s = d.rare(d.choice([0, 0, 1, 2, 2, 3]), 4, 5, 8, n=12)
    L = max(s, 1) + d.int(0, 12)
    return dict(s=s, L=L, Lm=d.choice([None, d.int(2, 2 * L + 3)]),
                cat=gen_cat(d), beam=d.bool())


def gen_large(d):
    c = gen(d)
    c["L"] = d.int(20, 45)
    c["Lm"] = d.choice([None, d.int(10, 80)])
    c["cat"]["n"] = d.choice([30, 200, 1500])
    return c


def gen_mcl(d):
    c = gen_mcm(d)
    c["L"] = d.int(20, 60)
    c["Lm"] = d.choice([None, d.int(20, 2 * c["L"] + 1)])
    c["cat"]["n"] = d.choice([30, 200])
    c["cat2"]["n"] = 100
    return c


def pcl_of(a, b, L):
    ls, ms = sht.lm_index(L)
    out = np.zeros((len(a), len(b), L + 1))
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            p = np.where(ms > 0, 2, 1) * (x * np.conj(y)).real
            out[i, j] = np.bincount(ls, p, L + 1) / (
                2 * np.arange(L + 1) + 1)
    return out


def coeffs(c, x):
    """Coefficients of the field and of its mask, noise levels and
    auto-spectrum."""
    k = Cat(c["cat"], c["s"])
    L, s = c["L"], c["s"]
    beam = np.exp(-0.1 * np.arange(L + 3)) if c["beam"] else None
    Lm = c["Lm"]
    f = k.field(L, Lm, beam=beam)
    Lm = L if Lm is None else Lm
    al = k.alm(L)
    x.close(f.get_alms(), al, atol=tol(al, k.z), msg="coefficients of the field")
    am = k.mask(Lm)
    x.close(f.get_mask_alms(), am, atol=tol(am, k.w),
            msg="coefficients of the mask")
    x.close(f.Nf, k.nf(), rtol=1e-10, msg="noise of the field")
    x.close(f.Nw, k.nw(), rtol=1e-10, msg="noise of the mask")
    x.equal(np.asarray(f.beam), beam if c["beam"] else np.ones(L + 1),
            "stored beam")
    n = len(al)
    a = f.get_alms()
    raw = pcl_of(a, a, L)
    got = nmt.compute_coupled_cell(f, f).reshape(n, n, -1)
    want = raw - np.eye(n)[:, :, None] * k.nf()
    sc = np.max(np.abs(raw)) + k.nf()
    x.close(got[..., s:], want[..., s:], atol=1e-10 * sc,
            msg="auto-spectrum")
    lo = got[..., :s]
    if lo.size:
        ok = np.abs(lo) <= 1e-10 * sc
        ok |= np.abs(lo - want[..., :s]) <= 1e-10 * sc
        x.check(np.all(ok), "auto-spectrum below the spin")
    # with itself, in another object: nothing removed
    g = k.field(L, c["Lm"], beam=beam)
    x.close(nmt.compute_coupled_cell(f, g).reshape(n, n, -1), raw,
            atol=1e-9 * sc, msg="spectrum with an equal field")
    x.label(f"spin{s}", c["cat"]["kind"], c["cat"]["w"],
            "lonlat" if c["cat"]["lonlat"] else "thetaphi",
            "weighted" if c["cat"]["weighted"] else "raw")
    x.nontrivial(k.nontrivial())


def gen_low(d):
    c = gen(d)
    c["s"] = d.choice([1, 2, 3])
    c["L"] += c["s"]
    return c


def below_spin(c, x):
    k = Cat(c["cat"], c["s"])
    f = k.field(c["L"])
    got = nmt.compute_coupled_cell(f, f)[:, :c["s"]]
    x.nontrivial(k.nontrivial())
    x.check(np.all(np.abs(got) <= 1e-10 * k.nf()),
            "the auto-spectrum is minus the noise below the spin, where "
            "there is neither signal nor noise")


def gen_signs(d):
    c = gen(d)
    c["cat"]["n"] = d.int(1, 7)
    return c


def signs(c, x):
    """Average over all the signs of a set with exact pairwise
    independence: nothing is left."""
    k = Cat(c["cat"], c["s"])
    L, s = c["L"], c["s"]
    H = np.array([[1]])
    while len(H) < k.c["n"] + 1:
        H = np.block([[H, H], [H, -H]])
    av = 0
    z0, v0 = k.z.copy(), k.v.copy()
    mx = 0
    for row in H[:, 1:k.c["n"] + 1]:
        k.z, k.v = z0 * row, v0 * row
        f = k.field(L)
        p = nmt.compute_coupled_cell(f, f)
        mx = max(mx, np.max(np.abs(p)))
        av = av + p / len(H)
    x.close(av[:, s:], 0 * av[:, s:], atol=2e-4 * (mx + k.nf()) * np.sqrt(
        k.c["n"]), msg="mean spectrum over random signs")
    x.label(f"spin{s}")
    x.nontrivial(k.nontrivial())


def gen_mcm(d):
    c = gen(d)
    c["L"] = max(2, c["s"]) + d.int(0, 8)
    c["s2"] = d.choice([0, 0, 1, 2])
    c["L"] = max(c["L"], c["s2"])
    c["Lm"] = d.choice([None, d.int(2, 2 * c["L"] + 1)])
    c["other"] = d.choice(["same", "same", "equal", "cat", "spin"])
    c["values"] = d.bool()
    c["cat2"] = gen_cat(d)
    return c


def matrix(c, x):
    """Mode coupling: the mask spectrum loses its noise in auto-spectra
    only."""
    L, s = c["L"], c["s"]
    k = Cat(c["cat"], s)
    f = k.field(L, c["Lm"], values=c["values"])
    o = c["other"]
    if o == "same":
        g, kg = f, k
    elif o == "equal":
        g, kg = k.field(L, c["Lm"], values=c["values"]), k
    elif o == "spin":
        kg = Cat(c["cat"], c["s2"])
        g = kg.field(L, c["Lm"], values=c["values"])
    else:
        kg = Cat(c["cat2"], c["s2"])
        g = kg.field(L, c["Lm"], values=c["values"])
    Lm = L if c["Lm"] is None else c["Lm"]
    x.check(f.spin == s and f.nmaps == (2 if s else 1),
            "spin and number of components")
    p = pcl_of([k.mask(Lm)], [kg.mask(Lm)], Lm)[0, 0]
    sc = np.sqrt(np.max(pcl_of([k.mask(Lm)], [k.mask(Lm)], Lm)) *
                 np.max(pcl_of([kg.mask(Lm)], [kg.mask(Lm)], Lm)))
    if o == "same":
        p = p - k.nw()
    b = nmt.NmtBin.from_lmax_linear(L, 1)
    w = nmt.NmtWorkspace.from_fields(f, g, b)
    want = ref.mcm_iso(p, L, f.spin, g.spin)
    x.close(w.get_coupling_matrix(), want, rtol=0,
            atol=4e-4 * sc * (2 * Lm + 1) * (L + 1),
            msg=f"coupling matrix ({o})")
    # and to rounding, given the library's own coefficients
    p = pcl_of([f.get_mask_alms()], [g.get_mask_alms()], Lm)[0, 0]
    if o == "same":
        p = p - f.Nw
    want = ref.mcm_iso(p, L, f.spin, g.spin)
    x.close(w.get_coupling_matrix(), want,
            atol=1e-9 * sc * (2 * Lm + 1) * (L + 1),
            msg=f"coupling matrix ({o}), own coefficients")
    x.label(o, f"spins{f.spin}{g.spin}")
    x.nontrivial(k.nontrivial())


def gen_cross(d):
    c = gen_mcm(d)
    c["map"] = d.choice([0, 0, 1])
    return c


def cross(c, x):
    """Spectra with other catalogues and with maps."""
    L, s = c["L"], c["s"]
    k = Cat(c["cat"], s)
    f = k.field(L, L)
    rng = rng_of(c["cat"]["seed"], 9)
    s2 = c["s2"]
    if c["map"]:
        npix = 192
        mp = rng.standard_normal((2 if s2 else 1, npix))
        m = rng.random(npix)
        g = nmt.NmtField(m, mp, spin=s2, lmax=L, lmax_mask=L, n_iter=0,
                         n_iter_mask=0)
        th, ph = hp.pix2ang(4, np.arange(npix))
        b = sht.SHT(L, th, ph).anal(mp * m, s2, np.full(
            npix, 4 * np.pi / npix))
    else:
        kg = Cat(c["cat2"], s2)
        g = kg.field(L, L)
        b = kg.alm(L)
    a = k.alm(L)
    want = pcl_of(a, b, L)
    sc = np.sqrt(np.max(np.abs(pcl_of(a, a, L))) *
                 np.max(np.abs(pcl_of(b, b, L))))
    x.close(nmt.compute_coupled_cell(f, g).reshape(want.shape), want,
            atol=1e-3 * sc * (L + 1), msg="cross-spectrum")
    x.close(nmt.compute_coupled_cell(g, f).reshape(
        want.transpose(1, 0, 2).shape), want.transpose(1, 0, 2),
        atol=1e-3 * sc * (L + 1), msg="cross-spectrum, swapped")
    x.label("map" if c["map"] else "catalogues", f"spins{s}{s2}")
    x.nontrivial(k.nontrivial())


def gen_rel(d):
    return dict(gen(d), perm=d.seed(), parts=d.int(2, 3), rot=d.float(
        0.01, 6.))


def relations(c, x):
    """Order, splitting, weighting convention, coordinates, rotation."""
    L, s = c["L"], c["s"]
    k = Cat(c["cat"], s)
    n = k.c["n"]
    f = k.field(L)
    a, m = f.get_alms(), f.get_mask_alms()
    ta, tm = 2 * tol(a) + 1e-4 * np.sqrt(np.sum(k.z**2)), \
        2 * tol(m) + 1e-4 * np.sqrt(np.sum(k.w**2))
    ta *= np.sqrt(n)
    tm *= np.sqrt(n)

    def same(g, msg, noise=True):
        x.close(g.get_alms(), a, atol=ta, msg=f"coefficients: {msg}")
        x.close(g.get_mask_alms(), m, atol=tm, msg=f"mask: {msg}")
        if noise:
            x.close(g.Nf, f.Nf, rtol=1e-9, msg=f"noise: {msg}")
            x.close(g.Nw, f.Nw, rtol=1e-9, msg=f"mask noise: {msg}")
    # other conventions
    for key in ("lonlat", "weighted", "aslist"):
        k2 = Cat(dict(c["cat"], **{key: not c["cat"][key]}), s)
        same(k2.field(L), f"other {key}")
    # order
    p = np.random.default_rng(c["perm"]).permutation(n)
    same(nmt.NmtFieldCatalog(k.pos[:, p], k.w[p], k.v[:, p], L, spin=s),
         "order of the sources")
    # splitting every source into fractions
    fr = np.random.default_rng(c["perm"]).dirichlet(np.ones(c["parts"]), n).T
    q = np.tile(np.arange(n), c["parts"])
    wf = (fr * k.w).ravel()
    same(nmt.NmtFieldCatalog(k.pos[:, q], wf, k.v[:, q], L, spin=s),
         "fractions of the sources", noise=False)
    # default spin
    if s in (0, 2):
        g = nmt.NmtFieldCatalog(k.pos, k.w, k.v if s else k.v[0], L)
        x.check(g.spin == s, "default spin")
        same(g, "default spin")
    # a rotation in longitude
    pr = k.pos.copy()
    pr[1] = (pr[1] + c["rot"]) % (2 * np.pi)
    g = nmt.NmtFieldCatalog(pr, k.w, k.v, L, spin=s)
    ls, ms = sht.lm_index(L)
    x.close(g.get_alms() * np.exp(1j * ms * c["rot"]), a, atol=ta,
            msg="rotation in longitude")
    x.label(f"spin{s}")
    x.nontrivial(k.nontrivial())


def gen_clus(d):
    L = d.int(1, 12)
    return dict(L=L, d=gen_cat(d), r=gen_cat(d, 30), seed=d.seed())


def clustering(c, x):
    L = c["L"]
    D, R = Cat(c["d"], 0), Cat(dict(c["r"], lonlat=c["d"]["lonlat"]), 0)
    D.w, R.w = np.abs(D.w) + 0.01, np.abs(R.w) + 0.01
    f = nmt.NmtFieldCatalogClustering(
        D.given(D.pos), D.w, R.given(R.pos), R.w, L,
        lonlat=c["d"]["lonlat"])
    al = np.sum(D.w) / np.sum(R.w)
    x.close(f.alpha, al, rtol=1e-12, msg="alpha")
    m = al * R.mask(L)
    dd = D.mask(L)
    sc = tol(m) + tol(dd)
    x.close(f.get_mask_alms(), m, atol=sc, msg="coefficients of the mask")
    x.close(f.get_alms(), [dd - m], atol=sc, msg="coefficients of the field")
    nw = al**2 * np.sum(R.w**2) / (4 * np.pi)
    nf = np.sum(D.w**2) / (4 * np.pi) + nw
    x.close(f.Nw, nw, rtol=1e-10, msg="noise of the mask")
    x.close(f.Nf, nf, rtol=1e-10, msg="noise of the field")
    a = f.get_alms()
    raw = pcl_of(a, a, L)[0]
    got = nmt.compute_coupled_cell(f, f)
    x.close(got, raw - nf, atol=1e-9 * (np.max(raw) + nf),
            msg="auto-spectrum")
    g = nmt.NmtFieldCatalogClustering(
        D.given(D.pos), D.w, R.given(R.pos), R.w, L,
        lonlat=c["d"]["lonlat"])
    x.close(nmt.compute_coupled_cell(f, g), raw,
            atol=1e-9 * (np.max(raw) + nf), msg="spectrum with an equal "
            "field")
    am = f.get_mask_alms()
    pm = pcl_of([am], [am], L)[0, 0]
    b = nmt.NmtBin.from_lmax_linear(L, 1) if L > 2 else None
    if b is not None:
        for h, p in ((f, pm - nw), (g, pm)):
            w = nmt.NmtWorkspace.from_fields(f, h, b)
            want = ref.mcm_iso(p, L, 0, 0)
            x.close(w.get_coupling_matrix(), want,
                    atol=1e-9 * np.max(pm) * (L + 1) * (2 * L + 1),
                    msg="coupling matrix")
    # the same sources as data and randoms: nothing left
    e = nmt.NmtFieldCatalogClustering(R.pos, R.w, R.pos, R.w * 3, L)
    x.close(e.get_alms(), 0 * e.get_alms(), atol=2 * tol(R.mask(L)),
            msg="data equal to the randoms")
    # weights of the randoms are relative
    h = nmt.NmtFieldCatalogClustering(D.pos, D.w, R.pos, 7 * R.w, L)
    x.close(h.get_alms(), a, atol=3 * sc, msg="scaled randoms")
    x.close([h.Nf, h.Nw], [f.Nf, f.Nw], rtol=1e-9, msg="scaled randoms")
    x.label("lonlat" if c["d"]["lonlat"] else "thetaphi")
    x.nontrivial(c["d"]["n"] > 1 and c["r"]["n"] > 1)


BAD = ["npos", "naxes", "nval", "ncomp", "th_neg", "th_big", "ph_neg",
       "ph_big", "lat", "lon", "beam_short", "nospin", "spin0_two",
       "spin2_one", "swap", "lmax"]


def gen_bad(d):
    return dict(n=d.int(2, 6), what=d.choice(BAD), i=d.int(0, 5),
                e=d.float(0.001, 5.), seed=d.seed(), clus=d.bool())


def bad(c, x):
    rng = rng_of(c["seed"])
    n, w, i = c["n"], c["what"], c["i"] % c["n"]
    pos = positions(n, "uniform", rng)
    wt = rng.random(n)
    v = rng.standard_normal((1, n))
    kw = {}
    L = 5
    x.label(w)
    x.nontrivial()
    deg = np.array([np.degrees(pos[1]), 90 - np.degrees(pos[0])])
    clus = c["clus"]
    if w == "npos":
        pos = pos[:, :-1]
    elif w == "naxes":
        pos = pos[:1]
    elif w == "nval":
        v = v[:, 1:]
        clus = False
    elif w == "ncomp":
        v = np.ones((3, n))
        clus = False
    elif w == "th_neg":
        pos[0, i] = -c["e"]
    elif w == "th_big":
        pos[0, i] = np.pi + c["e"]
    elif w == "ph_neg":
        pos[1, i] = -c["e"]
    elif w == "ph_big":
        pos[1, i] = 2 * np.pi + c["e"]
    elif w == "lat":
        deg[1, i] = (90 + c["e"]) * (-1)**c["i"]
        pos, kw = deg, dict(lonlat=True)
    elif w == "lon":
        deg[0, i] = 360 + c["e"] if c["i"] % 2 else -c["e"]
        pos, kw = deg, dict(lonlat=True)
    elif w == "swap":
        # longitude and latitude given in the wrong order
        deg[0, i] = 91 + c["e"]
        pos, kw = deg[::-1], dict(lonlat=True)
    elif w == "beam_short":
        kw = dict(beam=np.ones(L))
        clus = False
    elif w == "nospin":
        v = None
        clus = False
    elif w == "spin0_two":
        v, kw = np.ones((2, n)), dict(spin=0)
        clus = False
    elif w == "spin2_one":
        kw = dict(spin=2)
        clus = False
    elif w == "lmax":
        a = nmt.NmtFieldCatalog(pos, wt, v, L)
        b = nmt.NmtFieldCatalog(pos, wt, v, L + 1 + c["i"])
        e = nmt.NmtFieldCatalog(pos, wt, v, L, lmax_mask=L + 1 + c["i"])
        for o in (b, e):
            x.check(not a.is_compatible(o), "different band limits")
            x.raises(lambda: nmt.compute_coupled_cell(a, o), Exception, w)
            x.raises(lambda: nmt.NmtWorkspace.from_fields(
                a, o, nmt.NmtBin.from_lmax_linear(L, 1)), Exception, w)
        x.raises(a.get_mask, Exception, "mask of a catalogue")
        x.raises(a.get_maps, Exception, "maps of a catalogue")
        x.raises(lambda: nmt.NmtFieldCatalog(
            pos, wt, None, L, spin=0).get_alms(), Exception,
            "coefficients without values")
        return
    if clus:
        p2 = positions(n, "uniform", rng)
        if kw.get("lonlat"):
            p2 = np.array([np.degrees(p2[1]), 90 - np.degrees(p2[0])])
        for a, b in ((pos, p2), (p2, pos)):
            x.raises(lambda: nmt.NmtFieldCatalogClustering(
                a, wt, b, wt, L, **kw), Exception, w)
    else:
        x.raises(lambda: nmt.NmtFieldCatalog(pos, wt, v, L, **kw), Exception,
                 w)


SUBS = [
    Sub("coefficients", gen, coeffs, quick=1000, thorough=8000, rule=RULE),
    Sub("random-signs", gen_signs, signs, quick=240, thorough=1500,
        rule=RULE),
    Sub("coupling", gen_mcm, matrix, quick=480, thorough=3000, rule=RULE),
    Sub("cross", gen_cross, cross, quick=480, thorough=3000, rule=RULE),
    Sub("relations", gen_rel, relations, quick=400, thorough=2500,
        rule=RULE),
    Sub("clustering", gen_clus, clustering, quick=480, thorough=4000,
        rule="at least two data and two random sources"),
    Sub("refused", gen_bad, bad, quick=320, thorough=1000,
        rule="one defect per case"),
    Sub("noise-below-spin", gen_low, below_spin, quick=40, thorough=100,
        rule=RULE),
    Sub("large", gen_large, coeffs, quick=40, thorough=800, rule=RULE,
        weight=50),
    Sub("large-coupling", gen_mcl, matrix, quick=40, thorough=800, rule=RULE,
        weight=50),
]
