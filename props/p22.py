"""P22: flat-sky fields, pseudo-spectra and the one-call estimator."""
import numpy as np
import pymaster as nmt
from lib.gen import rng_of
from lib.pbt import Sub
from props.p21 import (MASKS, bands_of, beam_of, cuts_of, gen_bands,
                       gen_cuts, gen_patch, mask_of, patch_of)

RULE = ("Non-trivial: templates are removed or a cross-spectrum has at least "
        "one band with Fourier modes in it.")
ASSUMPTIONS = ["edges of bands and mode cuts are not on a Fourier mode other than zero to "
               "rounding",
               "templates are either well conditioned or exactly degenerate"]
SPINS = [0, 0, 0, 0, 0, 0, 1, 1, 2, 2, 2, 2, 2, 2, 3, 3, 4, 4, 5, 6, 9]


def gen_field(d):
    return dict(s=d.choice(SPINS), mask=d.choice(MASKS), nt=d.rare(d.int(0, 3), d.int(4, 8)),
                dup=d.choice([0, 0, 1, 2]), masked=d.choice(
                    [False, False, True]), lite=d.choice([False, False, True]),
                beam=d.choice([False, True]), dt=d.choice(
                    ["f8", "f8", "f4", ">f8", "i8", "list"]),
                fseed=d.seed())


def gen(d):
    return dict(patch=gen_patch(d, 12), bands=gen_bands(d), cuts=gen_cuts(d),
                f=[gen_field(d), gen_field(d)],
                same=d.choice([False, False, True]), mult=d.bool(),
                seed=d.seed())


def gen_large(d):
    c = gen(d)
    c["patch"].update(nx=d.int(20, 150), ny=d.int(20, 150))
    c["bands"]["nb"] = d.choice([3, 10, 30, 80])
    c["f"][0]["nt"] = d.choice([0, 1, 4, 10])
    return c


class F:
    """Field and its expected contents."""


def build(P, f, rng=None, lite=None, lin=None, shuffle=False):
    r = rng_of(f["fseed"])
    o = F()
    o.s, o.n = f["s"], 2 if f["s"] else 1
    sh = (P.ny, P.nx)
    o.m = mask_of(P.ny, P.nx, f["mask"], r)
    mp = r.standard_normal((o.n,) + sh)
    t = r.standard_normal((f["nt"], o.n) + sh)
    if f["dt"] == "i8":
        mp, t = np.round(10 * mp), np.round(10 * t)
        mp, t = mp.astype("i8"), t.astype("i8")
    elif f["dt"] != "list":
        mp, t = mp.astype(f["dt"]), t.astype(f["dt"])
    o.beam = beam_of(P, r) if f["beam"] else None
    if lin is not None:
        mp = np.asarray(mp, float) + lin
    o.nt = f["nt"]
    if o.nt and f["dup"]:
        for _ in range(f["dup"]):
            t = np.concatenate([t, t[:1] * (2 if f["dt"] == "i8" else
                                            r.choice([0.5, 2, -1, 4]))])
    o.deg = o.nt * o.n > 0 and bool(f["dup"])
    mm, tt = mp.astype(float), t.astype(float)
    if shuffle and o.nt:
        q = rng.permutation(len(t))
        t = t.astype(float)[q] * rng.uniform(0.5, 2, len(t))[
            :, None, None, None]
    mi, ti = mp, t
    if f["masked"]:
        mi, ti = mp.astype(float) * o.m, t.astype(float) * o.m
    if f["dt"] == "list":
        mi = [np.array(a, float) for a in mi]
        ti = [[np.array(a, float) for a in b] for b in ti]
    o.wm, o.wt = mm * o.m, tt * o.m
    o.clean = o.wm
    o.cond, o.amb = 1., False
    if o.nt:
        A = o.wt.reshape(len(o.wt), -1)
        u, s, v = np.linalg.svd(A, full_matrices=False)
        keep = s > 1e-6 * s[0] if s[0] > 0 else np.zeros(len(s), bool)
        o.amb = s[0] > 0 and bool(np.any((s > 1e-9 * s[0]) &
                                         (s < 1e-3 * s[0])))
        v = v[keep]
        o.clean = (o.wm.ravel() - v.T @ (v @ o.wm.ravel())).reshape(
            o.wm.shape)
        o.cond = (s[0] / s[keep][-1])**2 if keep.any() else 1.
    ins = [np.array(z, copy=True) for z in (mi, o.m)]
    kw = {}
    if o.nt:
        kw["templates"] = ti
        ins.append(np.array(ti, copy=True))
        kw["tol_pinv"] = 1e-9
    if o.beam is not None:
        kw["beam"] = o.beam
    o.f = nmt.NmtFieldFlat(P.lx, P.ly, o.m, mi, spin=o.s,
                           masked_on_input=f["masked"],
                           lite=f["lite"] if lite is None else lite, **kw)
    o.lite = f["lite"] if lite is None else lite
    for a, b in zip(ins, (mi, o.m) + ((ti,) if o.nt else ())):
        if not np.array_equal(a, np.array(b)):
            raise AssertionError("an input of the field was modified")
    o.sc = np.max(np.abs(o.wm)) + 1e-300
    return o


def fields(c, x):
    """Maps, masks and templates held by a field."""
    rng = rng_of(c["seed"])
    P = patch_of(c, rng)
    o = build(P, c["f"][0], lite=False)
    if o.amb:
        return
    x.label(f"spin {o.s}", c["f"][0]["dt"])
    if o.nt:
        x.label("templates" + (" degenerate" if o.deg else ""))
    x.equal(o.f.get_mask(), o.m, msg="mask")
    x.close(o.f.get_maps(), o.clean, atol=1e-11 * o.cond * o.sc, msg="maps")
    if o.nt:
        x.close(o.f.get_templates(), o.wt, atol=1e-12 * np.max(
            np.abs(o.wt)), msg="templates")
        x.check(np.all(np.abs(np.einsum(
            "tixy,ixy->t", o.wt, o.f.get_maps())) <= 1e-10 * o.cond * max(
                np.max(np.abs(o.wt)), 1e-300) * o.sc * o.m.size),
            "templates correlate with the cleaned maps")
        q = build(P, c["f"][0], rng, lite=False, shuffle=True)
        x.close(q.f.get_maps(), o.f.get_maps(), atol=3e-11 * o.cond * o.sc,
                msg="template order and scale")
    f = dict(c["f"][0], masked=not c["f"][0]["masked"])
    if f["dt"] not in ("i8", "f4"):
        q = build(P, f, lite=False)
        x.close(q.f.get_maps(), o.f.get_maps(), atol=3e-11 * o.cond * o.sc,
                msg="masked_on_input")
    q = build(P, c["f"][0], lite=True)
    for g in (q.f.get_maps, q.f.get_templates):
        x.raises(g, ValueError, "lite field")
    x.equal(q.f.get_mask(), o.m, msg="mask of a lite field")
    x.nontrivial(o.nt > 0 and P.nx * P.ny > 2)


def pcl(P, a, b, bins, cuts):
    return nmt.compute_coupled_cell_flat(a, b, bins, ell_cut_x=cuts[0],
                                         ell_cut_y=cuts[1])


def spectra(c, x):
    rng = rng_of(c["seed"])
    P = patch_of(c, rng)
    l0, lf = bands_of(c, P)
    cuts = cuts_of(c, P)
    if not P.clear(l0, lf, *cuts):
        return
    a = build(P, c["f"][0])
    b = a if c["same"] else build(P, c["f"][1])
    if a.amb or b.amb:
        return
    bins = nmt.NmtBinFlat(l0, lf)
    bd, _ = P.bands(l0, lf, *cuts)
    A, B = P.alms(a.clean, a.s), P.alms(b.clean, b.s)
    want = P.cls(A, B, bd, len(l0))
    sc = max(np.max(np.abs(A)) * np.max(np.abs(B)), 1e-300) * \
        4 * np.pi**2 / P.area
    t = 1e-10 * max(a.cond, b.cond) * (
        1 + a.sc / max(np.max(np.abs(a.clean)), 1e-300)) * (
        1 + b.sc / max(np.max(np.abs(b.clean)), 1e-300))
    if t > 1e-3:
        return
    tol = dict(rtol=0, atol=t * sc)
    got = pcl(P, a.f, b.f, bins, cuts)
    x.label("spins %d%d" % (a.s, b.s), "cut x " + c["cuts"]["x"],
            "cut y " + c["cuts"]["y"])
    x.close(got, want, msg="pseudo-spectra", **tol)
    g2 = pcl(P, b.f, a.f, bins, cuts)
    x.close(g2.reshape(b.n, a.n, -1).transpose(1, 0, 2).reshape(got.shape),
            got, msg="exchanged fields", **tol)
    if c["cuts"]["x"] == c["cuts"]["y"] == "no":
        x.close(nmt.compute_coupled_cell_flat(a.f, b.f, bins), got, 1e-13,
                atol=1e-14 * sc, msg="no cuts")
    # linear in the maps
    if a.cond * b.cond < 100 and not c["f"][0]["masked"]:
        d = rng.standard_normal(a.wm.shape)
        f1 = build(P, dict(c["f"][0]), lin=d)
        f2 = build(P, dict(c["f"][0]), lin=-d)
        x.close(0.5 * (pcl(P, f1.f, b.f, bins, cuts) +
                       pcl(P, f2.f, b.f, bins, cuts)), pcl(
            P, a.f, b.f, bins, cuts), atol=100 * t * sc * (
                1 + np.max(np.abs(d * a.m)) / a.sc), msg="linearity")
        x.label("linearity")
    x.nontrivial(bool(np.any(bd >= 0)) and np.max(np.abs(want)) > 0)


def gen_full(d):
    c = gen(d)
    for f in c["f"]:
        f["dup"] = 0
        f["lite"] = d.choice([False, False, False, True])
    c.update(noise=d.bool(), guess=d.bool(), wsp=d.bool())
    return c


def full(c, x):
    """One-call estimator against its steps."""
    rng = rng_of(c["seed"])
    P = patch_of(c, rng)
    l0, lf = bands_of(c, P)
    cuts = cuts_of(c, P)
    a = build(P, c["f"][0])
    b = a if c["same"] else build(P, c["f"][1])
    bins = nmt.NmtBinFlat(l0, lf)
    w = nmt.NmtWorkspaceFlat()
    w.compute_coupling_matrix(a.f, b.f, bins, ell_cut_x=cuts[0],
                              ell_cut_y=cuts[1])
    nc, nb = a.n * b.n, len(l0)
    # conditioning through the response to unit vectors
    inv = []
    cl = pcl(P, a.f, b.f, bins, cuts)
    try:
        for i in range(nc * nb):
            e = np.zeros(nc * nb)
            e[i] = 1
            inv.append(w.decouple_cell(e.reshape(nc, nb)).ravel())
    except RuntimeError:
        x.label("singular")
        return
    inv = np.array(inv)
    if not np.all(np.isfinite(inv)):
        x.label("singular")
        return
    kw, ns, bias = {}, None, None
    if c["noise"]:
        ns = kw["cl_noise"] = rng.standard_normal((nc, nb)) * np.max(
            np.abs(cl))
    lite = a.lite or b.lite
    if c["guess"]:
        n = int(rng.integers(2, 20))
        ls = np.sort(rng.uniform(0, 1.2, n)) * (np.max(P.k) + 1e-3)
        g = rng.standard_normal((nc, n))
        kw["cl_guess"], kw["ells_guess"] = g, ls
        if not lite:
            bias = nmt.deprojection_bias_flat(
                a.f, b.f, bins, ls, g, ell_cut_x=cuts[0], ell_cut_y=cuts[1])
    if c["wsp"]:
        kw["workspace"] = w

    def run():
        return nmt.compute_full_master_flat(
            a.f, b.f, bins, ell_cut_x=cuts[0], ell_cut_y=cuts[1], **kw)
    x.label("spins %d%d" % (a.s, b.s), "lite" if lite else "full")
    if lite and c["guess"] and (a.nt or b.nt):
        x.label("lite with guess")
        x.raises(run, Exception, "deprojection bias of lite fields")
        return
    if lite and c["guess"]:
        # nothing to remove: either refused or no bias
        try:
            got = run()
        except (ValueError, RuntimeError):
            return
    else:
        got = run()
    want = w.decouple_cell(cl, cl_bias=bias, cl_noise=ns)
    S = 4 * np.pi**2 / P.area * np.prod(
        [q.cond * max(np.max(np.abs(z)) for z in P.alms(q.wm, q.s))
         for q in (a, b)])
    tot = np.abs(cl) + 1e-3 * S + (0 if ns is None else np.abs(ns)) + \
        (0 if bias is None else np.abs(bias))
    x.close(got, want, atol=1e-9 * (
        np.abs(inv.T) @ tot.ravel()).max() + 1e-300,
        msg="one-call estimator")
    x.nontrivial(np.max(np.abs(want)) > 0)


def gen_tol(d):
    c = gen(d)
    c["f"][0].update(nt=0, masked=False, dt="f8")
    c.update(nt=d.int(2, 5), near=[d.choice([0, 1, 1, 2, 3])
                                   for _ in range(5)],
             tol=d.choice(["mid", "mid", "mid", "default", "low"]),
             masked=d.bool())
    return c


def tolerance(c, x):
    """Directions of the templates' covariance below the tolerance times the
    largest are left in the map."""
    rng = rng_of(c["seed"])
    P = patch_of(c, rng)
    f = c["f"][0]
    n = 2 if f["s"] else 1
    m = mask_of(P.ny, P.nx, f["mask"], rng)
    mp = rng.standard_normal((n, P.ny, P.nx))
    t = rng.standard_normal((c["nt"], n, P.ny, P.nx))
    for k in range(1, len(t)):
        if c["near"][k]:
            t[k] = t[k - 1] + 10.**-c["near"][k] * t[k]
    wm, wt = mp * m, t * m
    A = wt.reshape(len(t), -1)
    ev, u = np.linalg.eigh(A @ A.T)
    if not ev[-1] > 0 or np.any(ev / ev[-1] < 1e-9):
        x.label("ill-posed templates (skipped)")
        return
    y = ev / ev[-1]
    gaps = [i for i in range(1, len(y)) if y[i] > 10 * y[i - 1]]
    i, kw = 0, {}
    if c["tol"] == "mid" and gaps:
        i = gaps[int(rng.integers(len(gaps)))]
        kw["tol_pinv"] = float(np.exp(rng.uniform(np.log(2 * y[i - 1]),
                                                  np.log(y[i] / 2))))
    elif c["tol"] == "low":
        kw["tol_pinv"] = float(y[0] / 5)
    x.label("spin %d" % f["s"], "tolerance " + c["tol"])
    x.nontrivial(i > 0)
    good = np.arange(len(y)) >= i
    al = u[:, good] @ ((u[:, good].T @ (A @ wm.ravel())) / ev[good])
    want = wm - np.tensordot(al, wt, 1)
    sc = np.max(np.abs(wm)) + np.max(np.abs(al)) * np.max(np.abs(wt)) + 1e-300
    if c["masked"]:
        mp, t = wm, wt
    g = nmt.NmtFieldFlat(P.lx, P.ly, m, mp, spin=f["s"], templates=t,
                         masked_on_input=c["masked"], **kw)
    x.close(g.get_maps(), want, atol=(1e-12 / y[good][0] + 1e-11) * sc,
            msg="maps cleaned with a tolerance")


SUBS = [Sub("tolerance", gen_tol, tolerance, quick=800, thorough=10000,
            rule="at least one direction of the templates is below the "
            "tolerance"),
        Sub("fields", gen, fields, quick=1000, thorough=20000),
        Sub("spectra", gen, spectra, quick=1000, thorough=20000),
        Sub("full", gen_full, full, quick=800, thorough=15000),
        Sub("large-fields", gen_large, fields, quick=60, thorough=2000,
            weight=20),
        Sub("large-spectra", gen_large, spectra, quick=100, thorough=3000,
            weight=20)]
