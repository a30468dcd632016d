"""P06: workspace histories."""
import os
import numpy as np
import pymaster as nmt
from astropy.io import fits
from lib import wsgen
from lib.gen import rand_bins, rng_of
from lib.pbt import Sub

RULE = ("Non-trivial: at least two state-changing operations and a final "
        "comparison with a well-conditioned fresh workspace.")
ASSUMPTIONS = ["comparisons of decoupled quantities are skipped when the "
               "binned matrix has condition number above 1e8"]
OPS = ["beams", "bins", "matrix", "recompute", "save_load", "load_lite",
       "other", "reread", "bad_beam", "bad_bins", "bad_matrix", "bad_read",
       "bad_compute", "query", "shared_bins", "overwrite", "old_format"]


def gen(d):
    c = wsgen.gen_fields(d, lmax_hi=12)
    c["norm"] = d.choice(["MASTER", "MASTER", "FKP"])
    c["ops"] = [[d.choice(OPS), d.int(0, 10**6)]
                for _ in range(d.int(2, 9))]
    c["overlap"] = d.bool()
    c["from_init"] = d.choice(["from_fields", "bare", "ctor"])
    return c


class State:
    pass


def compute(c, rng, norm, w=None, how="from_fields"):
    """(Re)computes a workspace, returning it with its model."""
    f1, f2 = wsgen.pair(c, rng)
    lmin = 0 if max(c["s1"], c["s2"]) == 0 else max(2, c["s1"], c["s2"])
    b, W, F = rand_bins(c["lmax"], rng, lmin=lmin, nbmax=4,
                        overlap=c.get("overlap", False))
    if w is not None or how == "bare":
        if w is None:
            w = nmt.NmtWorkspace()
        w.compute_coupling_matrix(f1, f2, b, is_teb=c["teb"],
                                  normalization=norm)
    elif how == "ctor":
        w = nmt.NmtWorkspace(f1, f2, b, is_teb=c["teb"], normalization=norm)
    else:
        w = nmt.NmtWorkspace.from_fields(f1, f2, b, is_teb=c["teb"],
                                         normalization=norm)
    s = State()
    s.f1, s.f2, s.b, s.W, s.F, s.norm, s.c = f1, f2, b, W, F, norm, c
    s.beam1, s.beam2 = [np.array(f.beam[:c["lmax"] + 1])
                        for f in (f1, f2)]
    s.M = None          # replaced matrix
    s.unb = True
    s.fresh_from_fields = True
    return w, s


def fresh(s):
    """A workspace built directly in the final state."""
    c = s.c
    rng = rng_of(c["seed"], 99)
    f1 = nmt.NmtField(**field_args(s.f1, s.beam1))
    f2 = f1 if s.f2 is s.f1 and np.array_equal(s.beam1, s.beam2) else \
        nmt.NmtField(**field_args(s.f2, s.beam2))
    del rng
    w = nmt.NmtWorkspace.from_fields(f1, f2, s.b, is_teb=c["teb"],
                                     normalization=s.norm)
    if s.M is not None:
        w.update_coupling_matrix(s.M)
    return w


def field_args(f, beam):
    a = dict(mask=f.mask, maps=None, spin=f.spin, lmax=f.ainfo.lmax,
             lmax_mask=f.ainfo_mask.lmax, purify_e=f.pure_e,
             purify_b=f.pure_b, beam=beam, n_iter=0, n_iter_mask=0)
    if f.anisotropic_mask:
        m0, (m1, m2) = f.mask, f.mask_a
        a.update(mask=m0 + m1, mask_22=m0 - m1, mask_12=m2)
    return a


def to_old_format(f, norm):
    """Rewrites a file the way older versions stored it: one table per band,
    and no type of normalisation."""
    with fits.open(f) as h:
        out = []
        for x in h:
            if x.name == "BANDPOWERS":
                b, ell, wt, fl = [np.array(x.data.field(i))
                                  for i in range(4)]
                nb = x.header["N_BANDS"]
                t = fits.BinTableHDU.from_columns([fits.Column(
                    "NELLS", "1J", array=[np.sum(b == i) for i in range(
                        nb)])], name="BINS_SUMMARY")
                t.header["N_BANDS"] = nb
                t.header["ELL_MAX"] = x.header["ELL_MAX"]
                out.append(t)
                for i in range(nb):
                    g = b == i
                    out.append(fits.BinTableHDU.from_columns([
                        fits.Column("ELLS", "1J", array=ell[g]),
                        fits.Column("WEIGHTS", "1D", array=wt[g]),
                        fits.Column("F_ELL", "1D", array=fl[g])],
                        name="BINS_BAND_%d" % (i + 1)))
            else:
                x = x.copy()
                if norm == "MASTER" and "NORM_TYPE" in x.header:
                    del x.header["NORM_TYPE"]
                out.append(x)
        fits.HDUList(out).writeto(f, overwrite=True)


def compare(w, s, ctx, rng, deep=False):
    g = fresh(s)
    n = wsgen.ncls(s.c)
    L = s.c["lmax"] + 1
    M = g.get_coupling_matrix()
    m = wsgen.Model(M, n, L - 1, s.beam1 * s.beam2, s.W, s.F, s.norm,
                    np.mean(s.f1.get_mask() * s.f2.get_mask()))
    x, y, z = rng.standard_normal((3, n, L))
    if s.unb:
        ctx.close(w.get_coupling_matrix(), M, 1e-13, msg="coupling matrix")
        ctx.close(w.couple_cell(x), g.couple_cell(x), 1e-12,
                  scale=np.max(np.abs(M)) * L * n + 1e-300,
                  msg="coupled spectra")
    else:
        for nm, fn in (("get_coupling_matrix", lambda:
                        w.get_coupling_matrix()),
                       ("couple_cell", lambda: w.couple_cell(x)),
                       ("get_bandpower_windows", lambda:
                        w.get_bandpower_windows()),
                       ("write_to", lambda: w.write_to("nope.fits")),
                       ("update_coupling_matrix", lambda:
                        w.update_coupling_matrix(M)),
                       ("update_beams", lambda:
                        w.update_beams(np.ones(L) * 2, np.ones(L))),
                       ("update_bins", lambda: w.update_bins(s.b))):
            ctx.raises(fn, Exception, "without the unbinned matrix " + nm)
    k = m.cond()
    if k < 1e8:
        tol = 1e-13 * k * 10 + 1e-11
        ctx.close(w.decouple_cell(x), g.decouple_cell(x), tol,
                  msg="decoupled bandpowers")
        ctx.close(w.decouple_cell(x, cl_bias=y, cl_noise=z),
                  m.decouple(x - y - z), tol,
                  scale=3 * np.max(np.abs(m.decouple(x))),
                  msg="decoupled bandpowers (model)")
        if s.unb:
            ctx.close(w.get_bandpower_windows(), g.get_bandpower_windows(),
                      tol, msg="bandpower windows")
        return True
    return False


def fn(c, ctx):
    wsgen.labels(c, ctx)
    rng = rng_of(c["seed"])
    base = os.path.join(os.getcwd(), "p06_%d" % os.getpid())
    w, s = compute(c, rng, c["norm"], how=c["from_init"])
    good = True
    nchange = 0
    files = []
    others = []
    try:
        for i, (op, r) in enumerate(c["ops"]):
            rng = rng_of(c["seed"], i, r)
            L = s.c["lmax"] + 1
            ctx.label(op)
            if op == "beams" and s.unb:
                b1 = 0.2 + rng.random(L + int(rng.integers(0, 3)))
                b2 = 0.2 + rng.random(L)
                w.update_beams(b1, b2)
                s.beam1, s.beam2 = b1[:L].copy(), b2
                b1 *= 7
                nchange += 1
            elif op in ("bins", "shared_bins") and s.unb:
                lmin = 0 if max(s.c["s1"], s.c["s2"]) == 0 else max(
                    2, s.c["s1"], s.c["s2"])
                b, W, F = rand_bins(L - 1, rng, lmin=lmin, nbmax=4,
                                    overlap=c.get("overlap", False))
                w.update_bins(b)
                if op == "shared_bins":
                    # the workspace does not depend on the life of the bins
                    del s.b
                    b.__del__()
                    b.bin = None
                    b = bins_like(W, F, L - 1)
                s.b, s.W, s.F = b, W, F
                nchange += 1
            elif op == "matrix" and s.unb:
                n = wsgen.ncls(s.c) * L
                M = rng.standard_normal((n, n)) + 2 * np.eye(n)
                s.M = M.copy()
                w.update_coupling_matrix(M)
                M *= 0
                nchange += 1
            elif op == "recompute":
                c2 = dict(s.c, seed=int(rng.integers(2**31)))
                if rng.random() < 0.5:
                    c2.update(lmax=int(rng.integers(4, 13)), aniso=0,
                              pure=[False] * 4, same=False)
                    c2["lmax_mask"] = c2["lmax"] + int(rng.integers(0, 3))
                nm = "FKP" if rng.random() < 0.3 else "MASTER"
                w, s = compute(c2, rng, nm, w=w)
                nchange += 1
            elif op in ("save_load", "load_lite", "reread", "overwrite",
                        "old_format"):
                if s.unb:
                    f = base + f"_{i % 2 if op == 'overwrite' else i}.fits"
                    w.write_to(f)
                    if op == "old_format":
                        to_old_format(f, s.norm)
                    files.append((f, s, dict(s.__dict__)))
                elif files:
                    f, s_, sd = files[-1]
                    s = State()
                    s.__dict__.update(sd)
                else:
                    continue
                lite = op == "load_lite"
                if op == "reread":
                    w.read_from(f, read_unbinned_MCM=not lite)
                else:
                    w = nmt.NmtWorkspace.from_file(
                        f, read_unbinned_MCM=not lite)
                s.unb = not lite
                nchange += 1
            elif op == "other":
                # other workspaces come and go
                c2 = dict(s.c, seed=int(rng.integers(2**31)))
                others.append(compute(c2, rng, "MASTER"))
                if len(others) > 1:
                    others.pop(0)
            elif op == "bad_beam":
                ctx.raises(lambda: w.update_beams(np.ones(L - 1),
                                                  np.ones(L)))
                ctx.raises(lambda: w.update_beams(np.ones(L), 2.))
            elif op == "bad_bins":
                b, _, _ = rand_bins(L + 2, rng)
                ctx.raises(lambda: w.update_bins(b))
            elif op == "bad_matrix":
                n = wsgen.ncls(s.c) * L
                ctx.raises(lambda: w.update_coupling_matrix(
                    np.ones((n + 1, n + 1))))
                ctx.raises(lambda: w.update_coupling_matrix(
                    np.ones((n, n - 1))))
            elif op == "bad_read":
                ctx.raises(lambda: w.read_from(base + "_none.fits"))
            elif op == "bad_compute":
                b, _, _ = rand_bins(L + 2, rng)
                ctx.raises(lambda: w.compute_coupling_matrix(
                    s.f1, s.f2, b))
                ctx.raises(lambda: w.compute_coupling_matrix(
                    s.f1, s.f2, s.b, normalization="other"))
                ctx.raises(lambda: w.compute_coupling_matrix(
                    s.f1, s.f2, s.b, l_toeplitz=2 * L, l_exact=1,
                    dl_band=1))
            if op in ("query", "save_load") or op.startswith("bad"):
                good = compare(w, s, ctx, rng)
        good = compare(w, s, ctx, rng_of(c["seed"], 77))
        for o, so in others:
            compare(o, so, ctx, rng_of(c["seed"], 78))
        ctx.nontrivial(nchange >= 2 and good)
    finally:
        for f, _, _ in files:
            if os.path.exists(f):
                os.remove(f)


def bins_like(W, F, lmax):
    """The bins with given binning and unbinning matrices."""
    i, ell = np.nonzero(F)
    return nmt.NmtBin(bpws=i, ells=ell, lmax=lmax,
                      weights=W[i, ell] * F[i, ell], f_ell=1 / F[i, ell])


SUBS = [Sub("history", gen, fn, 900, 15000, weight=10.)]
