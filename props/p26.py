"""P26: histories of flat-sky workspaces."""
import gc
import os
import numpy as np
import pymaster as nmt
from lib.gen import rng_of
from lib.pbt import Sub
from props import p21

RULE = ("Non-trivial: at least two state-changing operations and a final "
        "state whose coupling matrix is well conditioned.")
ASSUMPTIONS = ["comparisons that involve the inverse of the coupling matrix "
               "are skipped when it has condition number above 1e7",
               "edges of bands and mode cuts are not on a Fourier mode other than zero to "
               "rounding"]
OPS = ["save_load", "save_load", "reread", "recompute", "overwrite",
       "two_readers", "other", "bad_read", "bad_compute", "bad_use", "query",
       "one_call", "forget"]


def gen_state(d):
    c = p21.gen(d)
    if d.choice([True, True, True, False]):
        c["patch"]["nx"] = 4 + c["patch"]["nx"] % 6
        c["patch"]["ny"] = 4 + c["patch"]["ny"] % 6
        c["bands"]["nb"] = min(c["bands"]["nb"], 3)
    return c


def gen(d):
    return dict(states=[gen_state(d) for _ in range(3)],
                ops=[[d.choice(OPS), d.int(0, 10**6)]
                     for _ in range(d.int(2, 9))], seed=d.seed())


def make(c, w=None):
    o = p21.setup(c)
    o.c = c
    if not o.ok:
        return None, None
    fs = p21.fields(o, c)
    if w is None:
        w = nmt.NmtWorkspaceFlat()
    b = nmt.NmtBinFlat(o.l0, o.lf)
    w.compute_coupling_matrix(fs[0], fs[1], b, ell_cut_x=o.cx,
                              ell_cut_y=o.cy, is_teb=c["teb"])
    del fs, b
    return w, o


def fresh(o):
    fs = [p21.field(o, 0), None]
    fs[1] = fs[0] if o.same else p21.field(o, 1)
    return p21.workspace(o, o.c, fs)


def model(o):
    if not hasattr(o, "K"):
        P = o.P
        B = P.bin_cols(P.bin_rows(o.C, o.b, o.nb), o.bnc, o.nb)
        n = o.nc * o.nb
        o.K = B.reshape(n, n)
        sv = np.linalg.svd(o.K, compute_uv=False)
        S = np.max(np.sum(np.abs(o.C), axis=(2, 3)))
        o.S = S
        o.cond = S / sv[-1] if sv[-1] > 0 else np.inf
    return o.K, o.cond


def compare(w, o, x, rng, deep):
    """w against a workspace built directly and against explicit sums."""
    K, cond = model(o)
    g = fresh(o)
    l, cl = p21.spectra(o, rng)
    sc = o.S * np.max(np.abs(cl))
    x.close(w.couple_cell(l, cl), g.couple_cell(l, cl), atol=1e-11 * sc,
            msg="coupled spectra")
    if not cond < 1e7:
        return False
    tol = 1e-12 * cond + 1e-10
    n, nb = o.nc, o.nb
    true, bias, noise = rng.standard_normal((3, n, nb))
    pcl, bias, noise = [(K @ v.ravel()).reshape(n, nb)
                        for v in (true, bias, noise)]
    x.close(w.decouple_cell(pcl), true, atol=tol * 3, msg="decoupled")
    a = dict(cl_bias=bias, cl_noise=noise)
    x.close(w.decouple_cell(pcl, **a), g.decouple_cell(pcl, **a),
            atol=tol * 10, msg="decoupled with bias and noise")
    if deep and not o.c["teb"]:
        # one-call estimator
        s = o.s
        m = [rng.standard_normal((2 if i else 1, o.P.ny, o.P.nx)) for i in s]
        f1 = p21.field(o, 0, m[0])
        f2 = f1 if o.same else p21.field(o, 1, m[1])
        b = nmt.NmtBinFlat(o.l0, o.lf)
        cut = dict(ell_cut_x=o.cx, ell_cut_y=o.cy)
        pc = nmt.compute_coupled_cell_flat(f1, f2, b, **cut)
        want = np.linalg.solve(K, (pc - noise).ravel()).reshape(n, nb)
        x.close(nmt.compute_full_master_flat(f1, f2, b, cl_noise=noise,
                                             workspace=w, **cut), want,
                atol=tol * 10 * (np.max(np.abs(want)) + 1),
                msg="one-call estimator")
        # covariance
        f = [p21.field(o, 0), p21.field(o, 0 if o.same else 1)]
        if not np.any(o.pure):
            cw = nmt.NmtCovarianceWorkspaceFlat()
            cw.compute_coupling_coefficients(f[0], f[1], b)
            nn = [2 if i else 1 for i in s]
            cv = [rng.standard_normal((nn[i] * nn[j], len(l)))
                  for i in (0, 1) for j in (0, 1)]
            args = (*s, *s, l, *cv)
            k1 = nmt.gaussian_covariance_flat(cw, *args, w)
            k2 = nmt.gaussian_covariance_flat(cw, *args, w, g)
            k3 = nmt.gaussian_covariance_flat(cw, *args, g, g)
            t = (tol * cond * 1e-2 + 1e-9) * np.max(np.abs(k3))
            x.close(k1, k3, atol=t, msg="covariance")
            x.close(k2, k3, atol=t, msg="covariance (both)")
        x.label("deep")
    return True


def fn(c, x):
    base = os.path.join(os.getcwd(), "p26_%d" % os.getpid())
    w, o = make(c["states"][0])
    if o is None:
        return
    files, others, nch = [], [], 0
    x.label("spins %d%d" % tuple(o.s))
    try:
        for i, (op, r) in enumerate(c["ops"]):
            rng = rng_of(c["seed"], i, r)
            x.label(op)
            if op in ("save_load", "reread", "overwrite", "two_readers"):
                f = base + f"_{i % 2 if op == 'overwrite' else i}.fits"
                w.write_to(f)
                files.append(f)
                if op == "reread":
                    w.read_from(f)
                elif op == "overwrite":
                    # an object in use reads another state and returns
                    w2, o2 = make(c["states"][r % 3])
                    if o2 is not None:
                        w2.write_to(f)
                        w2.read_from(f)
                        compare(w2, o2, x, rng, False)
                        w.write_to(f)
                        w2.read_from(f)
                        compare(w2, o, x, rng, False)
                        w = w2
                else:
                    if op == "two_readers":
                        q = nmt.NmtWorkspaceFlat()
                        q.read_from(f)
                        others.append((q, o))
                    w = nmt.NmtWorkspaceFlat()
                    w.read_from(f)
                nch += 1
            elif op == "recompute":
                w2, o2 = make(c["states"][r % 3], w)
                if o2 is not None:
                    o = o2
                    nch += 1
            elif op == "other":
                q = make(c["states"][r % 3])
                if q[1] is not None:
                    others.append(q)
                    others = others[-2:]
            elif op == "forget":
                others = []
                gc.collect()
            elif op == "bad_read":
                x.raises(lambda: w.read_from(base + "_none.fits"))
            elif op == "bad_compute":
                P = o.P
                f0 = nmt.NmtFieldFlat(P.lx, P.ly, o.m[0], None, spin=0)
                f1 = nmt.NmtFieldFlat(P.lx, P.ly, np.ones((
                    P.ny + 1, P.nx)), None, spin=0)
                f2 = nmt.NmtFieldFlat(P.lx * 2, P.ly, o.m[0], None, spin=0)
                x.raises(lambda: w.compute_coupling_matrix(f0, f1, o.bin))
                x.raises(lambda: w.compute_coupling_matrix(f2, f0, o.bin))
                x.raises(lambda: w.compute_coupling_matrix(f0, f0, o.bin,
                                                           is_teb=True))
            elif op == "bad_use":
                z = np.zeros((o.nc + 1, o.nb))
                x.raises(lambda: w.decouple_cell(z))
                x.raises(lambda: w.decouple_cell(z[:-1], cl_bias=z))
                x.raises(lambda: w.decouple_cell(z[:-1], cl_noise=z[:-1, 1:]))
                x.raises(lambda: w.couple_cell(np.arange(4.), np.zeros((
                    o.nc, 5))))
            if op in ("query", "bad_read", "bad_compute", "bad_use",
                      "one_call"):
                compare(w, o, x, rng, op == "one_call")
        ok = compare(w, o, x, rng_of(c["seed"], 77), True)
        for q, so in others:
            compare(q, so, x, rng_of(c["seed"], 78), False)
        x.nontrivial(ok and nch >= 2)
        x.raises(lambda: nmt.NmtWorkspaceFlat().write_to(base + "_x.fits"),
                 RuntimeError, "writing an empty workspace")
        x.check(not os.path.exists(base + "_x.fits"), "file created")
    finally:
        for f in set(files):
            if os.path.exists(f):
                os.remove(f)


SUBS = [Sub("history", gen, fn, 800, 20000, weight=10.)]
