"""P12: histories of covariance workspaces."""
import os
import numpy as np
import pymaster as nmt
from lib.gen import hp_mask, rand_bins, rng_of
from lib.pbt import Sub
from lib.wsgen import Model

RULE = ("Non-trivial: at least two state-changing operations before the "
        "final comparison with a fresh object.")
ASSUMPTIONS = ["comparisons of decoupled covariances are skipped when a "
               "binned coupling matrix has condition number above 1e7"]
OPS = ["save_load", "load_spin0", "reread", "recompute", "overwrite",
       "other", "bad_read", "bad_compute", "copy", "query", "bad_cov",
       "two_readers"]
COMBOS = [[0, 0, 0, 0], [0, 0, 0, 2], [0, 2, 0, 2], [2, 0, 0, 2],
          [0, 0, 2, 2], [2, 2, 0, 2], [0, 2, 2, 2], [2, 2, 2, 2]]


def gen(d):
    return dict(nside=d.choice([2, 4]), lmax=d.choice([d.int(3, 9)] * 30 + [40]),
                dl=d.choice([0, 0, 2, 4]), seed=d.seed(),
                kind=d.choice(["random", "smooth", "signed"]),
                who=d.choice([[0, 1, 2, 3], [0, 1, 0, 1], [0, 0, 0, 0],
                              [0, 1, 1, 2]]),
                ops=[[d.choice(OPS), d.int(0, 10**6)]
                     for _ in range(d.int(2, 8))],
                combo=[d.int(0, len(COMBOS) - 1) for _ in range(2)],
                spin0=d.choice([False, False, True]),
                toep=d.choice([False, False, True]),
                init=d.choice(["from_fields", "bare", "ctor"]))


class State:
    pass


def compute(c, rng, cw=None, how="from_fields"):
    s = State()
    s.c = c
    L = c["lmax"]
    masks = [np.abs(hp_mask(c["nside"], c["kind"], rng)) + 0.05
             if c["kind"] != "signed" else hp_mask(c["nside"], "signed", rng)
             for _ in range(4)]
    s.masks = [masks[i] for i in c["who"]]
    s.mk = lambda i, sp: nmt.NmtField(
        s.masks[i], None, spin=sp, lmax=L, lmax_mask=L + c["dl"],
        n_iter_mask=0)
    s.kw = dict(spin0_only=c["spin0"])
    if c["toep"]:
        s.kw.update(l_toeplitz=L - 1, l_exact=max(1, L // 2), dl_band=1)
    s.spin0 = c["spin0"]
    F = [s.mk(i, 0) for i in range(4)]
    a, k = (F[0], F[1]), dict(flb1=F[2], flb2=F[3])
    if cw is not None:
        cw.compute_coupling_coefficients(*a, **k, **s.kw)
    elif how == "from_fields":
        cw = nmt.NmtCovarianceWorkspace.from_fields(*a, **k, **s.kw)
    elif how == "ctor":
        cw = nmt.NmtCovarianceWorkspace(*a, **k, **s.kw)
    else:
        cw = nmt.NmtCovarianceWorkspace()
        cw.compute_coupling_coefficients(*a, **k, **s.kw)
    return cw, s


def cov_args(s, spins, rng):
    L = s.c["lmax"]
    n = [2 if x else 1 for x in spins]
    nl = L + 1 + int(rng.integers(0, 3))
    cls = [rng.standard_normal((n[a] * n[b], nl))
           for a, b in ((0, 2), (0, 3), (1, 2), (1, 3))]
    ws = []
    s.cond = 1.
    for k in (0, 2):
        b, W, F = rand_bins(L, rng, lmin=2 if any(spins) else 0, nbmax=3)
        w = nmt.NmtWorkspace.from_fields(
            s.mk(k, spins[k]), s.mk(k + 1, spins[k + 1]), b)
        ws.append(w)
        s.cond *= Model(w.get_coupling_matrix(), n[k] * n[k + 1], L,
                        np.ones(L + 1), W, F).cond()
    return cls, ws


def compare(cw, s, combos, ctx, rng):
    # the reference object is always a full (all-spin) one
    F = [s.mk(i, 0) for i in range(4)]
    g = nmt.NmtCovarianceWorkspace.from_fields(
        F[0], F[1], F[2], F[3], **dict(s.kw, spin0_only=False))
    for spins in combos + [[0, 0, 0, 0]]:
        cls, ws = cov_args(s, spins, rng)
        a = (*spins, *cls, *ws)
        if s.spin0 and any(spins):
            for kw in ({}, {"coupled": True}):
                ctx.raises(lambda: nmt.gaussian_covariance(cw, *a, **kw),
                           Exception, "spin-0 workspace, other spins")
            continue
        ctx.label("spins " + "".join(map(str, spins)))
        ctx.close(nmt.gaussian_covariance(cw, *a, coupled=True),
                  nmt.gaussian_covariance(g, *a, coupled=True), 1e-12,
                  msg=f"coupled covariance {spins}")
        if s.cond < 1e7:
            ctx.close(nmt.gaussian_covariance(cw, *a),
                      nmt.gaussian_covariance(g, *a), 1e-12 * s.cond + 1e-11,
                      msg=f"bandpower covariance {spins}")
            ctx.label("bandpowers")


def fn(c, ctx):
    rng = rng_of(c["seed"])
    base = os.path.join(os.getcwd(), "p12_%d" % os.getpid())
    combos = [COMBOS[i] for i in c["combo"]]
    if c["spin0"]:
        ctx.label("spin-0 only")
    if c["toep"]:
        ctx.label("Toeplitz")
    cw, s = compute(c, rng, how=c["init"])
    nch = 0
    files, others = [], []
    try:
        for i, (op, r) in enumerate(c["ops"]):
            rng = rng_of(c["seed"], i, r)
            ctx.label(op)
            if op in ("save_load", "load_spin0", "reread", "overwrite",
                      "copy", "two_readers"):
                f = base + f"_{i % 2 if op == 'overwrite' else i}.fits"
                cw.write_to(f)
                files.append(f)
                s2 = State()
                s2.__dict__.update(s.__dict__)
                if op == "load_spin0" or (op == "reread" and r % 3 == 0):
                    s2.spin0 = True
                kw = dict(force_spin0_only=s2.spin0) if s2.spin0 != s.spin0 \
                    else {}
                if op == "reread":
                    cw.read_from(f, **kw)
                elif op == "two_readers":
                    others.append((nmt.NmtCovarianceWorkspace.from_file(f),
                                   s))
                    cw = nmt.NmtCovarianceWorkspace(fname=f)
                elif op == "copy":
                    o = nmt.NmtCovarianceWorkspace.from_file(
                        f, force_spin0_only=True)
                    s3 = State()
                    s3.__dict__.update(s.__dict__)
                    s3.spin0 = True
                    others.append((o, s3))
                else:
                    cw = nmt.NmtCovarianceWorkspace.from_file(f, **kw)
                s = s2
                nch += 1
            elif op == "recompute":
                c2 = dict(s.c, seed=0, lmax=int(rng.integers(3, 10)),
                          spin0=bool(rng.random() < 0.3),
                          toep=bool(rng.random() < 0.3))
                cw, s = compute(c2, rng, cw=cw)
                nch += 1
            elif op == "other":
                others.append(compute(dict(s.c), rng))
                others = others[-2:]
            elif op == "bad_read":
                ctx.raises(lambda: cw.read_from(base + "_none.fits"))
            elif op == "bad_compute":
                f0, f1 = s.mk(0, 0), s.mk(1, 0)
                o = nmt.NmtField(np.ones(12 * 64), None, spin=0)
                ctx.raises(lambda: cw.compute_coupling_coefficients(f0, o))
                ctx.raises(lambda: cw.compute_coupling_coefficients(
                    f0, f1, flb1=o))
                ctx.raises(lambda: cw.compute_coupling_coefficients(
                    f0, f1, flb2=o))
                ctx.raises(lambda: cw.compute_coupling_coefficients(
                    f0, f1, l_toeplitz=3, l_exact=5, dl_band=1))
            elif op == "bad_cov":
                cls, ws = cov_args(s, [0, 0, 0, 0], rng)
                ctx.raises(lambda: nmt.gaussian_covariance(
                    cw, 0, 2, 0, 0, *cls, *ws))
                ctx.raises(lambda: nmt.gaussian_covariance(
                    cw, 0, 0, 0, 0, cls[0][:, :-4], *cls[1:], *ws))
            if op in ("query", "bad_read", "bad_compute", "bad_cov"):
                compare(cw, s, combos[:1], ctx, rng)
        compare(cw, s, combos, ctx, rng_of(c["seed"], 77))
        for o, so in others:
            compare(o, so, combos[:1], ctx, rng_of(c["seed"], 78))
        ctx.nontrivial(nch >= 2)
    finally:
        for f in set(files):
            if os.path.exists(f):
                os.remove(f)


# ---- flat sky ----------------------------------------------------------
FOPS = ["save_load", "reread", "recompute", "overwrite", "other", "bad_read",
        "bad_compute", "query", "two_readers", "bad_cov"]


def gen_flat(d):
    return dict(nx=d.choice([d.int(4, 9)] * 20 + [24]), ny=d.int(4, 9),
                seed=d.seed(),
                nb=d.int(1, 3), who=d.choice([[0, 1, 2, 3], [0, 1, 0, 1],
                                              [0, 0, 0, 0], [0, 1, 1, 2]]),
                ops=[[d.choice(FOPS), d.int(0, 10**6)]
                     for _ in range(d.int(2, 8))],
                combo=[d.int(0, len(COMBOS) - 1) for _ in range(2)])


def compute_flat(c, rng, cw=None):
    s = State()
    s.c = c
    nx, ny = c["nx"], c["ny"]
    s.lx, s.ly = rng.uniform(0.1, 0.3, 2)
    masks = rng.random((4, ny, nx)) + 0.1
    s.masks = [masks[i] for i in c["who"]]
    s.mk = lambda i, sp: nmt.NmtFieldFlat(s.lx, s.ly, s.masks[i], None,
                                          spin=sp)
    km = np.pi * min(nx / s.lx, ny / s.ly)
    s.e = np.linspace(0, km, c["nb"] + 1) * 0.97 + 1e-3
    s.b = nmt.NmtBinFlat(s.e[:-1], s.e[1:])
    if cw is None:
        cw = nmt.NmtCovarianceWorkspaceFlat()
    cw.compute_coupling_coefficients(s.mk(0, 0), s.mk(1, 0), s.b,
                                     s.mk(2, 0), s.mk(3, 0))
    return cw, s


def cov_args_flat(s, spins, rng):
    n = [2 if x else 1 for x in spins]
    larr = np.linspace(0, s.e[-1], 12)
    cls = [rng.standard_normal((n[a] * n[b], len(larr)))
           for a, b in ((0, 2), (0, 3), (1, 2), (1, 3))]
    ws = []
    for k in (0, 2):
        w = nmt.NmtWorkspaceFlat()
        w.compute_coupling_matrix(s.mk(k, spins[k]), s.mk(k + 1, spins[
            k + 1]), s.b)
        ws.append(w)
    return (*spins, larr, *cls, *ws)


def compare_flat(cw, s, combos, ctx, rng):
    g = nmt.NmtCovarianceWorkspaceFlat()
    g.compute_coupling_coefficients(s.mk(0, 0), s.mk(1, 0), s.b, s.mk(2, 0),
                                    s.mk(3, 0))
    for spins in combos:
        a = cov_args_flat(s, spins, rng)
        ctx.label("spins " + "".join(map(str, spins)))
        try:
            x = nmt.gaussian_covariance_flat(g, *a)
        except RuntimeError:
            # singular coupling matrix
            ctx.raises(lambda: nmt.gaussian_covariance_flat(cw, *a),
                       RuntimeError, "singular coupling matrix")
            continue
        k = np.prod([cond_flat(w, s) for w in a[-2:]])
        if k < 1e8:
            ctx.close(nmt.gaussian_covariance_flat(cw, *a), x,
                      1e-13 * k + 1e-11, msg=f"covariance {spins}")
            ctx.label("compared")


def cond_flat(w, s):
    n, nb = w.wsp.ncls, s.b.get_n_bands()
    inv = [w.decouple_cell(e.reshape(n, nb)).ravel()
           for e in np.eye(n * nb)]
    return np.linalg.cond(inv) if np.all(np.isfinite(inv)) else np.inf


def fn_flat(c, ctx):
    rng = rng_of(c["seed"])
    base = os.path.join(os.getcwd(), "p12f_%d" % os.getpid())
    combos = [COMBOS[i] for i in c["combo"]]
    cw, s = compute_flat(c, rng)
    nch = 0
    files, others = [], []
    try:
        for i, (op, r) in enumerate(c["ops"]):
            rng = rng_of(c["seed"], i, r)
            ctx.label(op)
            if op in ("save_load", "reread", "overwrite", "two_readers"):
                f = base + f"_{i % 2 if op == 'overwrite' else i}.fits"
                cw.write_to(f)
                files.append(f)
                if op == "reread":
                    cw.read_from(f)
                else:
                    if op == "two_readers":
                        o = nmt.NmtCovarianceWorkspaceFlat()
                        o.read_from(f)
                        others.append((o, s))
                    cw = nmt.NmtCovarianceWorkspaceFlat()
                    cw.read_from(f)
                nch += 1
            elif op == "recompute":
                c2 = dict(s.c, nx=int(rng.integers(4, 10)),
                          ny=int(rng.integers(4, 10)),
                          nb=int(rng.integers(1, 4)))
                cw, s = compute_flat(c2, rng, cw=cw)
                nch += 1
            elif op == "other":
                others.append(compute_flat(dict(s.c), rng))
                others = others[-2:]
            elif op == "bad_read":
                ctx.raises(lambda: cw.read_from(base + "_none.fits"))
            elif op == "bad_compute":
                o = nmt.NmtFieldFlat(s.lx, s.ly, np.ones((3, 11)), None,
                                     spin=0)
                f0 = s.mk(0, 0)
                ctx.raises(lambda: cw.compute_coupling_coefficients(
                    f0, o, s.b))
                ctx.raises(lambda: cw.compute_coupling_coefficients(
                    f0, f0, s.b, f0, o))
                ctx.raises(lambda: cw.compute_coupling_coefficients(
                    f0, f0, s.b, bin_b=nmt.NmtBinFlat(
                        np.arange(9.), np.arange(9.) + 1)))
            elif op == "bad_cov":
                a = list(cov_args_flat(s, [0, 0, 0, 0], rng))
                a[1] = 2
                ctx.raises(lambda: nmt.gaussian_covariance_flat(cw, *a))
            if op in ("query", "bad_read", "bad_compute", "bad_cov"):
                compare_flat(cw, s, combos[:1], ctx, rng)
        compare_flat(cw, s, combos, ctx, rng_of(c["seed"], 77))
        for o, so in others:
            compare_flat(o, so, combos[:1], ctx, rng_of(c["seed"], 78))
        ctx.nontrivial(nch >= 2)
    finally:
        for f in set(files):
            if os.path.exists(f):
                os.remove(f)


SUBS = [
    Sub("history", gen, fn, 1500, 25000, weight=25.),
    Sub("history-flat", gen_flat, fn_flat, 1500, 25000, weight=15.),
]
