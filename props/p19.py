"""P19: the Toeplitz approximation."""
import numpy as np
import pymaster as nmt
from lib.gen import rand_bins, rng_of
from lib.pbt import Sub
from lib.wsgen import Model, gen_fields, labels, make_field, ncls, pair
from props import p11

RULE = ("Non-trivial: some elements of the matrix are approximated and "
        "differ from the exact ones (or, for the limits that switch the "
        "approximation off, the matrix is not diagonal).")
ASSUMPTIONS = [
    "the full matrices are those decided by P01 (and P11 for covariances)",
    "elements that depend on diagonals at rounding level (1e-5 of the "
    "largest coefficient) are not compared, except in the exact region"]


def gen_lt(d, lmax):
    """A consistent triple, all values possible."""
    lt = d.int(1, lmax - 1)
    le = d.int(1, lt)
    db = d.choice([0, d.int(0, lmax - 1), d.int(0, min(4, lmax - 1))])
    return [lt, le, db]


def exact_region(L, lt, le, db):
    a, b = np.mgrid[:L, :L]
    lo, hi = np.minimum(a, b), np.maximum(a, b)
    end = np.where(lo <= le, L - 1, np.where(lo <= lt, lo + db, lo))
    return hi <= end


def toeplitz(x, lt, le, db):
    """The published construction (arXiv:2010.14344), from the full matrix
    of coefficients x. Returns it and a boolean array marking elements that
    depend on nothing but well-conditioned diagonals."""
    L = len(x)
    lmax = L - 1
    ex = exact_region(L, lt, le, db)
    d = np.abs(np.diag(x))
    bad = (d > 0) & (d < 1e-5 * np.max(np.abs(x)))
    out = np.where(ex, x, 0.)
    ok = ex.copy()

    def corr(i, j):
        g = d[i] * d[j]
        return x[i, j] / np.sqrt(g) if g > 0 else 0.
    for i in range(L):
        for j in range(i):
            if ex[i, j]:
                continue
            if i - j >= lmax - lt:
                # off the range of the column: slide along the diagonal from
                # the last column computed in full
                p, q = le + i - j, le
            else:
                p, q = lt + i - j, lt
            out[i, j] = out[j, i] = corr(p, q) * np.sqrt(d[i] * d[j])
            ok[i, j] = ok[j, i] = not (bad[p] or bad[q] or bad[i] or bad[j])
    return out, ok


def compare(x, got, full, tri, scale, msg):
    """Blocks of coefficients."""
    ref, ok = toeplitz(full, *tri)
    ex = exact_region(len(full), *tri)
    s = np.max(np.abs(full))
    x.close(got[ex], full[ex], 1e-11, scale=scale, msg=msg + ", exact region")
    x.close(got[ok], ref[ok], 1e-9, scale=scale, atol=1e-14,
            msg=msg + ", approximated region")
    x.close(got, got.T, 1e-11, scale=max(scale, np.max(np.abs(got))),
            msg=msg + ", symmetry")
    m = ok & ~ex
    return np.any(np.abs(ref - full)[m] > 1e-6 * s) if m.any() else False


def gen(d):
    c = gen_fields(d, aniso=False)
    c["pure"] = [False] * 4
    s = max(c["s1"], c["s2"])
    c["lmax"] = max(c["lmax"], s + 3)
    c["tri"] = gen_lt(d, c["lmax"])
    c["cov"] = d.bool()
    return c


def gen_large(d):
    """Mostly the realistic regime (few exact rows, a band)."""
    c = gen(d)
    L = c["lmax"] = d.int(60, 160)
    c["lmax_mask"] = d.choice([L, L + 60, L // 2])
    c["nside"] = d.choice([16, 32])
    lt = d.int(L // 4, L - 1)
    le = d.int(1, lt)
    c["tri"] = [lt, le, d.choice([0, d.int(0, 20), d.int(0, L - 1)])]
    return c


def blocks(M, n):
    L = len(M) // n
    M = M.reshape(L, n, L, n) / (2 * np.arange(L) + 1.)[None, None, :, None]
    return M.transpose(1, 3, 0, 2)


def fn(c, x):
    rng = rng_of(c["seed"])
    labels(c, x)
    f1, f2 = pair(c, rng)
    b, W, F = rand_bins(c["lmax"], rng)
    n = ncls(c)
    kw = dict(is_teb=True) if c["teb"] else {}
    tri = c["tri"]
    wf = nmt.NmtWorkspace.from_fields(f1, f2, b, **kw)
    wt = nmt.NmtWorkspace.from_fields(f1, f2, b, l_toeplitz=tri[0],
                                      l_exact=tri[1], dl_band=tri[2], **kw)
    full = blocks(wf.get_coupling_matrix(), n)
    M = wt.get_coupling_matrix()
    got = blocks(M, n)
    sc = np.max(np.abs(full))
    nt = False
    for i in range(n):
        for j in range(n):
            nt |= compare(x, got[i, j], full[i, j], tri, sc,
                          f"block ({i}, {j})")
    if nt:
        x.nontrivial(True)
        if tri[2] >= c["lmax"] - tri[0]:
            x.label("band wider than lmax - l_toeplitz")
    # the workspace works with that matrix
    m = Model(M, n, c["lmax"], f1.beam[:c["lmax"] + 1]
              * f2.beam[:c["lmax"] + 1], W, F)
    cl = rng.standard_normal((n, c["lmax"] + 1))
    x.close(wt.couple_cell(cl), m.couple(cl), 1e-10,
            scale=np.max(np.abs(M)) * 3, msg="couple_cell")
    if m.cond() < 1e6:
        x.label("bandpowers")
        x.close(wt.decouple_cell(cl), m.decouple(cl), 1e-9,
                scale=np.max(np.abs(m.decouple(cl))), msg="decouple_cell")


def gen_cov(d):
    c = p11.gen(d)
    c["lmax"] = max(c["lmax"], 4)
    c["tri"] = gen_lt(d, c["lmax"])
    return c


def fn_cov(c, x):
    rng, g, F, xis, n, cls = p11.setup(c, x)
    s, lmax, tri = c["s"], c["lmax"], c["tri"]
    L = lmax + 1
    sp0 = c["spin0"] and not any(s)
    x.label("spin-0 only" if sp0 else "all spins")
    txi, good, nt = [], True, False
    use = ["00"] if sp0 else ["00", "02", "++", "--"]
    for q in xis:
        r = {}
        for k, v in q.items():
            r[k], ok = toeplitz(v, *tri)
            ex = exact_region(L, *tri)
            if k in use:
                good &= bool(ok[2:, 2:].all() if k != "00" else ok.all())
                nt |= np.any(np.abs(r[k] - v)[~ex] > 1e-6 * np.max(np.abs(v)))
        txi.append(r)
    b, W, Fm = rand_bins(lmax, rng, nbmax=4)
    ws = [nmt.NmtWorkspace.from_fields(F[k], F[k + 1], b) for k in (0, 2)]
    arg = dict(flb1=F[2], flb2=F[3], spin0_only=sp0)
    cw = nmt.NmtCovarianceWorkspace.from_fields(
        F[0], F[1], l_toeplitz=tri[0], l_exact=tri[1], dl_band=tri[2], **arg)
    got = p11.call(cw, s, cls, *ws, coupled=True)
    cf = nmt.NmtCovarianceWorkspace.from_fields(F[0], F[1], **arg)
    full = p11.call(cf, s, cls, *ws, coupled=True)
    na, nb = n[0] * n[1], n[2] * n[3]
    sc = max(np.max(np.abs(v)) for q in xis for v in q.values()) * max(
        1, max(np.max(np.abs(v)) for v in cls)**2)
    ex = exact_region(L, *tri)
    gb = got.reshape(L, na, L, nb).transpose(0, 2, 1, 3)
    fb = full.reshape(L, na, L, nb).transpose(0, 2, 1, 3)
    x.close(gb[ex], fb[ex], 1e-11, scale=sc, msg="exact region")
    x.nontrivial(False)
    if good:
        ref = p11.reference(txi, s, cls, L)
        x.close(got, ref.reshape(L * na, L * nb), 1e-9, scale=sc,
                msg="covariance from the approximated coefficients")
        x.nontrivial(bool(nt))
    else:
        x.label("ill-conditioned diagonals (exact region only)")


def gen_lim(d):
    c = gen_fields(d, aniso=True)
    c["lmax"] = max(c["lmax"], 6)
    c["how"] = d.choice(["off", "off", "all", "cov off", "cov all"])
    c["v"] = [d.choice([-1, -3, 0]) for _ in range(3)]
    c["le"] = d.int(1, c["lmax"])
    c["db"] = d.int(0, 30)
    if c["how"] != "off":
        c["pure"], c["aniso"] = [False] * 4, 0
    if c["how"][:3] == "cov":
        c["teb"] = False
    if c["aniso"]:
        # a value of zero is not accepted there
        c["v"][0] = min(c["v"][0], -1)
    return c


def fn_lim(c, x):
    """No approximation: switched off (any other parameters), or covering
    all the multipoles."""
    rng = rng_of(c["seed"])
    x.label(c["how"])
    f1, f2 = pair(c, rng)
    b, W, F = rand_bins(c["lmax"], rng)
    kw = dict(is_teb=True) if c["teb"] else {}
    lmax = c["lmax"]
    if c["how"].endswith("off"):
        v = dict(l_toeplitz=c["v"][0], l_exact=c["le"], dl_band=c["db"])
    else:
        # either everything is below l_exact or within the band
        v = dict(l_toeplitz=lmax - 1, l_exact=lmax - 1, dl_band=c["db"]
                 % lmax)
        if c["seed"] & 1:
            v.update(l_exact=min(c["le"], lmax - 1), dl_band=lmax - 1)
            x.label("wide band")
    x.nontrivial(True)
    if c["how"][:3] == "cov":
        A = nmt.NmtCovarianceWorkspace.from_fields(f1, f2)
        B = nmt.NmtCovarianceWorkspace.from_fields(f1, f2, **v)
        w = nmt.NmtWorkspace.from_fields(f1, f2, b)
        n = [2 if c[k] else 1 for k in ("s1", "s2")] * 2
        cl = [rng.standard_normal((n[i] * n[j], lmax + 1)) for i, j in (
            (0, 2), (0, 3), (1, 2), (1, 3))]
        s = [c["s1"], c["s2"]] * 2
        a, t = [nmt.gaussian_covariance(y, *s, *cl, w, w, coupled=True)
                for y in (A, B)]
        x.close(t, a, 1e-11, scale=np.max(np.abs(a)), msg="full covariance")
        return
    A = nmt.NmtWorkspace.from_fields(f1, f2, b, **kw).get_coupling_matrix()
    B = nmt.NmtWorkspace.from_fields(f1, f2, b, **v, **kw)
    x.close(B.get_coupling_matrix(), A, 1e-11, scale=np.max(np.abs(A)),
            msg="full matrix")


def gen_bad(d):
    lmax = d.int(5, 12)
    k = d.choice(["exact0", "band-", "exact>toep", "toep", "band", "pure",
                  "aniso", "ok"])
    lt = d.int(1, lmax - 1)
    le = d.int(1, lt)
    db = d.int(0, lmax - 1)
    if k == "exact0":
        le = d.int(-3, 0)
    elif k == "band-":
        db = d.int(-3, -1)
    elif k == "exact>toep":
        lt = d.int(1, lmax - 2)
        le = d.int(lt + 1, lmax - 1)
    elif k == "toep":
        lt = d.int(lmax, 2 * lmax)
    elif k == "band":
        db = d.int(lmax, 2 * lmax)
    return dict(nside=4, lmax=lmax, lmax_mask=lmax, s1=2, s2=d.choice([0, 2]),
                teb=False, pure=[False] * 4, aniso=0, beams=False, same=False,
                k1="random", k2="random", how=k, tri=[lt, le, db],
                which=d.int(0, 3), route=d.choice(
                    ["init", "from_fields", "compute", "full", "cov",
                     "cov from_fields"]), seed=d.seed())


def fn_bad(c, x):
    rng = rng_of(c["seed"])
    c = dict(c)
    if c["how"] == "aniso":
        c["aniso"] = 1
    if c["how"] == "pure":
        c["pure"] = [False] * 4
        c["pure"][c["which"] if c["s2"] == 2 else c["which"] % 2] = True
    f1, f2 = pair(c, rng)
    maps = [rng.standard_normal((2 if s else 1, 192)) for s in (c["s1"],
                                                               c["s2"])]
    b = nmt.NmtBin.from_lmax_linear(c["lmax"], 2)
    v = dict(zip(("l_toeplitz", "l_exact", "dl_band"), c["tri"]))
    x.label(c["how"])
    x.label(c["route"])
    x.nontrivial(True)
    w = nmt.NmtWorkspace.from_fields(f1, f2, b)
    m0 = w.get_coupling_matrix()
    if c["route"] == "full":
        r2 = rng_of(c["seed"], 1)
        f1, f2 = [make_field(c, i + 1, r2, maps=maps[i]) for i in range(2)]

    def go():
        r = c["route"]
        if r == "init":
            return nmt.NmtWorkspace(f1, f2, b, **v)
        if r == "from_fields":
            return nmt.NmtWorkspace.from_fields(f1, f2, b, **v)
        if r == "compute":
            return w.compute_coupling_matrix(f1, f2, b, **v)
        if r == "full":
            return nmt.compute_full_master(f1, f2, b, **v)
        if r == "cov":
            return nmt.NmtCovarianceWorkspace(f1, f2, **v)
        return nmt.NmtCovarianceWorkspace.from_fields(f1, f2, **v)
    if c["how"] == "ok":
        go()
        return
    exc = ValueError
    if c["how"] == "aniso":
        exc = NotImplementedError
    if c["how"] == "pure" and c["route"][:3] == "cov":
        # only stated for the mode-coupling matrix
        return
    x.raises(go, exc, f"{c['how']} in {c['route']}")
    x.equal(w.get_coupling_matrix(), m0, "workspace after the refusal")


SUBS = [Sub("recipe", gen, fn, quick=2400, thorough=32000, shards=4, weight=3,
            rule="approximated elements that differ from the exact ones"),
        Sub("covariance", gen_cov, fn_cov, quick=900, thorough=14000,
            shards=2, weight=2),
        Sub("limits", gen_lim, fn_lim, quick=500, thorough=6000),
        Sub("refusals", gen_bad, fn_bad, quick=300, thorough=3000),
        Sub("large", gen_large, fn, 60, 1200, weight=60)]
