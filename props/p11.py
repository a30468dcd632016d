"""P11: curved-sky Gaussian covariance."""
import numpy as np
import pymaster as nmt
from lib import curved, sht
from lib.gen import rand_bins, rng_of
from lib.pbt import Sub
from lib.ref import xi_coeffs
from lib.wsgen import Model
from props.p08 import Grid, gen_grid

RULE = ("Non-trivial: masks that are not constant, and for bandpowers a "
        "binned coupling matrix with condition number below 1e8.")
ASSUMPTIONS = ["spins 0 and 2 (the library uses the spin-2 coefficients for "
               "every non-zero spin)",
               "coefficients of mask products from the transform decided by "
               "P13"]


def gen(d):
    lmax = d.int(3, 14)
    s = [d.choice([0, 0, 2, 2]) for _ in range(4)]
    if d.choice([0, 0, 1]):
        s[2:] = s[:2]
    g = gen_grid(d)
    if g["pix"] == "car":
        g["patch"] = None
    return dict(s=s, lmax=lmax, grid=g,
                dl=d.choice([0, 0, 2, 5, -2]),
                # which fields coincide
                who=d.choice([[0, 1, 2, 3], [0, 1, 0, 1], [0, 0, 0, 0],
                              [0, 1, 1, 0], [0, 1, 0, 2], [0, 0, 1, 1],
                              [0, 1, 2, 1]]),
                kind=d.choice(["random", "binary", "signed", "random"]),
                n_iter_mask=d.choice([0, 0, 0, 2]), spin0=d.bool(),
                beams=d.bool(), long=d.choice([0, 0, 4]),
                lmin=d.choice([0, 0, 1, 2]), sm=d.bool(), seed=d.seed())


def gen_large(d):
    c = gen(d)
    lmax = d.int(25, 60)
    c.update(lmax=lmax, dl=d.choice([0, 20, lmax, -9]),
             grid=dict(pix="hp", nside=16) if d.bool() else dict(
                 pix="car", ny=40, nx=90, ft=int(d.bool()),
                 fp=int(d.bool()), ra0=0., patch=None))
    return c


# Pseudo-components: E~ = W+ E - W- B, B~ = W- E + W+ B
R = {(0, 1): -1., (1, 0): 1.}


def sign(ia, ic, ja, jc):
    """Narrow-kernel contraction of components (ja, jc) into the pseudo-
    components (ia, ic) of two spin fields: (0, 1) for W+ W+^+ -> W+,
    (1, sign) for the products of one W+ and one W- (anti-hermitian) -> W-;
    products of two W- are neglected."""
    if (ia, ic) == (ja, jc):
        return 0, 1.
    if ia != ja and ic == jc:
        return 1, R[ia, ja]
    if ia == ja and ic != jc:
        return 1, -R[ic, jc]
    return None


def block(xi, sp, i, j):
    """Coupling coefficients of one pairing ((a,c),(b,d)): spins sp, output
    components i, input components j (ordered a,c,b,d)."""
    kind, sg = [], 1.
    for k in (0, 2):
        if sp[k] and sp[k + 1]:
            q = sign(i[k], i[k + 1], j[k], j[k + 1])
            if q is None:
                return None
            kind.append(q[0])
            sg *= q[1]
        else:
            if i[k:k + 2] != j[k:k + 2]:
                return None
            kind.append(-1)
    kind = tuple(sorted(kind))
    if kind == (-1, -1):
        return xi["00"]
    if kind == (-1, 0):
        return xi["02"]
    if kind == (0, 0):
        return xi["++"]
    if kind == (1, 1):
        # sum of W-_{lm,l'm'} W-_{l'm',lm}
        return -sg * xi["--"]
    return None


def coeffs(p, lmax):
    e00 = xi_coeffs(p, lmax, 0, 0, 0, 0)[0]
    e02 = xi_coeffs(p, lmax, 0, 0, 2, 0)[0]
    e22, o22 = xi_coeffs(p, lmax, 2, 0, 2, 0)
    return {"00": e00, "02": e02, "++": e22, "--": o22}


def reference(xis, s, cls, L):
    """Coupled covariance [la, ia ib, lb, ic id] of the field pairs (a, b)
    and (c, d). cls: C_ac, C_ad, C_bc, C_bd as [i, j, l]."""
    n = [2 if x else 1 for x in s]
    a, b, c, d = range(4)
    cac, cad, cbc, cbd = cls
    out = np.zeros((L, n[a], n[b], L, n[c], n[d]))

    def sym(x, y):
        t = np.multiply.outer(x[:L], y[:L])
        return 0.5 * (t + t.T)
    for i in np.ndindex(*n):
        for j in np.ndindex(*n):
            q = block(xis[0], (s[a], s[c], s[b], s[d]),
                      (i[a], i[c], i[b], i[d]), (j[a], j[c], j[b], j[d]))
            t = 0.
            if q is not None:
                t = t + q * sym(cac[j[a], j[c]], cbd[j[b], j[d]])
            q = block(xis[1], (s[a], s[d], s[b], s[c]),
                      (i[a], i[d], i[b], i[c]), (j[a], j[d], j[b], j[c]))
            if q is not None:
                t = t + q * sym(cad[j[a], j[d]], cbc[j[b], j[c]])
            out[:, i[a], i[b], :, i[c], i[d]] += t
    return out.reshape(L, n[a] * n[b], L, n[c] * n[d])


def setup(c, ctx):
    rng = rng_of(c["seed"])
    g = Grid(c["grid"])
    lmax = c["lmax"]
    lm = max(2, lmax + c["dl"])
    masks = [g.mask(c["kind"], rng) for _ in range(4)]
    who = c["who"]
    beam = [0.3 + rng.random(lmax + 1 + c["seed"] % 3) if c["beams"] else None
            for _ in range(4)]
    F = [nmt.NmtField(masks[who[i]], None, spin=c["s"][i], wcs=g.wcs,
                      lmax=lmax, lmax_mask=lm, beam=beam[i], n_iter_mask=c[
                          "n_iter_mask"]) for i in range(4)]
    ctx.label("spins " + "".join(map(str, c["s"])))

    def pc(x, y):
        a = [nmt.NmtField(masks[who[x[k]]] * masks[who[y[k]]], None, spin=0,
                          wcs=g.wcs, lmax=lmax, lmax_mask=lm, n_iter_mask=c[
                              "n_iter_mask"]).get_mask_alms()
             for k in range(2)]
        ls, ms = sht.lm_index(lm)
        return np.bincount(ls, (a[0] * np.conj(a[1])).real * np.where(
            ms == 0, 1., 2.), minlength=lm + 1) / (2 * np.arange(lm + 1) + 1)
    # pairings (a c)(b d) and (a d)(b c)
    pcls = [pc((0, 1), (2, 3)), pc((0, 1), (3, 2))]
    xis = [coeffs(p, lmax) for p in pcls]
    n = [2 if x else 1 for x in c["s"]]
    L = lmax + 1
    cls = [rng.standard_normal((n[x], n[y], L + c["long"]))
           for x, y in ((0, 2), (0, 3), (1, 2), (1, 3))]
    ctx.nontrivial(True)
    return rng, g, F, xis, n, cls


def call(cw, s, cls, wa, wb, **kw):
    return nmt.gaussian_covariance(cw, *s, *[
        x.reshape(-1, x.shape[-1]) for x in cls], wa, wb, **kw)


def fn(c, ctx):
    rng, g, F, xis, n, cls = setup(c, ctx)
    s, lmax = c["s"], c["lmax"]
    L = lmax + 1
    pair = c["who"][:2] == c["who"][2:] and s[:2] == s[2:]
    sp0 = c["spin0"] and not any(s)
    if sp0:
        ctx.label("spin-0 only")
    arg = dict(flb1=F[2], flb2=F[3])
    if pair and c["sm"]:
        arg = {}
        ctx.label("same pair")
    cw = nmt.NmtCovarianceWorkspace.from_fields(F[0], F[1], spin0_only=sp0,
                                                **arg)
    lmin = c["lmin"] if not any(s) else 2
    ws, md = [], []
    for k in (0, 2):
        b, W, Fm = rand_bins(lmax, rng, lmin=lmin, nbmax=4)
        w = nmt.NmtWorkspace.from_fields(F[k], F[k + 1], b)
        ws.append(w)
        md.append(Model(w.get_coupling_matrix(), n[k] * n[k + 1], lmax,
                        (F[k].beam[:L] * F[k + 1].beam[:L]), W, Fm))
    ref = reference(xis, s, cls, L)
    na, nb = n[0] * n[1], n[2] * n[3]
    sc = max(np.max(np.abs(x)) for q in xis for x in q.values()) * max(
        1, max(np.max(np.abs(x)) for x in cls)**2)
    got = call(cw, s, cls, ws[0], ws[1], coupled=True)
    ctx.close(got, ref.reshape(L * na, L * nb), 1e-10, scale=sc,
              msg="covariance of the pseudo-spectra")
    # exchange of the pairs
    cwt = nmt.NmtCovarianceWorkspace.from_fields(F[2], F[3], F[0], F[1])
    st = s[2:] + s[:2]
    clt = [cls[0].transpose(1, 0, 2), cls[2].transpose(1, 0, 2),
           cls[1].transpose(1, 0, 2), cls[3].transpose(1, 0, 2)]
    tr = call(cwt, st, clt, ws[1], ws[0], coupled=True)
    ctx.close(tr.T, got, 1e-10, scale=sc, msg="exchanged pairs")
    # bandpowers
    if max(m.cond() for m in md) > 1e8:
        ctx.label("ill-conditioned (bandpowers skipped)")
        return
    B = np.einsum("bl,lipj,cp->bicj", md[0].W, ref, md[1].W)
    B = B.reshape(len(md[0].W) * na, -1)
    want = np.linalg.solve(md[0].K, np.linalg.solve(md[1].K, B.T).T)
    cd = md[0].cond() * md[1].cond()
    got = call(cw, s, cls, ws[0], ws[1])
    scb = np.max(np.abs(want))
    ctx.close(got, want, 1e-13 * cd + 1e-9, scale=scb + 1e-14 * sc,
              msg="covariance of the bandpowers")
    # decoupling the coupled one, rows and columns
    if cd < 1e6:
        x = ref.reshape(L * na, L, nb)
        r = np.array([ws[1].decouple_cell(y.T.copy()).T for y in x])
        r = r.reshape(L, na, -1)
        r = np.array([ws[0].decouple_cell(r[:, :, k].T.copy()).T.ravel()
                      for k in range(r.shape[2])]).T
        ctx.close(r, got, 1e-12 * cd + 1e-9, scale=scb, msg="decoupled rows "
                  "and columns")


def fn_sym(c, ctx):
    """Single pair: symmetric; bilinear in the guess spectra."""
    c = dict(c, who=[0, 1, 0, 1], s=c["s"][:2] * 2)
    rng, g, F, xis, n, cls = setup(c, ctx)
    s, lmax = c["s"], c["lmax"]
    n0, n1 = n[:2]
    cw = nmt.NmtCovarianceWorkspace.from_fields(F[0], F[1])
    b, W, Fm = rand_bins(lmax, rng, lmin=2 if any(s) else 0, nbmax=4)
    w = nmt.NmtWorkspace.from_fields(F[0], F[1], b)
    m = Model(w.get_coupling_matrix(), n0 * n1, lmax, F[0].beam[:lmax + 1]
              * F[1].beam[:lmax + 1], W, Fm)
    L = cls[0].shape[-1]
    x = rng.standard_normal((n0 + n1, n0 + n1, L))
    x = x + x.transpose(1, 0, 2)
    aa, ab, bb = x[:n0, :n0], x[:n0, n0:], x[n0:, n0:]
    cl = [aa, ab, ab.transpose(1, 0, 2), bb]
    k = call(cw, s, cl, w, None, coupled=True)
    sc = np.max(np.abs(k)) + 1e-300
    ctx.close(k, k.T, 1e-10, scale=sc, msg="symmetric (coupled)")
    if m.cond() < 1e5:
        q = call(cw, s, cl, w, None)
        ctx.close(q, q.T, 1e-12 * m.cond()**2 + 1e-9, scale=np.max(np.abs(q)),
                  msg="symmetric (bandpowers)")
    # linear in (C_ac, C_ad) for fixed (C_bc, C_bd), and conversely
    y = [rng.standard_normal(v.shape) for v in cl]
    for idx in ((0, 1), (2, 3)):
        a, e = rng.uniform(-2, 2, 2)
        l1 = [y[i] if i in idx else cl[i] for i in range(4)]
        l2 = [a * cl[i] + e * y[i] if i in idx else cl[i] for i in range(4)]
        k1 = call(cw, s, l1, w, None, coupled=True)
        k2 = call(cw, s, l2, w, None, coupled=True)
        ctx.close(k2, a * k + e * k1, 1e-10, scale=4 * (
            sc + np.max(np.abs(k1))), msg="bilinear")
    ctx.close(call(cw, s, cl, w, w, coupled=True), k, 1e-13,
              msg="wb given explicitly")


def gen_white(d):
    return dict(lmax=d.int(2, 7), lm=d.int(1, 4), grid=curved.gen_grid(d),
                s=[d.choice([0, 2]) for _ in range(4)] if d.bool() else
                [d.choice([0, 2])] * 4,
                who=d.choice([[0, 1, 2, 3], [0, 1, 0, 1], [0, 0, 0, 0]]),
                seed=d.seed())


def fn_white(c, ctx):
    """White skies (equal E and B power, no correlation between fields of
    different spins): the narrow-kernel formula is exact for all components
    that involve no odd-parity coupling."""
    rng = rng_of(c["seed"])
    lmax, lm = c["lmax"], c["lm"]
    L = lmax + 1
    s = c["s"]
    n = [2 if x else 1 for x in s]
    ctx.label("spins " + "".join(map(str, s)))
    g = curved.Grid(2 * lmax + 2 * lm + 1, c["grid"])
    m4 = [g.rand_map(lm, rng)[0] for _ in range(4)]
    mk = [m4[i] for i in c["who"]]
    F = [nmt.NmtField(mk[i], None, spin=s[i], wcs=g.wcs, lmax=lmax,
                      lmax_mask=2 * lmax + 2 * lm, n_iter_mask=0)
         for i in range(4)]
    cw = nmt.NmtCovarianceWorkspace.from_fields(*F)
    C = rng.random((2, 2)) + 0.3      # a,b with c,d
    ls, ms = sht.lm_index(lmax)
    bas = sht.basis(lmax)

    def cov(x, y):
        """<a_lm c_l'm'> over the real harmonics, unit white power."""
        sp = s[x]
        if sp != s[y]:
            return np.zeros((len(bas),) * 2)
        out = np.zeros((len(bas), len(bas)))
        wt = np.where(ms == 0, 1., 2.)
        B = np.array([a for _, a in bas])
        for i, (l, a) in enumerate(bas):
            if l < sp:
                continue
            al = np.zeros((2 if sp else 1, len(a)), dtype=complex)
            al[0] = a
            v = nmt.NmtField(mk[x] * mk[y], g.synth(al, sp, lmax), spin=sp,
                             wcs=g.wcs, lmax=lmax, n_iter=0,
                             n_iter_mask=0).get_alms()[0]
            out[i] = (B.conj() @ (wt * v)).real
        return out
    lb = np.array([x for x, _ in bas])
    P = np.zeros((L, len(bas)))
    P[lb, np.arange(len(bas))] = 1. / (2 * lb + 1)
    ac, bd, ad, bc = cov(0, 2), cov(1, 3), cov(0, 3), cov(1, 2)
    ctx.nontrivial(np.any(ac * bd) or np.any(ad * bc))

    def guess(x, y, v):
        o = np.zeros((n[x], n[y], L))
        if s[x] == s[y]:
            for k in range(n[x]):
                o[k, k] = v
        return o
    cl = [guess(0, 2, C[0, 0]), guess(0, 3, C[0, 1]), guess(1, 2, C[1, 0]),
          guess(1, 3, C[1, 1])]
    b = nmt.NmtBin.from_lmax_linear(lmax, 1)
    wa = nmt.NmtWorkspace.from_fields(F[0], F[1], b)
    wb = nmt.NmtWorkspace.from_fields(F[2], F[3], b)
    got = call(cw, s, cl, wa, wb, coupled=True).reshape(
        [L, n[0], n[1], L, n[2], n[3]])
    k1 = P @ (ac * bd * C[0, 0] * C[1, 1]) @ P.T
    k2 = P @ (ad * bc * C[0, 1] * C[1, 0]) @ P.T
    sc = max(np.max(np.abs(k1)), np.max(np.abs(k2))) + 1e-300
    for i in np.ndindex(*n):
        def zero(x, y):
            return n[x] == 2 == n[y] and i[x] != i[y]
        odd = [zero(0, 2), zero(1, 3), zero(0, 3), zero(1, 2)]
        # an odd-parity factor matters unless its partner vanishes (fields
        # of different spins are uncorrelated)
        if (odd[0] and s[1] == s[3]) or (odd[1] and s[0] == s[2]) or (
                odd[2] and s[1] == s[2]) or (odd[3] and s[0] == s[3]):
            continue
        ctx.close(got[:, i[0], i[1], :, i[2], i[3]], k1 + k2, 1e-9, scale=sc,
                  msg=f"exact covariance of white skies, components {i}")


SUBS = [
    Sub("formula", lambda d: gen(d), fn, 1000, 8000, weight=30.),
    Sub("symmetry", lambda d: gen(d), fn_sym, 500, 4000, weight=20.),
    Sub("white", gen_white, fn_white, 80, 800, weight=100.),
    Sub("large", gen_large, fn, 40, 800, weight=400.),
]
