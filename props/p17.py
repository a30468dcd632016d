"""P17: curved-sky deprojection bias."""
import numpy as np
import pymaster as nmt
from lib import sht
from lib.gen import rng_of
from lib.pbt import Sub
from props.p08 import Grid, gen_grid

RULE = "Non-trivial: at least one field has templates."
ASSUMPTIONS = ["the ensemble mean is evaluated exactly, as the sum over the "
               "independent harmonic modes of the sky (reference synthesis) "
               "of pseudo-spectra of real fields",
               "guess spectra describe the maps the fields are given (beams "
               "included)", "independent templates are well conditioned"]


def gen(d, big=False):
    f = []
    for _ in range(2):
        s = d.choice([0, 0, 1, 2, 2, 2, 3])
        q = dict(s=s, nt=d.rare(d.choice([0, 1, 1, 2, 3]), 4, 5, 7, n=10), red=d.bool(),
                 pure=[bool(s == 2 and d.choice([0, 0, 1])) for _ in
                       range(2)],
                 kind=d.choice(["random", "binary", "signed", "ones",
                                "random"]), moi=d.choice([0, 0, 0, 1]),
                 aniso=0)
        if s and not q["nt"] and not any(q["pure"]):
            q["aniso"] = d.choice([0, 0, 1])
            q["moi"] = 0 if q["aniso"] else q["moi"]
        f.append(q)
    same = d.choice([0, 0, 0, 1]) == 1
    lmax = max(d.int(2, 12 if big else 5), f[0]["s"], f[1]["s"])
    g = gen_grid(d)
    if big and g["pix"] == "hp":
        g["nside"] = d.choice([4, 8, 16])
    return dict(grid=g, f=f, same=same, lmax=lmax,
                dl=d.int(0, 2), n_iter=d.rare(d.choice([0, 0, 1, 3]), 2, 6, n=10),
                beam=d.bool(), seed=d.seed())


def setup(c, ctx):
    rng = rng_of(c["seed"])
    g = Grid(c["grid"])
    out = []
    for q in c["f"]:
        n = 2 if q["s"] else 1
        m = g.mask(q["kind"], rng)
        t = rng.standard_normal((q["nt"], n) + g.shape)
        if q["nt"] and q["red"]:
            t = np.concatenate([t, np.tensordot(
                rng.standard_normal(q["nt"]), t, 1)[None], 0 * t[:1]])
        mk = dict(mask=m)
        if q["aniso"]:
            e, a = 0.9 * rng.random(g.shape), rng.uniform(0, 6, g.shape)
            m = np.abs(m)
            mk = dict(mask=m * (1 + e * np.cos(a)), mask_22=m * (
                1 - e * np.cos(a)), mask_12=m * e * np.sin(a))
        if any(q["pure"]):
            q["moi"] = 0
        kw = dict(spin=q["s"], wcs=g.wcs, lmax=c["lmax"],
                  lmax_mask=max(2, 2 * q["s"] if q["aniso"] else 0,
                                c["lmax"] + c["dl"]),
                  n_iter=c["n_iter"], n_iter_mask=0, purify_e=q["pure"][0],
                  purify_b=q["pure"][1], masked_on_input=bool(q["moi"]))
        if c["beam"]:
            kw["beam"] = rng.random(c["lmax"] + 1)
        out.append((q, m, mk, t, kw))
    lm = max(x[4]["lmax_mask"] for x in out)
    for x in out:
        x[4]["lmax_mask"] = lm
    if c["same"]:
        out[1] = out[0]
    s = sorted([out[0][0]["s"], out[1][0]["s"]])
    ctx.label(f"spins {s[0]}-{s[1]}", c["grid"]["pix"])
    for q in [x[0] for x in out]:
        if any(q["pure"]):
            ctx.label("purified")
        if q["aniso"]:
            ctx.label("anisotropic")
        if q["moi"]:
            ctx.label("masked on input")
    if c["same"]:
        ctx.label("same field")
    # well posed
    for q, m, mk, t, kw in out:
        if len(t):
            A = (t * m * np.sqrt(g.w)).reshape(len(t), -1)
            sv = np.linalg.svd(A @ A.T, compute_uv=False)
            sv /= sv[0] + 1e-300
            if np.any((sv > 3e-15) & (sv < 1e-6)) or np.sum(
                    sv > 1e-6) < q["nt"]:
                ctx.label("ill-posed templates (skipped)")
                return None
    ctx.nontrivial(out[0][0]["nt"] + out[1][0]["nt"] > 0)
    return rng, g, out


def field(x, mp, temp=True):
    q, m, mk, t, kw = x
    mk = dict(mk)
    if q["moi"]:
        mp, t = mp * m, t * m
    return nmt.NmtField(mk.pop("mask"), mp, templates=t if temp and len(t)
                        else None, **mk, **kw)


def fn(c, ctx):
    r = setup(c, ctx)
    if r is None:
        return
    rng, g, out = r
    lmax, L = c["lmax"], c["lmax"] + 1
    S = sht.SHT(lmax, g.th.ravel(), g.ph.ravel())
    n1, n2 = [2 if x[0]["s"] else 1 for x in out]
    cl = rng.standard_normal((n1, n2, L))
    # power is measured in components of either field that exist at l
    bas = sht.basis(lmax)
    D = np.zeros((n1 * n2, L))
    N0 = np.zeros((n1 * n2, L))
    sky = [{}, {}]
    fl = [{}, {}]
    for i, x in enumerate(out):
        if i and c["same"]:
            sky[1], fl[1] = sky[0], fl[0]
            break
        s = x[0]["s"]
        for cc in range(2 if s else 1):
            for k, (l, a) in enumerate(bas):
                if l < s:
                    continue
                al = np.zeros((2 if s else 1, len(a)), dtype=complex)
                al[cc] = a
                mp = S.synth(al, s).reshape((-1,) + g.shape)
                fl[i][cc, k] = (field(x, mp), field(x, mp, False))
    for (c1, k), (fa, fa0) in fl[0].items():
        l = bas[k][0]
        for c2 in range(n2):
            if (c2, k) not in fl[1]:
                continue
            fb, fb0 = fl[1][c2, k]
            p0 = nmt.compute_coupled_cell(fa0, fb0)
            D += cl[c1, c2, l] * (nmt.compute_coupled_cell(fa, fb) - p0)
            N0 += np.abs(cl[c1, c2, l]) * np.abs(p0)
    if not fl[0] or not fl[1]:
        return
    f1 = next(iter(fl[0].values()))[0]
    f2 = f1 if c["same"] else next(iter(fl[1].values()))[0]
    got = nmt.deprojection_bias(f1, f2, cl.reshape(n1 * n2, L),
                                n_iter=c["n_iter"])
    ctx.close(got, D, 1e-9, scale=np.max(N0) + np.max(np.abs(D)) + 1e-300,
              msg="deprojection bias against the exact ensemble mean")


def fn_rel(c, ctx):
    r = setup(c, ctx)
    if r is None:
        return
    rng, g, out = r
    L = c["lmax"] + 1
    F = []
    for x in out:
        F.append(field(x, rng.standard_normal((2 if x[0]["s"] else 1,)
                                              + g.shape)))
    f1, f2 = F
    if c["same"]:
        f2 = f1
    n1, n2 = f1.nmaps, f2.nmaps
    cl = rng.standard_normal((2, n1 * n2, L))
    ni = c["n_iter"]
    b = [nmt.deprojection_bias(f1, f2, x, n_iter=ni) for x in cl]
    sc = np.max(np.abs(b)) + 1e-300
    a, e = rng.uniform(-2, 2, 2)
    ctx.close(nmt.deprojection_bias(f1, f2, a * cl[0] + e * cl[1], n_iter=ni),
              a * b[0] + e * b[1], 1e-10, scale=4 * sc, msg="linearity")
    tr = cl[0].reshape(n1, n2, L).transpose(1, 0, 2).reshape(n1 * n2, L)
    got = nmt.deprojection_bias(f2, f1, np.array(tr), n_iter=ni)
    ctx.close(got.reshape(n2, n1, L).transpose(1, 0, 2).reshape(n1 * n2, L),
              b[0], 1e-9, scale=sc, msg="exchanged fields")
    # it does not depend on the maps
    G = [field(x, rng.standard_normal((2 if x[0]["s"] else 1,) + g.shape))
         for x in out]
    ctx.close(nmt.deprojection_bias(G[0], G[0] if c["same"] else G[1], cl[0],
                                    n_iter=ni), b[0], 1e-12, scale=sc,
              msg="same masks and templates, other maps")
    nt = [out[0][0]["nt"], out[0 if c["same"] else 1][0]["nt"]]
    if not any(nt):
        ctx.check(np.all(b[0] == 0), "bias without templates")
    z = [field(x, rng.standard_normal((2 if x[0]["s"] else 1,) + g.shape),
               False) for x in out]
    ctx.check(np.all(nmt.deprojection_bias(z[0], z[1], cl[0]) == 0),
              "bias without templates")
    # fields of one pair only: contributions add up to at most the fg term
    if nt[1] and not nt[0]:
        ctx.label("templates in the second field only")
    for bad in (np.zeros((n1 * n2, L + 1)), np.zeros((n1 * n2 + 1, L)),
                np.zeros((n1 * n2, L - 1))):
        ctx.raises(lambda: nmt.deprojection_bias(f1, f2, bad), ValueError,
                   "guess spectra of the wrong shape")


SUBS = [
    Sub("ensemble", lambda d: gen(d), fn, 1200, 8000, weight=80.),
    Sub("relations", lambda d: gen(d, True), fn_rel, 1200, 6000, weight=30.),
]
