"""P23: flat-sky purification."""
import numpy as np
import pymaster as nmt
from lib.flat import Patch
from lib.gen import rng_of
from lib.pbt import Sub
from props.p21 import basis, gen_patch, patch_of

RULE = ("Non-trivial: the mask is not constant and the input map has modes "
        "other than the mean.")
ASSUMPTIONS = ["exact statements use masks and skies whose Fourier modes add "
               "up to less than the Nyquist frequencies (no aliasing)",
               "the modes of the mask and of the sky exclude Nyquist"]
PURE = [[False, True], [True, False], [True, True]]


def band_mask(P, ax, ay, rng):
    """Real mask with Fourier modes |jx|<=ax, |jy|<=ay."""
    f = rng.standard_normal((P.ny, P.nx)) + 1j * rng.standard_normal(
        (P.ny, P.nx))
    q = (np.abs(P.jx)[None] <= ax) & (np.abs(P.jy)[:, None] <= ay)
    m = np.fft.ifft2(f * q).real
    m /= max(np.max(np.abs(m)), 1e-30)
    return m + rng.uniform(-0.5, 1.5)


def sky_alms(P, bx, by, rng, comps):
    out = []
    q = (np.abs(P.jx)[None] <= bx) & (np.abs(P.jy)[:, None] <= by)
    for on in comps:
        a = np.fft.fft2(rng.standard_normal((P.ny, P.nx))) * q
        out.append(a if on else 0 * a)
    return out


def lims(n, f):
    """Band limits of mask and sky, a+b below Nyquist."""
    t = (n - 1) // 2
    a = int(round(f * t))
    return a, t - a


def gen(d):
    p = gen_patch(d, 14)
    p["nx"] += 4
    p["ny"] += 4
    return dict(patch=p, fx=d.int(1, 3), fy=d.int(1, 3), pure=d.choice(PURE),
                which=d.choice([0, 1]), masked=d.bool(), seed=d.seed())


def gen_large(d):
    c = gen(d)
    c["patch"].update(nx=d.int(20, 120), ny=d.int(20, 120))
    return c


def setup(c):
    rng = rng_of(c["seed"])
    P = patch_of(c, rng)
    ax, bx = lims(P.nx, c["fx"] / 4)
    ay, by = lims(P.ny, c["fy"] / 4)
    m = band_mask(P, ax, ay, rng)
    return rng, P, m, (bx, by)


def field(P, m, maps, pure, **kw):
    return nmt.NmtFieldFlat(P.lx, P.ly, m, maps, spin=2, purify_e=pure[0],
                            purify_b=pure[1], **kw)


def parity(c, x):
    """Skies of one parity leave nothing in the other one."""
    rng, P, m, (bx, by) = setup(c)
    comps = [1, 0] if c["which"] == 0 else [0, 1]
    a = sky_alms(P, bx, by, rng, comps)
    a[0][0, 0] = a[1][0, 0] = 0
    mp = P.maps(a, 2)
    f = field(P, m, mp, c["pure"])
    got = P.alms(f.get_maps(), 2)
    oth = 1 - c["which"]
    x.label("E sky" if c["which"] == 0 else "B sky", str(c["pure"]))
    r = c["patch"]["asp"]
    x.label(r)
    masked = P.alms(mp * m, 2)
    sc = max(np.max(np.abs(q)) for q in masked)
    kf = max(P.dkx, P.dky) / min(P.dkx, P.dky) * max(P.nx, P.ny)
    # the mean mode is not purified (no 1/k)
    z = np.ones(P.k.shape, bool)
    z[0, 0] = False
    if c["pure"][oth]:
        x.close(got[oth][z], np.zeros(z.sum()), atol=1e-12 * kf**2 * sc,
                msg="leakage into the purified component")
        x.label("purified")
    else:
        x.close(got[oth], masked[oth], atol=1e-10 * sc,
                msg="component that is not purified")
    # the transfer of the purified component itself
    w = c["which"]
    if c["pure"][w]:
        k2 = P.k**2
        t = P.alms(m[None] * P.maps([-k2 * a[w]], 0), 0)[0]
        with np.errstate(divide="ignore", invalid="ignore"):
            want = -t / k2
        x.close(got[w][z], want[z], atol=1e-12 * kf**2 * sc,
                msg="purified component")
    else:
        x.close(got[w], masked[w], atol=1e-10 * sc,
                msg="component that is not purified")
    x.nontrivial(np.ptp(m) > 1e-6 and sc > 0 and bx + by > 0)


def gen_rel(d):
    return dict(patch=gen_patch(d, 12), pure=d.choice(PURE),
                kind=d.choice(["random", "const", "zeros", "signed"]),
                masked=d.bool(), lite=d.bool(), seed=d.seed())


def gen_rl(d):
    c = gen_rel(d)
    c["patch"].update(nx=d.int(20, 120), ny=d.int(20, 120))
    return c


def relate(c, x):
    """Linearity, the untouched component, constant masks, patch
    transposition, any mask and map."""
    rng = rng_of(c["seed"])
    P = patch_of(c, rng)
    sh = (P.ny, P.nx)
    m = {"random": rng.random(sh), "const": np.full(sh, rng.uniform(.3, 2)),
         "zeros": rng.random(sh) * (rng.random(sh) < 0.7),
         "signed": rng.standard_normal(sh)}[c["kind"]]
    if c["kind"] == "zeros":
        m[0, 0] = 0.5
    u, v = rng.standard_normal((2, 2) + sh)
    al = rng.uniform(-2, 2)
    x.label(c["kind"], str(c["pure"]), c["patch"]["asp"])
    b = nmt.NmtBinFlat([0.5 * min(P.dkx, P.dky)], [2 * np.max(P.k) + 1])

    def run(t):
        f = field(P, m, t, c["pure"])
        cl = nmt.compute_coupled_cell_flat(f, f, b)
        if c["lite"]:
            g = field(P, m, t, c["pure"], lite=True)
            x.close(nmt.compute_coupled_cell_flat(g, f, b), cl, 1e-12,
                    msg="lite purified field")
        return f.get_maps()
    fu, fv = run(u), run(v)
    fs = run(u + al * v)
    sc = max(np.max(np.abs(fu)), np.max(np.abs(fv)))
    x.close(fs, fu + al * fv, atol=1e-10 * sc, msg="linearity")
    # without Nyquist ambiguities, the other component is the plain one
    q = np.ones(P.k.shape, bool)
    if P.nx % 2 == 0:
        q[:, P.nx // 2] = False
    if P.ny % 2 == 0:
        q[P.ny // 2] = False
    pl, pu = P.alms(m * u, 2), P.alms(fu, 2)
    for i in (0, 1):
        if not c["pure"][i]:
            x.close(pu[i][q], pl[i][q], atol=1e-10 * sc * P.area,
                    msg="component that is not purified")
        if c["kind"] == "const":
            x.close(pu[i][q], pl[i][q], atol=1e-9 * sc * P.area,
                    msg="constant mask")
    if c["masked"]:
        f = field(P, m, u * m, c["pure"], masked_on_input=True)
        u0 = u * (m != 0)
        g = field(P, m, u0, c["pure"])
        x.close(f.get_maps(), g.get_maps(), atol=1e-9 * sc,
                msg="masked on input")
        x.label("masked on input")
    x.nontrivial(P.nx * P.ny > 1)


def units(c, x):
    """Only the shape of the patch matters, and transposing it (with the
    sign of U reversed) exchanges nothing but the axes."""
    rng = rng_of(c["seed"])
    P = patch_of(c, rng)
    sh = (P.ny, P.nx)
    m = rng.random(sh)
    u = rng.standard_normal((2,) + sh)
    f = field(P, m, u, c["pure"]).get_maps()
    s = 10**rng.uniform(-3, 1)
    Q = Patch(P.nx, P.ny, P.lx * s, P.ly * s)
    sc = np.max(np.abs(f))
    x.close(field(Q, m, u, c["pure"]).get_maps(), f, atol=1e-9 * sc,
            msg="units")
    # reflection on the diagonal: Q -> -Q, and B changes sign
    if P.nx % 2 and P.ny % 2:
        T = Patch(P.ny, P.nx, P.ly, P.lx)
        ut = np.array([-u[0].T, u[1].T])
        g = field(T, m.T, ut, c["pure"]).get_maps()
        x.close(np.array([-g[0].T, g[1].T]), f, atol=1e-9 * sc,
                msg="transposed patch")
        x.label("transposed")
    x.label(c["patch"]["asp"])
    x.nontrivial(P.nx * P.ny > 1)


def gen_temp(d):
    c = gen_rel(d)
    c.update(nt=d.int(1, 3), dup=d.choice([0, 0, 1]))
    return c


def templates(c, x):
    """Purified fields with templates: the coefficients come from the masked
    maps, and what is purified is the cleaned unmasked map."""
    rng = rng_of(c["seed"])
    P = patch_of(c, rng)
    sh = (P.ny, P.nx)
    m = {"random": rng.random(sh), "const": np.full(sh, rng.uniform(.3, 2)),
         "zeros": rng.random(sh) * (rng.random(sh) < 0.7),
         "signed": rng.standard_normal(sh)}[c["kind"]]
    if c["kind"] == "zeros":
        m[0, 0] = 0.5
    masked = c["masked"]
    u = rng.standard_normal((2,) + sh)
    t = rng.standard_normal((c["nt"], 2) + sh)
    if masked:
        u, t = u * (m != 0), t * (m != 0)
    if c["dup"]:
        t = np.concatenate([t, -0.5 * t[:1]])
    A = (t * m).reshape(len(t), -1)
    w, S, v = np.linalg.svd(A, full_matrices=False)
    r = S / S[0] if S[0] > 0 else S
    if not S[0] > 0 or np.any((r > 1e-9) & (r < 3e-2)):
        return
    if np.linalg.matrix_rank(t.reshape(len(t), -1), tol=1e-8) != np.sum(
            r > 1e-6):
        return  # what is taken out of the unmasked map is not determined
    x.label(c["kind"], "masked on input" if masked else "unmasked on input",
            "degenerate" if c["dup"] else "independent")
    g = r > 1e-6
    al = w[:, g] @ ((v[g] @ (u * m).ravel()) / S[g])
    clean = u - np.tensordot(al, t, 1)
    want = field(P, m, clean, c["pure"])
    kw = dict(templates=t * m if masked else t, tol_pinv=1e-8,
              masked_on_input=masked)
    f = field(P, m, u * m if masked else u, c["pure"], **kw)
    pl = field(P, m, u, c["pure"])
    sc = np.max(np.abs(want.get_maps())) + np.max(np.abs(pl.get_maps()))
    x.close(f.get_maps(), want.get_maps(), atol=1e-9 * sc / np.min(r[g])**2,
            msg="purified map without templates")
    x.close(f.get_templates(), t * m, atol=1e-12 * np.max(np.abs(t * m)),
            msg="templates held by a purified field")
    # pseudo-spectra of a lightweight field
    b = nmt.NmtBinFlat([0.5 * min(P.dkx, P.dky)], [2 * np.max(P.k) + 1])
    l = field(P, m, u * m if masked else u, c["pure"], lite=True, **kw)
    x.close(nmt.compute_coupled_cell_flat(l, f, b),
            nmt.compute_coupled_cell_flat(f, f, b), 1e-12,
            msg="lite purified field with templates")
    x.nontrivial(P.nx * P.ny > len(t))


SUBS = [Sub("templates", gen_temp, templates, quick=1000, thorough=10000,
            rule="there are more pixels than templates"),
        Sub("parity", gen, parity, quick=3200, thorough=40000),
        Sub("relate", gen_rel, relate, quick=2000, thorough=20000),
        Sub("units", gen_rel, units, quick=2000, thorough=20000),
        Sub("large-parity", gen_large, parity, quick=100, thorough=3000,
            weight=10),
        Sub("large-relate", gen_rl, relate, quick=60, thorough=2000,
            weight=10)]
