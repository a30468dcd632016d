"""P16: apodisation of flat-sky masks."""
import numpy as np
import pymaster as nmt
from scipy.spatial import cKDTree
from lib.gen import rng_of
from lib.pbt import Sub

RULE = ("Non-trivial: the mask has both zero and non-zero pixels and some "
        "pixel is changed by the apodisation.")
ASSUMPTIONS = ["masks are not negative",
               "the Gaussian convolution is periodic over the patch and "
               "sampled from a table (tolerance 3e-4)"]
KINDS = ["holes", "holes", "dense", "edge", "corner", "disc", "one",
         "island", "sparse", "all0", "none0"]
TYPES = ["C1", "C2", "Smooth"]


def mask_of(ny, nx, kind, weighted, rng):
    m = np.ones((ny, nx))
    if kind == "holes":
        for _ in range(rng.integers(1, 5)):
            m[rng.integers(ny), rng.integers(nx)] = 0
    elif kind == "one":
        m[rng.integers(ny), rng.integers(nx)] = 0
    elif kind == "dense":
        m = (rng.random((ny, nx)) < 0.7).astype(float)
    elif kind == "edge":
        k = rng.integers(1, max(2, min(nx, ny) // 3 + 1))
        m[:k] = 0
        if rng.random() < 0.5:
            m[:, -k:] = 0
    elif kind == "corner":
        m[-1, 0] = 0
    elif kind == "disc":
        y, x = np.mgrid[:ny, :nx]
        m[(y - ny / 2)**2 + (x - nx / 2)**2 > rng.uniform(
            0.2, 0.5)**2 * min(nx, ny)**2] = 0
    elif kind == "island":
        m[:] = 0
        for _ in range(rng.integers(1, 4)):
            m[rng.integers(ny), rng.integers(nx)] = 1
    elif kind == "sparse":
        m = (rng.random((ny, nx)) < 0.15).astype(float)
    elif kind == "all0":
        m[:] = 0
    if weighted:
        m *= rng.uniform(0.1, 3, (ny, nx))
    return m


def gen(d, types=("C1", "C2")):
    return dict(nx=d.int(2, 40), ny=d.int(2, 40), kind=d.choice(KINDS),
                w=d.bool(), typ=d.choice(types), asp=d.int(0, 4),
                q=d.int(0, 20), dt=d.choice(["f8", "f8", "f4", "i4"]),
                order=d.choice(["C", "C", "F", "neg"]), seed=d.seed())


def gen_large(d, types=("C1", "C2", "C1", "C2", "Smooth")):
    c = gen(d, types)
    c.update(nx=d.int(41, 220), ny=d.int(41, 220))
    return c


def large(c, x):
    return smooth(c, x) if c["typ"] == "Smooth" else cx(c, x)


def setup(c):
    rng = rng_of(c["seed"])
    nx, ny = c["nx"], c["ny"]
    m = mask_of(ny, nx, c["kind"], c["w"], rng)
    if c["dt"] == "i4":
        m = np.ceil(m)
    m = m.astype(c["dt"])
    if c["order"] == "F":
        m = np.asfortranarray(m)
    elif c["order"] == "neg":
        m = np.ascontiguousarray(m[::-1, ::-1])[::-1, ::-1]
    dx = np.radians(10.**rng.uniform(-2, 0.3))
    dy = dx * [1., 1., 2., 0.4, rng.uniform(0.2, 5)][c["asp"]]
    lx, ly = dx * nx, dy * ny
    p = min(dx, dy)
    a = p * 0.3 * (3 * max(lx, ly) / p)**((c["q"] + rng.random()) / 21.)
    return m, lx, ly, float(np.degrees(a))


def apodise(m, lx, ly, a, typ):
    m0 = m.copy()
    out = nmt.mask_apodization_flat(m, lx, ly, a, apotype=typ)
    if not np.array_equal(m, m0):
        raise AssertionError("the input mask was modified")
    return out


def dist2(m, lx, ly):
    """Squared distance of every pixel to the nearest zero pixel."""
    ny, nx = m.shape
    zy, zx = np.where(m == 0)
    Y, X = np.mgrid[:ny, :nx]
    if not len(zy):
        return np.full(m.shape, np.inf)
    dx, dy = lx / nx, ly / ny
    t = cKDTree(np.array([zy * dy, zx * dx]).T)
    d = t.query(np.array([Y.ravel() * dy, X.ravel() * dx]).T)[0]
    return d.reshape(m.shape)**2


def cx(c, x):
    m, lx, ly, a = setup(c)
    got = apodise(m, lx, ly, a, c["typ"])
    mm = m.astype(float)
    xx = np.sqrt(dist2(m, lx, ly)) / np.radians(a)
    xi = np.where(xx < 1, xx, 1.)
    if c["typ"] == "C1":
        f = xi - np.sin(2 * np.pi * xi) / (2 * np.pi)
    else:
        f = 0.5 * (1 - np.cos(np.pi * xi))
    want = mm * f
    x.label(c["typ"], c["kind"], "square" if c["asp"] < 2 else "rectangular")
    x.close(got, want, atol=1e-10 * np.max(mm), msg="apodised mask")
    x.nontrivial(np.any(want != mm))


def smooth(c, x):
    m, lx, ly, a = setup(c)
    got = apodise(m, lx, ly, a, "Smooth")
    mm = m.astype(float)
    s = np.radians(a)
    r = np.sqrt(dist2(m, lx, ly)) / (2.5 * s)
    if np.any(np.abs(r - 1) < 1e-9):
        return
    t = np.where(r <= 1, 0., mm)
    ny, nx = m.shape
    kx = 2 * np.pi * np.fft.fftfreq(nx, lx / nx)
    ky = 2 * np.pi * np.fft.fftfreq(ny, ly / ny)
    b = np.exp(-0.5 * s * s * (kx[None]**2 + ky[:, None]**2))
    want = np.fft.ifft2(np.fft.fft2(t) * b).real * mm
    x.label(c["kind"], "square" if c["asp"] < 2 else "rectangular",
            "erased" if not t.any() else "kept")
    x.close(got, want, atol=3e-4 * np.max(mm)**2, msg="smoothed mask")
    x.check(np.all(got[m == 0] == 0), "masked pixels are not zero any more")
    x.nontrivial(bool(t.any()) and bool(np.any(m == 0)))


def relate(c, x):
    """Transposing, flipping and changing units."""
    m, lx, ly, a = setup(c)
    base = apodise(m, lx, ly, a, c["typ"])
    sc = float(np.max(m))**(2 if c["typ"] == "Smooth" else 1)
    tol = dict(atol=1e-9 * sc)
    x.close(apodise(m.T, ly, lx, a, c["typ"]).T, base, msg="transposed",
            **tol)
    x.close(apodise(m[::-1], lx, ly, a, c["typ"])[::-1], base,
            msg="rows reversed", **tol)
    x.close(apodise(m[:, ::-1], lx, ly, a, c["typ"])[:, ::-1], base,
            msg="columns reversed", **tol)
    x.close(apodise(m, lx * 2, ly * 2, a * 2, c["typ"]), base,
            msg="all lengths doubled", **tol)
    x.label(c["typ"])
    x.nontrivial(bool(np.any(m == 0) and np.any(m)))


def gen_edge(d):
    c = gen(d, TYPES)
    c.update(what=d.choice(["zero", "negative", "type", "ndim", "huge",
                            "size"]), f=d.float(0.01, 1.))
    return c


def edge(c, x):
    m, lx, ly, a = setup(c)
    w = c["what"]
    x.label(w)
    x.nontrivial()
    if w == "zero":
        x.equal(apodise(m, lx, ly, 0., c["typ"]), m.astype(float),
                "zero scale")
    elif w == "negative":
        x.raises(lambda: apodise(m, lx, ly, -a, c["typ"]), Exception, w)
    elif w == "type":
        x.raises(lambda: apodise(m, lx, ly, a, c["typ"] + "x"), Exception, w)
    elif w == "ndim":
        x.raises(lambda: apodise(m.ravel(), lx, ly, a, c["typ"]), Exception,
                 w)
    elif w == "size":
        x.raises(lambda: apodise(m, -lx, ly, a, c["typ"]), Exception, w)
        x.raises(lambda: apodise(m, lx, 0., a, c["typ"]), Exception, w)
    else:
        g = apodise(m, lx * 1e-5, ly * 1e-5, 170., c["typ"])
        if np.any(m == 0):
            x.check(np.all(np.abs(g) <= 1e-5 * np.max(m)),
                    "patch much smaller than the scale is not suppressed")
        elif c["typ"] != "Smooth":
            x.equal(g, m.astype(float), "nothing is masked")


SUBS = [
    Sub("distance", gen, cx, quick=600, thorough=8000, isolate=True,
        rule=RULE),
    Sub("smooth", lambda d: gen(d, ["Smooth"]), smooth, quick=400,
        thorough=5000, isolate=True,
        rule="zero pixels, and some of the mask survives"),
    Sub("relations", lambda d: gen(d, TYPES), relate, quick=300,
        thorough=3000, isolate=True, rule="zero and non-zero pixels"),
    Sub("edges", gen_edge, edge, quick=120, thorough=600, isolate=True,
        rule="every case"),
    Sub("large", gen_large, large, quick=100, thorough=2000, isolate=True,
        rule=RULE, weight=20),
]
