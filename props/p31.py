"""P31: no public operation touches memory it does not own (the compiled
library is instrumented with AddressSanitizer and UBSan; any report ends the
process, which is what the cases of this check look for)."""
import gc
import importlib
import os
import shutil
import signal
import tempfile
import warnings
import numpy as np
import pymaster as nmt
from astropy.io import fits
from lib import api, files, pbt
from lib.pbt import Sub
from props import p28

RULE = ("Non-trivial: the operations returned, or were refused with a Python "
        "exception, under the instrumented library after at least one of "
        "them entered compiled code.")
ASSUMPTIONS = ["memory of cfitsio, FFTW, GSL, HEALPix and numpy is watched "
               "only at the allocation level (heap blocks and the libc calls "
               "that the sanitizer intercepts)",
               "results are not judged here, only memory accesses and "
               "integer arithmetic"]


def isolated(fn):
    """Every case works in a directory of its own and may take a while."""
    def run(c, x):
        x.scratch = tempfile.mkdtemp(dir=x.scratch)
        os.chdir(x.scratch)
        signal.alarm(int(os.environ.get("NMT_ALARM", 100)))
        warnings.simplefilter("ignore")
        np.seterr(all="ignore")
        try:
            fn(c, x)
            gc.collect()
        finally:
            signal.alarm(0)
            os.chdir("/")
            shutil.rmtree(x.scratch, ignore_errors=True)
    return run


def attempt(x, f, *a, **kw):
    """Result or None; exceptions are as good as results here."""
    try:
        r = f(*a, **kw)
        x.label("returned")
    except Exception as q:
        x.label("refused")
        if isinstance(q, AssertionError):
            raise
        r = None
    return r


# ------------------------------------------------------- histories of calls
def gen_env(d):
    c = api.gen_env(d)
    if d.choice([True, False, False]):
        c.update(lmax=d.int(5, 20), ny=d.int(1, 16), nx=d.int(1, 16),
                 nside=d.choice([2, 4, 8]))
    return c


def gen_calls(d):
    return dict(env=gen_env(d), ops=[
        [d.choice(p28.NAMES), [[d.int(0, 999) for _ in range(3)]
                               for _ in range(d.choice([0, 0, 1, 1, 2]))],
         d.choice(["keep", "keep", "probe", "drop", "forget"]),
         d.int(0, 10**6)] for _ in range(d.int(1, 7))])


@isolated
def fn_calls(c, x):
    e = api.Env(c["env"], x.scratch)
    kept = []
    for name, mut, after, p in c["ops"]:
        try:
            f, kw = api.ENTRIES[name](e)
        except Exception:
            continue
        names = sorted(kw)
        for a, k, q in mut if names else []:
            n = names[a % len(names)]
            old = kw[n]
            m, kw[n] = api.mutate(old, k, q, e)
            if m in ("2**31", "2**33", "100") and n in p28.SIZES:
                kw[n] = old
        r = attempt(x, f, **kw)
        x.nontrivial(True)
        x.label(name)
        if after != "drop":
            kept.append(r)
        if after == "probe":
            attempt(x, api.snapshot, r, e)
            for o in list(e.made.values()):
                if type(o).__module__.startswith("pymaster"):
                    attempt(x, api.snapshot, o, e)
        elif after == "forget" and e.made:
            # something earlier results may have been made from
            k = sorted(e.made)[p % len(e.made)]
            del e.made[k]
        del f, kw, r
    gc.collect()
    for r in kept:
        attempt(x, api.snapshot, r, e)


# ------------------------------------------------------- damaged files
KINDS = {"w00": ("w", {}), "wss": ("w", {}), "w0s": ("w", {}),
         "wteb": ("w", {}), "v00": ("v", {}), "v0s": ("v", {}),
         "vss": ("v", {}), "vteb": ("v", {}), "cov": ("c", {}),
         "cov00": ("c", {}), "fcov": ("f", {})}
DAMAGE = ["none", "card", "card", "card", "card", "card", "bytes", "bytes",
          "headbytes", "truncate", "truncate", "drophdu", "duphdu", "swaphdu",
          "otherhdu", "resize", "resize", "resize", "data", "data", "data",
          "rename", "append", "empty"]
DAMAGE += ["contradict"] * 8
BYTES = ("card", "bytes", "headbytes", "truncate", "append", "empty")
VALUES = [0, 1, -1, 2, 3, 4, 5, 7, 8, 100, -100, 2**31 - 1, -2**31, 2**31,
          2**27, 2**28, 2**29, 2**40, 0.5, 1e300, float(np.pi), "text", "",
          True, False]


def gen_files(d):
    return dict(env=gen_env(d), kind=d.choice(sorted(KINDS)),
                damage=[[d.choice(DAMAGE), d.int(0, 10**6), d.int(0, 10**6),
                         d.int(0, 10**6)] for _ in range(
                             d.choice([1, 1, 1, 2, 3]))],
                reader=d.choice(["own", "own", "own", "own", "any"]),
                into=d.choice(["new", "new", "old"]),
                unb=d.choice([True, True, False]), r=d.int(0, 10**6),
                ops=[d.int(0, 10**6) for _ in range(4)])


def cards(raw):
    """Offsets of the header cards of a file."""
    out = []
    pos, inhead = 0, False
    for b in range(0, len(raw) - 2879, 2880):
        blk = raw[b:b + 2880]
        if not inhead and (blk[:8] in (b"SIMPLE  ", b"XTENSION")):
            inhead = True
        if inhead:
            for k in range(36):
                cd = bytes(blk[80 * k:80 * k + 80])
                if cd[:8] == b"END     ":
                    inhead = False
                    break
                if cd[8:10] == b"= ":
                    out.append(b + 80 * k)
    return out


def damage(e, fname, how, a, b, c):
    with open(fname, "rb") as fh:
        raw = bytearray(fh.read())
    if how == "none" or len(raw) == 0:
        return
    if how == "empty":
        raw = bytearray()
    elif how == "append":
        raw += e.rng(90, a).bytes(a % 6000)
    elif how == "truncate":
        n = max(1, len(raw) // 2880)
        raw = raw[:2880 * (a % n)] if b % 2 else raw[:a % len(raw)]
    elif how == "bytes":
        for k in range(1 + c % 4):
            p = (a + 7919 * k * (b + 1)) % len(raw)
            raw[p] = (raw[p] ^ (1 << (b % 8))) if c % 3 else b % 256
    elif how == "headbytes":
        cd = cards(raw)
        if not cd:
            return
        p = cd[a % len(cd)] + b % 80
        raw[p] = b"0123456789 -'EXT"[c % 16]
    elif how == "card":
        cd = cards(raw)
        # keywords of this library and of the layout, not comments
        cd = [p for p in cd if bytes(raw[p:p + 8]) not in (
            b"COMMENT ", b"SIMPLE  ", b"EXTEND  ")]
        if not cd:
            return
        p = cd[a % len(cd)]
        old = bytes(raw[p + 10:p + 30]).strip()
        v = VALUES[b % len(VALUES)]
        if c % 4 and isinstance(v, int):
            try:
                i = int(old)
                v = [i - 1, i + 1, 2 * i, -i, i // 2, 0, i + 2**31, 1][
                    b % 8]
            except ValueError:
                pass
        if isinstance(v, bool):
            s = "%20s" % ("T" if v else "F")
        elif isinstance(v, str):
            s = "'%-8s'" % v
        else:
            s = "%20s" % repr(v)
        raw[p + 10:p + 80] = b"%-70s" % s.encode()
    else:
        damage_hdus(e, fname, how, a, b, c)
        return
    with open(fname, "wb") as fh:
        fh.write(raw)


def damage_hdus(e, fname, how, a, b, c):
    """Changes of a valid file to another valid one."""
    if how == "contradict":
        try:
            with fits.open(fname, memmap=False) as hl:
                names = [h.name for h in hl]
            files.contradict(fname, "w" if "PCL_MASKS" in names else
                             "v" if "FS_INFO" in names else
                             "f" if "BINS_SUMMARY" in names else
                             "c" if "XI02_1122" in names else "c0", a, b)
        except Exception:
            pass
        return
    try:
        with fits.open(fname, memmap=False) as hl:
            hd = [h.copy() for h in hl]
    except Exception:
        return
    n = len(hd)
    k = a % n
    if how == "drophdu":
        if k == 0:
            hd[0] = fits.PrimaryHDU()
        else:
            del hd[k]
    elif how == "duphdu":
        if k:
            hd.append(hd[k].copy())
    elif how == "swaphdu":
        j = b % n
        if k and j:
            hd[k].name, hd[j].name = hd[j].name, hd[k].name
    elif how == "rename":
        hd[k].name = ["OTHER", "WSP_PRIMARY", "BINS_SUMMARY", "MCM_PERM",
                      "CWSP_PRIMARY"][b % 5]
    elif how == "otherhdu":
        other = sorted(KINDS)[b % len(KINDS)]
        g = os.path.join(e.dir, "other.fits")
        getattr(e, other).write_to(g)
        with fits.open(g, memmap=False) as h2:
            names = [h.name for h in h2]
            if hd[k].name in names and k:
                hd[k] = h2[hd[k].name].copy()
            else:
                j = c % len(h2)
                if j:
                    hd.append(h2[j].copy())
    elif how in ("resize", "data"):
        for t in range(n):
            h = hd[(k + t) % n]
            if getattr(h, "data", None) is not None and len(h.data):
                break
        else:
            return
        if isinstance(h, fits.BinTableHDU):
            i = b % len(h.data)
            if how == "resize":
                rows = np.arange(len(h.data))
                rows = [rows[:-1], np.append(rows, rows[-1]), rows[:1],
                        np.append(rows, rows), rows[:0]][c % 5]
                hd[hd.index(h)] = fits.BinTableHDU(h.data[rows], header=None,
                                                   name=h.name)
                new = hd[(k + t) % n]
                for key in h.header:
                    if key in ("N_BANDS", "ELL_MAX", "NX", "NY", "NPIX",
                               "LX", "LY", "PIXSIZE", "DELL", "I_DELL"):
                        new.header[key] = h.header[key]
            else:
                col = c % len(h.columns)
                v = h.data.field(col)
                put(v, b, c)
        else:
            d = h.data
            if how == "resize":
                ax = b % d.ndim
                sl = [slice(None)] * d.ndim
                sl[ax] = [slice(0, d.shape[ax] - 1),
                          slice(0, 1), list(range(d.shape[ax])) + [0],
                          list(range(d.shape[ax])) * 2][c % 4]
                h.data = np.ascontiguousarray(d[tuple(sl)])
                if c % 7 == 0:
                    h.data = h.data.ravel()
            else:
                if c % 6 == 0:
                    h.data = np.nan_to_num(d).astype(np.int16)
                else:
                    put(h.data, b, c)
    hd[0] = hd[0] if isinstance(hd[0], fits.PrimaryHDU) else fits.PrimaryHDU()
    try:
        fits.HDUList(hd).writeto(fname, overwrite=True,
                                 output_verify="ignore", checksum=False)
    except Exception:
        pass


def put(v, b, c):
    i = b % v.size
    if v.dtype.kind == "f":
        v.flat[i] = [np.nan, np.inf, -1., 1e300, 0., 1e-310, 2.**31][c % 7]
    else:
        o = int(v.flat[i])
        w = [-1, o + 1, o - 1, 2**31 - 1, -2**31, 1000, 0, v.size][c % 8]
        w = min(max(w, np.iinfo(v.dtype).min), np.iinfo(v.dtype).max)
        v.flat[i] = w


def use(x, e, w, ops):
    """Operations that take such an object."""
    attempt(x, api.snapshot, w, e)
    wsp = getattr(w, "wsp", None)
    if wsp is None:
        return
    f = os.path.join(e.dir, "again.fits")
    if isinstance(w, nmt.NmtWorkspace):
        n, lm = wsp.ncls, wsp.lmax
        if not 0 <= n * (lm + 1) < 10**6:
            return
        lf = wsp.lmax_fields
        todo = [lambda: w.write_to(f),
                lambda: w.update_beams(np.ones(lf + 1), np.ones(lf + 1)),
                lambda: w.update_bins(nmt.NmtBin.from_lmax_linear(lm, 2)),
                lambda: w.update_coupling_matrix(np.eye(n * (lm + 1))),
                lambda: w.update_coupling_matrix(w.get_coupling_matrix() * 2),
                lambda: api.snapshot(w, e),
                lambda: nmt.gaussian_covariance(
                    e.cov, 0, 0, 0, 0, *[e.cl1] * 4, w, e.w00),
                lambda: nmt.gaussian_covariance(
                    e.cov, e.sp, e.sp, e.sp, e.sp, *[e.cl4] * 4, e.wss, w),
                lambda: w.read_from(e.wfile),
                lambda: nmt.compute_full_master(e.f0, e.fs, None,
                                                workspace=w),
                lambda: nmt.deprojection_bias(e.f0, e.fs, e.cl2)]
    elif isinstance(w, nmt.NmtWorkspaceFlat):
        todo = [lambda: w.write_to(f), lambda: api.snapshot(w, e),
                lambda: nmt.compute_full_master_flat(e.g0, e.gs, e.fbins,
                                                     workspace=w),
                lambda: nmt.compute_full_master_flat(e.gs, e.gs, e.fbins2,
                                                     workspace=w),
                lambda: nmt.gaussian_covariance_flat(
                    e.fcov, 0, 0, 0, 0, e.ells, *[e.fcl1] * 4, w, e.v00),
                lambda: nmt.gaussian_covariance_flat(
                    e.fcov, e.sp, e.sp, e.sp, e.sp, e.ells, *[e.fcl4] * 4,
                    e.vss, w),
                lambda: w.read_from(e.vfile),
                lambda: w.compute_coupling_matrix(e.g0, e.gs, e.fbins2)]
    elif isinstance(w, nmt.NmtCovarianceWorkspace):
        todo = [lambda: w.write_to(f), lambda: api.snapshot(w, e),
                lambda: nmt.gaussian_covariance(
                    w, 0, 0, 0, 0, *[e.cl1] * 4, e.w00, e.w00),
                lambda: nmt.gaussian_covariance(
                    w, e.sp, e.sp, e.sp, e.sp, *[e.cl4] * 4, e.wss, e.wss),
                lambda: nmt.gaussian_covariance(
                    w, 0, 0, 0, 0, *[e.cl1] * 4, e.w00, e.w00, coupled=True),
                lambda: w.read_from(e.cfile),
                lambda: w.compute_coupling_coefficients(e.f0, e.fs)]
    else:
        todo = [lambda: w.write_to(f), lambda: api.snapshot(w, e),
                lambda: nmt.gaussian_covariance_flat(
                    w, 0, 0, 0, 0, e.ells, *[e.fcl1] * 4, e.v00, e.v00),
                lambda: nmt.gaussian_covariance_flat(
                    w, e.sp, e.sp, e.sp, e.sp, e.ells, *[e.fcl4] * 4,
                    e.vss, e.vss),
                lambda: w.read_from(e.fcfile),
                lambda: w.compute_coupling_coefficients(e.g0, e.g0,
                                                        e.fbins2)]
    for k in ops:
        attempt(x, todo[k % len(todo)])
    if os.path.exists(f):
        attempt(x, type(w).from_file if isinstance(
            w, (nmt.NmtWorkspace, nmt.NmtCovarianceWorkspace))
            else type(w)().read_from, f)
    attempt(x, api.snapshot, w, e)


@isolated
def fn_files(c, x):
    e = api.Env(c["env"], x.scratch)
    f = os.path.join(x.scratch, "t.fits")
    try:
        getattr(e, c["kind"]).write_to(f)
    except Exception:
        x.label("no such object")
        return
    # (the library that changes whole extensions wants a valid file)
    for how, a, b, k in sorted(c["damage"], key=lambda t: t[0] in BYTES):
        x.label("damage " + how)
        try:
            damage(e, f, how, a, b, k)
        except (ValueError, IndexError, KeyError, ZeroDivisionError,
                TypeError, OSError):
            x.label("not damaged")
    fam = KINDS[c["kind"]][0]
    if c["reader"] == "any":
        fam = "wvcf"[c["r"] % 4]
        x.label("read as any kind")
    old = c["into"] == "old"
    try:
        w = getattr(e, {"w": "w00", "v": "v00", "c": "cov00", "f": "fcov"}[
            fam] if old else "empty_" + {"f": "fc"}.get(fam, fam))
    except Exception:
        x.label("no such object")
        return
    if fam == "w":
        r = attempt(x, lambda: (w.read_from(f, read_unbinned_MCM=c["unb"]),
                                1))
    elif fam == "v":
        r = attempt(x, lambda: (w.read_from(f), 1))
    elif fam == "c":
        r = attempt(x, lambda: (w.read_from(
            f, force_spin0_only=not c["unb"]), 1))
    else:
        r = attempt(x, lambda: (w.read_from(f), 1))
    x.nontrivial(True)
    x.label("file accepted" if r else "file refused")
    use(x, e, w, c["ops"])
    attempt(x, lambda: api.snapshot(e.wss, e))


# ------------------------------------- combinations of sizes
def gen_sizes(d):
    def fld():
        return dict(kind=d.choice(["hp", "hp", "hp", "car", "cat"]),
                    spin=d.choice([0, 0, 1, 2, 2, 3, 5]),
                    lmax=d.int(0, 9), lmask=d.int(0, 9),
                    pure=[d.choice([False, False, True]) for _ in range(2)],
                    temp=d.choice([0, 0, 1, 3]), beam=d.choice([-1, 0, 0, 1, 5]),
                    lite=d.choice([False, False, True]),
                    aniso=d.choice([False, False, True]),
                    maskonly=d.choice([False, False, True]),
                    moi=d.bool(), n_iter=d.choice([0, 1]))
    return dict(nside=d.choice([2, 2, 4]), lmax=d.int(2, 12),
                lmask=d.int(2, 12), equal=d.choice([True] * 5 + [False]),
                fields=[fld() for _ in range(4)], kind=d.choice(
                    ["hp", "hp", "car", "cat", "mix"]), binl=d.choice(
                        [0, 0, 0, 0, 0, -1, 1]), an=d.choice(
                            [False, False, True]), nlb=d.int(1, 5),
                edges=d.perm(range(14))[:4],
                teb=d.choice([False, False, True]),
                toep=[d.int(-1, 12) for _ in range(3)] if d.choice(
                    [False, False, True]) else [-1, -1, -1],
                norm=d.choice(["MASTER", "MASTER", "FKP"]),
                cltl=d.choice([0, 0, 0, 1, 3, -1]), spin0=d.choice(
                    [False, False, True]), coupled=d.bool(), seed=d.seed())


def mk_field(c, k, L, M):
    f = c["fields"][k]
    r = api.rng_of(c["seed"], k)
    s = f["spin"]
    nm = 1 if s == 0 else 2
    kind = f["kind"] if c["kind"] == "mix" else c["kind"]
    lm = L if c["equal"] else max(0, L + f["lmax"] - 4)
    ma = M if c["equal"] else max(0, M + f["lmask"] - 4)
    beam = None if f["beam"] < 0 else 0.5 + r.random(lm + 1 + f["beam"])
    if kind == "cat":
        n = 1 + c["seed"] % 7
        pos = np.array([np.arccos(r.uniform(-1, 1, n)),
                        r.uniform(0, 2 * np.pi, n)])
        if f["maskonly"]:
            return nmt.NmtFieldCatalogClustering(
                pos, r.random(n) + 1, pos * 0.9, r.random(n) + 1, lm)
        return nmt.NmtFieldCatalog(pos, r.random(n), r.random((nm, n)), lm,
                                   lmax_mask=ma, spin=s, beam=beam)
    wcs = None
    if kind == "car":
        wcs = api.car_wcs(9, 16)[0]
        shp = (9, 16)
    else:
        shp = (12 * c["nside"]**2,)
    mask = r.random(shp) * (r.random(shp) < 0.8)
    kw = {}
    if c["an"] and f["aniso"] and s:
        kw = dict(mask_22=0.8 * mask, mask_12=0.3 * mask)
    p = f["pure"] if s == 2 and not kw else [False, False]
    maps = None if f["maskonly"] else r.standard_normal((nm,) + shp)
    t = None
    if f["temp"] and maps is not None and not f["lite"] and not kw:
        t = r.standard_normal((f["temp"], nm) + shp)
    return nmt.NmtField(mask, maps, spin=s, templates=t, beam=beam,
                        purify_e=p[0], purify_b=p[1], wcs=wcs, lmax=lm,
                        lmax_mask=ma, lite=f["lite"], n_iter=f["n_iter"],
                        masked_on_input=f["moi"], n_iter_mask=f["n_iter"],
                        **kw)


@isolated
def fn_sizes(c, x):
    L, M = c["lmax"], c["lmask"]
    r = api.rng_of(c["seed"], 77)
    fs = [attempt(x, mk_field, c, k, L, M) for k in range(4)]
    fs = [f for f in fs if f is not None]
    if not fs:
        return
    fs = (fs * 4)[:4]
    ed = sorted(c["edges"][:3]) + [L + 1]
    ed = sorted({min(q, L + 1) for q in ed})
    bins = [attempt(x, nmt.NmtBin.from_lmax_linear, L + c["binl"], c["nlb"]),
            attempt(x, nmt.NmtBin.from_edges, ed[:-1], ed[1:])]
    bins = [b for b in bins if b is not None]
    bins = (bins * 2)[:2]
    if not bins:
        return
    ws = []
    for k, (a, b) in enumerate([(0, 1), (2, 3), (0, 0)]):
        w = attempt(x, nmt.NmtWorkspace.from_fields, fs[a], fs[b],
                    bins[k == 1 and c["binl"] == 0], is_teb=c["teb"],
                    l_toeplitz=c["toep"][0], l_exact=c["toep"][1],
                    dl_band=c["toep"][2], normalization=c["norm"])
        if w is not None:
            ws.append(w)
            x.label("workspace")
            x.nontrivial(True)
            n, lm = w.wsp.ncls, w.wsp.lmax
            lc = lm + 1 + c["cltl"]
            cl = r.random((n, lc)) + 0.1
            attempt(x, w.couple_cell, cl)
            attempt(x, w.decouple_cell, cl, cl_bias=cl, cl_noise=cl)
            attempt(x, api.snapshot, w)
            attempt(x, w.update_beams, r.random(lm + 1 + c["cltl"]),
                    r.random(lm + 1))
            attempt(x, lambda: w.update_bins(
                nmt.NmtBin.from_lmax_linear(lm, 2)))
            pc = attempt(x, nmt.compute_coupled_cell, fs[a], fs[b])
            attempt(x, w.decouple_cell, pc)
            for lite in (True, False):
                attempt(x, nmt.deprojection_bias, fs[a], fs[b], cl,
                        n_iter=0)
            attempt(x, nmt.uncorr_noise_deprojection_bias, fs[a],
                    np.ones_like(np.atleast_1d(fs[a].get_mask()))
                    if fs[a].mask is not None else None, n_iter=0)
            attempt(x, nmt.compute_full_master, fs[a], fs[b], bins[0])
    cw = attempt(x, nmt.NmtCovarianceWorkspace.from_fields, *fs,
                 l_toeplitz=c["toep"][0], l_exact=c["toep"][1],
                 dl_band=c["toep"][2], spin0_only=c["spin0"])
    if cw is not None and len(ws) > 1:
        x.label("covariance")
        x.nontrivial(True)
        ss = [0 if c["spin0"] else f.spin for f in fs]
        n = [1 if s == 0 else 2 for s in ss]
        lc = cw.wsp.lmax + 1 + c["cltl"]
        cl = [r.random((n[i] * n[j], lc)) for i, j in (
            (0, 2), (0, 3), (1, 2), (1, 3))]
        for cp in (True, False):
            attempt(x, nmt.gaussian_covariance, cw, *ss, *cl, ws[0], ws[1],
                    coupled=cp)
        attempt(x, nmt.gaussian_covariance, cw, 0, 0, 0, 0, *[cl[0][:1]] * 4,
                ws[0], ws[0])


def gen_flat(d):
    return dict(nx=d.choice([1, 2, 3]) if d.choice(
        [True, False, False]) else d.int(1, 20), ny=d.int(1, 20),
        lx=d.choice([0.02, 0.1, 0.3, 1.5]), asp=d.choice([1., 1., 0.3, 4.]),
        spins=[d.choice([0, 0, 1, 2, 2, 3]) for _ in range(4)],
        pure=[d.choice([False, False, True]) for _ in range(4)],
        temp=[d.choice([0, 0, 1, 2]) for _ in range(4)],
        lite=[d.choice([False, False, True]) for _ in range(4)],
        mo=[d.choice([False, False, False, True]) for _ in range(4)],
        moi=d.bool(), beam=d.choice([0, 0, 1, 2, 2, 3, 5, 6]), nb=d.int(1, 6), bmax=d.choice(
            [0.5, 1., 1., 1.5, 10.]), bmin=d.choice([0., 0., 0.1]),
        cut=d.choice(["no", "no", "x", "y", "all"]),
        teb=d.choice([False, False, True]), nl=d.choice([1, 2, 2, 3, 5, 8, 12]),
        lext=d.choice([0.3, 1., 2.]), ap=d.choice(["C1", "C2", "Smooth"]),
        apo=d.choice([0.01, 0.3, 2., 30., 500.]), seed=d.seed())


@isolated
def fn_flat(c, x):
    r = api.rng_of(c["seed"], 5)
    nx, ny, lx = c["nx"], c["ny"], c["lx"]
    ly = lx * c["asp"]
    kmax = np.pi * np.hypot(nx / lx, ny / ly)
    mask = r.random((ny, nx)) * (r.random((ny, nx)) < 0.8)
    attempt(x, nmt.mask_apodization_flat, mask, lx, ly, c["apo"], c["ap"])
    beam = None
    if c["beam"]:
        ll = np.sort(r.random(c["beam"])) * kmax
        beam = np.array([ll, 1 + r.random(c["beam"])])
    fs, sp = [], []
    for k in range(4):
        s = c["spins"][k]
        nm = 1 if s == 0 else 2
        maps = None if c["mo"][k] else r.standard_normal((nm, ny, nx))
        t = None
        if c["temp"][k] and maps is not None and not c["lite"][k]:
            t = r.standard_normal((c["temp"][k], nm, ny, nx))
        f = attempt(x, nmt.NmtFieldFlat, lx, ly, mask, maps, spin=s,
                    templates=t, beam=beam, purify_e=c["pure"][k] and s == 2,
                    purify_b=c["pure"][k] and s == 2,
                    masked_on_input=c["moi"], lite=c["lite"][k])
        if f is not None:
            fs.append(f)
            sp.append(s)
            attempt(x, f.get_mask)
            attempt(x, f.get_maps)
            attempt(x, f.get_templates)
            attempt(x, f.get_ell_sampling)
    ed = np.sort(r.random(c["nb"] + 1)) * kmax * c["bmax"]
    ed[0] = c["bmin"] * ed[1]
    b = attempt(x, nmt.NmtBinFlat, ed[:-1], ed[1:])
    ll = np.linspace(0, kmax * c["lext"], c["nl"])
    cut = [kmax * 0.1, kmax * (0.3 if c["cut"] != "all" else 2)]
    no = [1., -1.]
    cx = cut if c["cut"] in ("x", "all") else no
    cy = cut if c["cut"] in ("y", "all") else no
    attempt(x, nmt.synfast_flat, nx, ny, lx, ly,
            np.ones((1 if c["spins"][0] == 0 else 3, c["nl"])),
            [c["spins"][0]], seed=3)
    if b is None or not fs:
        return
    fs, sp = (fs * 4)[:4], (sp * 4)[:4]
    ws = []
    for i, j in ((0, 1), (2, 3)):
        w = nmt.NmtWorkspaceFlat()
        if attempt(x, lambda: (w.compute_coupling_matrix(
                fs[i], fs[j], b, ell_cut_x=cx, ell_cut_y=cy,
                is_teb=c["teb"]), 1)) is None:
            continue
        ws.append(w)
        x.nontrivial(True)
        n = w.wsp.ncls
        attempt(x, w.couple_cell, ll, r.random((n, c["nl"])))
        attempt(x, w.decouple_cell, r.random((n, c["nb"])))
        attempt(x, api.snapshot, w)
        attempt(x, nmt.compute_coupled_cell_flat, fs[i], fs[j], b,
                ell_cut_x=cx, ell_cut_y=cy)
        attempt(x, nmt.deprojection_bias_flat, fs[i], fs[j], b, ll,
                r.random((n, c["nl"])), ell_cut_x=cx, ell_cut_y=cy)
        attempt(x, nmt.compute_full_master_flat, fs[i], fs[j], b,
                cl_guess=r.random((n, c["nl"])), ells_guess=ll,
                ell_cut_x=cx, ell_cut_y=cy)
        attempt(x, w.write_to, os.path.join(x.scratch, "a.fits"))
        attempt(x, w.read_from, os.path.join(x.scratch, "a.fits"))
    cw = nmt.NmtCovarianceWorkspaceFlat()
    if attempt(x, lambda: (cw.compute_coupling_coefficients(
            *fs[:2], b, flb1=fs[2], flb2=fs[3]), 1)) and len(ws) > 1:
        x.label("covariance")
        n = [1 if s == 0 else 2 for s in sp]
        cl = [r.random((n[i] * n[j], c["nl"])) for i, j in (
            (0, 2), (0, 3), (1, 2), (1, 3))]
        attempt(x, nmt.gaussian_covariance_flat, cw, *sp, ll, *cl,
                ws[0], ws[1])


# ------------------------------------- the cases of all the other checks
OTHERS = ["P%02d" % k for k in range(1, 31)]
SKIP = {("P28", "fuzz")}
_subs = None


def others():
    global _subs
    if _subs is None:
        _subs = []
        for p in OTHERS:
            try:
                m = importlib.import_module("props." + p.lower())
            except ModuleNotFoundError:
                continue
            for s in m.SUBS:
                if (p, s.name) not in SKIP:
                    _subs.append((p, s))
    return _subs


def gen_drive(d):
    p, s = d.choice(others())
    return dict(prop=p, sub=s.name, case=s.gen(d))


@isolated
def fn_drive(c, x):
    for p, s in others():
        if (p, s.name) == (c["prop"], c["sub"]):
            break
    else:
        return
    x.label(c["prop"] + " " + c["sub"])
    y = pbt.Ctx()
    y.scratch = x.scratch
    try:
        s.fn(c["case"], y)
    except Exception:
        x.label("other check failed or was inconclusive")
    x.nontrivial(True)


SUBS = [Sub("sizes", gen_sizes, fn_sizes, quick=3000, thorough=40000,
            shards=8, weight=10, isolate=False, slow_ok=True),
        Sub("flat sizes", gen_flat, fn_flat, quick=3000, thorough=40000,
            shards=8, weight=10, isolate=False, slow_ok=True),
        Sub("calls", gen_calls, fn_calls, quick=2500, thorough=20000, shards=8,
            weight=10, isolate=False, slow_ok=True),
        Sub("files", gen_files, fn_files, quick=4000, thorough=30000,
            shards=8, weight=6, isolate=False, slow_ok=True),
        Sub("drive", gen_drive, fn_drive, quick=1500, thorough=8000, shards=8,
            weight=20, isolate=False, slow_ok=True)]
