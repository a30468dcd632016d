"""P28: invalid and degenerate input."""
import os
import resource
import signal
import shutil
import sys
import tempfile
import warnings
import numpy as np
import pymaster as nmt
from lib import api, files
from lib.pbt import Sub

RULE = ("Non-trivial: the call was refused (a Python exception), or its "
        "degenerate arguments were accepted and give a result.")
ASSUMPTIONS = ["address space of the process limited to 6 GB",
               "a call that has not returned after 120 s counts as hung"]
NAMES = sorted(api.ENTRIES)
SIZES = ("spin", "n_iter", "n_iter_mask", "lmax", "lmax_mask", "nside", "nlb", "nx",
         "ny")


def limits(x):
    # a directory of its own: files left by other cases are not seen
    x.scratch = tempfile.mkdtemp(dir=x.scratch)
    os.chdir(x.scratch)      # files with relative names
    # (an empty folder may be replaced by a file)
    open("not_empty", "w").close()
    signal.alarm(int(os.environ.get('NMT_ALARM', 120)))
    if "asan" not in os.environ.get("LD_PRELOAD", ""):   # used by P31
        resource.setrlimit(resource.RLIMIT_AS,
                           (6 * 2**30, 6 * 2**30))
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")


def gen_fuzz(d):
    return dict(env=api.gen_env(d), name=d.choice(NAMES),
                mut=[[d.int(0, 999), d.int(0, 999), d.int(0, 999)]
                     for _ in range(d.choice([1, 1, 1, 2, 3]))],
                again=d.bool())


def cleaned(fn):
    def run(c, x):
        try:
            fn(c, x)
        finally:
            os.chdir("/")
            shutil.rmtree(x.scratch, ignore_errors=True)
    return run


def objects(e, kw, call):
    out = {k: v for k, v in e.made.items() if type(v).__module__.startswith(
        "pymaster")}
    return out


@cleaned
def fn_fuzz(c, x):
    limits(x)
    e = api.Env(c["env"], x.scratch)
    f, kw = api.ENTRIES[c["name"]](e)
    muts = []
    names = sorted(kw)
    if not names:
        c = dict(c, mut=[])
    for a, k, p in c["mut"]:
        n = names[a % len(names)]
        old = kw[n]
        m, kw[n] = api.mutate(kw[n], k, p, e)
        if m in ("2**31", "2**33") and n in SIZES:
            m, kw[n] = "same", old      # asks for a huge computation
        muts.append(f"{n}:{m}")
    before = {k: api.snapshot(o, e) for k, o in objects(e, kw, f).items()}
    defaults = nmt.get_default_params()
    what = c["name"] + "(" + ", ".join(muts) + ")"
    try:
        r = f(**kw)
        refused = None
    except Exception as q:
        r, refused = None, q
    if refused is None:
        x.label("accepted")
        x.nontrivial(bool(muts))
        try:
            # using a result must not kill the process either
            api.snapshot(r, e)
        except Exception:
            pass
    else:
        x.label("refused: " + type(refused).__name__)
        x.nontrivial(True)
        x.check(nmt.get_default_params() == defaults,
                f"{what} was refused but changed the defaults")
    changed = api.CHANGES.get(c["name"]) if refused is None else None
    for k, s in before.items():
        if k == changed:
            continue
        d = api.same(s, api.snapshot(e.made[k], e), 1e-10)
        x.check(d is None, f"{what}: object {k} changed{d or ''}; call was "
                f"{'accepted' if refused is None else 'refused'}")
    # and a valid call afterwards works as in a fresh state
    if refused is not None and c["again"]:
        e1, e2 = api.Env(c["env"], x.scratch), e
        f1, k1 = api.ENTRIES[c["name"]](e1)
        f2, k2 = api.ENTRIES[c["name"]](e2)
        if c["name"] in api.WRITES:
            return
        out = []
        for ff, kk in ((f2, k2), (f1, k1)):
            try:
                out.append(api.snapshot(ff(**kk), e1))
            except Exception as q:
                out.append(type(q).__name__)
        d = api.same(out[1], out[0], 1e-10)
        x.check(d is None, f"valid call after {what}: {d}")


# ----------------------------------------------------------------- catalogue
# Documented invalid input: (name, entry, overrides). Every one has to raise.
def cut(a, axis=-1, n=1):
    a = np.asarray(a)
    return np.delete(a, range(a.shape[axis] - n, a.shape[axis]), axis)


def longer(a, axis=-1):
    return np.concatenate([a, np.take(a, [0], axis)], axis)


def other_nside(e):
    n = 12 * (2 if e.nside == 4 else 4)**2
    return e.rng(50).random(n) + 0.1


def ofield(e, s=0, **kw):
    """A field with another resolution."""
    m = other_nside(e)
    return nmt.NmtField(m, [m] * (1 if s == 0 else 2), spin=s, lmax=e.lmax,
                        lmax_mask=e.lmax, n_iter=0, n_iter_mask=0, **kw)


def lfield(e, s=0, d=-1):
    """A field with another lmax."""
    m = e.mask
    return nmt.NmtField(m, e.map0 if s == 0 else e.mapS, spin=s,
                        lmax=e.lmax + d, lmax_mask=e.lmax, n_iter=0,
                        n_iter_mask=0)


def gother(e, s=0, how=0, **kw):
    """A flat field with another shape or size."""
    ny, nx = (e.ny + 1, e.nx) if how == 0 else (e.ny, e.nx + 1) if how == 1 \
        else (e.ny, e.nx)
    lx, ly = (e.lx, e.ly)
    if how == 2:
        lx *= 1.3
    if how == 3:
        ly *= 0.7
    if how == 4:       # same number of pixels in another arrangement
        ny, nx = e.nx, e.ny
        if nx == ny:
            ny += 1
    m = 0.1 + e.rng(51).random((ny, nx))
    return nmt.NmtFieldFlat(lx, ly, m, [m] * (1 if s == 0 else 2), spin=s,
                            **kw)


def wcs_bad(e, how):
    w = e.wcs.deepcopy()
    if how == 0:
        w.wcs.ctype = ["RA---TAN", "DEC--TAN"]
    elif how == 1:
        w.wcs.crval = [w.wcs.crval[0], 13.]
    elif how == 2:
        w.wcs.cdelt = [w.wcs.cdelt[0] * 1.03, w.wcs.cdelt[1]]
    elif how == 3:
        w.wcs.cdelt = [w.wcs.cdelt[0], w.wcs.cdelt[1] * 1.03]
    elif how == 4:
        w.wcs.crpix = [w.wcs.crpix[0], w.wcs.crpix[1] + 0.4]
    elif how == 5:
        w.wcs.crpix = [w.wcs.crpix[0], w.wcs.crpix[1] + 3]
    return w


def positions(e, k):
    """Sources outside the sphere, in radians."""
    p = e.pos.copy()
    if k == 0:
        p[0, 3] = -0.1
    elif k == 1:
        p[0, 3] = np.pi + 0.1
    elif k == 2:
        p[1, 3] = -0.1
    else:
        p[1, 3] = 2 * np.pi + 0.1
    return p


def lonlat(e, k):
    p = np.array([np.degrees(e.pos[1]), 90 - np.degrees(e.pos[0])])
    if k == 0:
        p[1, 3] = 91.
    elif k == 1:
        p[1, 3] = -91.
    elif k == 2:
        p[0, 3] = -1.
    else:
        p[0, 3] = 361.
    return p


def bare(e, name):
    """A file that is missing or not what is asked for."""
    import os
    if name == "missing":
        return os.path.join(e.dir, "nothing.fits")
    if name == "folder":
        return e.dir
    f = os.path.join(e.dir, "bad.fits")
    if name == "text":
        with open(f, "w") as o:
            o.write("SIMPLE  = not a fits file at all\n" * 50)
    elif name == "empty":
        open(f, "w").close()
    elif name == "half":
        with open(e.wfile, "rb") as a:
            b = a.read()
        with open(f, "wb") as o:
            o.write(b[:len(b) // 3])
    else:
        return getattr(e, name)
    return f


def bad_cl(e, a, k):
    """Spectra of the wrong shape."""
    a = np.asarray(a)
    if k == 0:
        return longer(a, 0)
    if k == 1:
        return a[:-1] if len(a) > 1 else np.concatenate([a, a])
    return cut(a, -1)


def other_bands(e, kw, k):
    """A workspace whose bands differ in one edge from those of the
    covariance coupling coefficients."""
    old = kw["wb" if k >= 6 and "wb" in kw else "wa"]
    g = {id(e.v00): (e.g0, e.g0), id(e.vss): (e.gs, e.gs),
         id(e.v0s): (e.g0, e.gs)}[id(old)]
    w = nmt.NmtWorkspaceFlat()
    w.compute_coupling_matrix(*g, e.fbins_like(k))
    return {"wb" if k >= 6 and "wb" in kw else "wa": w}


CAT = []


def bad(name, entry, f, n=1):
    for k in range(n):
        CAT.append((f"{name}{' ' + str(k) if n > 1 else ''}", entry,
                    (lambda e, kw, k=k: f(e, kw, k)) if n > 1 else f))


bad("two of nothing", "NmtField aniso", lambda e, kw: dict(mask_12=None))
bad("mask_12 alone", "NmtField aniso", lambda e, kw: dict(mask_22=None))
bad("not positive", "NmtField aniso", lambda e, kw: dict(mask_12=3 * kw[
    "mask"]))
bad("aniso scalar", "NmtField aniso", lambda e, kw: dict(
    spin=0, maps=e.map0))
bad("aniso scalar mask only", "NmtField aniso", lambda e, kw: dict(
    spin=0, maps=None))
bad("aniso pure", "NmtField aniso", lambda e, kw: dict(
    spin=2, purify_b=True, lmax_mask=12))
bad("aniso templates", "NmtField aniso", lambda e, kw: dict(
    templates=e.tempS))
for _n in ("NmtField spin 0", "NmtField spin s", "NmtField car",
           "NmtField mask only"):
    bad("negative lmax", _n, lambda e, kw: dict(lmax=-1))
    bad("negative lmax_mask", _n, lambda e, kw: dict(lmax_mask=-1))
    bad("short beam", _n, lambda e, kw: dict(beam=e.beam[:-1]))
    bad("scalar beam", _n, lambda e, kw: dict(beam=1.))
    bad("word beam", _n, lambda e, kw: dict(beam="beam"))
    bad("mask length", _n, lambda e, kw: dict(mask=cut(kw["mask"], -1)))
    bad("mask rank", _n, lambda e, kw: dict(mask=1.))
    bad("three maps", _n, lambda e, kw: dict(maps=np.array(
        [e.carmask if "car" in str(type(kw["mask"])) or np.ndim(
            kw["mask"]) == 2 else e.mask] * 3)))
for _n in ("NmtField spin 0", "NmtField spin s", "NmtField pure"):
    bad("map length", _n, lambda e, kw: dict(maps=cut(kw["maps"])))
    bad("map resolution", _n, lambda e, kw: dict(maps=np.array(
        [other_nside(e)] * len(kw["maps"]))))
    bad("mask resolution", _n, lambda e, kw: dict(mask=other_nside(e)))
    bad("template length", _n, lambda e, kw: dict(templates=cut(
        kw["templates"])))
    bad("template components", _n, lambda e, kw: dict(templates=longer(
        kw["templates"], 1)))
    bad("template scalar", _n, lambda e, kw: dict(templates=1.5))
    bad("template text", _n, lambda e, kw: dict(templates="text"))
    bad("spin and maps", _n, lambda e, kw: dict(spin=2 if len(
        kw["maps"]) == 1 else 0))
bad("no spin", "NmtField mask only", lambda e, kw: dict(spin=None))
bad("purify spin", "NmtField mask only", lambda e, kw, k: dict(
    spin=[0, 1, 3, 4][k // 2], purify_e=k % 2 == 0, purify_b=k % 2 == 1), 8)
bad("aniso pure mask only", "NmtField aniso", lambda e, kw, k: dict(
    spin=2, maps=None, purify_e=k == 0, purify_b=k == 1, lmax_mask=12), 2)
bad("purify spin", "NmtFieldFlat mask only", lambda e, kw, k: dict(
    spin=[0, 1, 3][k // 2], purify_e=k % 2 == 0, purify_b=k % 2 == 1), 6)
bad("purify spin", "NmtField pure", lambda e, kw, k: dict(
    spin=[1, 3, 4][k]), 3)
bad("purify scalar", "NmtField spin 0", lambda e, kw, k: dict(
    purify_e=k == 0, purify_b=k == 1, templates=None), 2)
bad("projection", "NmtField car", lambda e, kw, k: dict(
    wcs=wcs_bad(e, k)), 6)
bad("projection", "NmtMapInfo car", lambda e, kw, k: dict(
    wcs=wcs_bad(e, k)), 6)
bad("too wide", "NmtMapInfo car", lambda e, kw: dict(axes=[8, 17]))
bad("too tall", "NmtMapInfo car", lambda e, kw: dict(axes=[12, 14]))
bad("rank", "NmtMapInfo car", lambda e, kw: dict(axes=[8 * 14]))
bad("pixels", "NmtMapInfo", lambda e, kw, k: dict(axes=[
    [13, 12 * 9, 0, 12 * 4 + 1, 12 * 25][k]]), 5)
bad("map shape", "minfo.reform_map", lambda e, kw: dict(maps=cut(
    kw["maps"])))
bad("map orientation", "NmtField car", lambda e, kw: dict(
    maps=np.transpose(kw["maps"], (0, 2, 1))))

for _n in ("NmtFieldCatalog", "NmtFieldCatalogClustering"):
    bad("outside", _n, lambda e, kw, k: dict(positions=positions(e, k)), 4)
    bad("outside deg", _n, lambda e, kw, k: dict(
        positions=lonlat(e, k), lonlat=True), 4)
    bad("position shape", _n, lambda e, kw, k: dict(positions=[
        e.pos[0], e.pos[:, :-1], np.vstack([e.pos, e.pos]),
        e.pos.ravel()][k]), 4)
    bad("weight length", _n, lambda e, kw, k: dict(weights=[
        e.cw_[:-1], longer(e.cw_)][k]), 2)
bad("values shape", "NmtFieldCatalog", lambda e, kw, k: dict(field=[
    e.cval[:1], e.cval[:, :-1], np.vstack([e.cval, e.cval])][k]), 3)
bad("values and spin", "NmtFieldCatalog", lambda e, kw: dict(spin=0))
bad("no field no spin", "NmtFieldCatalog", lambda e, kw: dict(
    field=None, spin=None))
bad("beam length", "NmtFieldCatalog", lambda e, kw: dict(beam=e.beam[:-1]))
bad("beam type", "NmtFieldCatalog", lambda e, kw: dict(beam=3.))
bad("random outside", "NmtFieldCatalogClustering", lambda e, kw, k: dict(
    positions_rand=positions(e, k)), 4)
bad("random weights", "NmtFieldCatalogClustering", lambda e, kw: dict(
    weights_rand=e.cw_[:-1]))

# bands
bad("lengths", "NmtBin", lambda e, kw, k: {
    (q := ["bpws", "ells", "weights", "f_ell"][k]): kw[q][:-1]}, 4)
bad("weights zero", "NmtBin", lambda e, kw: dict(weights=kw["weights"] * 0))
bad("weights negative", "NmtBin", lambda e, kw: dict(
    weights=-kw["weights"]))
bad("one band without weight", "NmtBin", lambda e, kw: dict(
    weights=kw["weights"] * (kw["bpws"] != 1)))
bad("missing band", "NmtBin", lambda e, kw: dict(
    bpws=np.where(kw["bpws"] > 0, kw["bpws"] + 1, 0)))
bad("nothing below lmax", "NmtBin", lambda e, kw: dict(
    ells=kw["ells"] + e.lmax + 1))
bad("negative multipole", "NmtBin", lambda e, kw: dict(ells=kw["ells"] - 2))
bad("huge band", "NmtBin", lambda e, kw, k: dict(bpws=np.where(
    kw["bpws"] == 2, [2**31 - 1, 2**31 - 2, 10**6][k], kw["bpws"])), 3)
bad("too wide", "NmtBin.from_lmax_linear", lambda e, kw: dict(nlb=e.lmax + 5))
bad("no width", "NmtBin.from_lmax_linear", lambda e, kw: dict(nlb=0))
bad("length", "bins.bin_cell", lambda e, kw, k: dict(cls_in=[
    cut(e.cl1), longer(e.cl1), e.cl4[None], cut(e.cl4)][k]), 4)
bad("length", "bins.unbin_cell", lambda e, kw, k: dict(cls_in=[
    cut(kw["cls_in"]), longer(kw["cls_in"]), kw["cls_in"][None]][k]), 3)
for _m in ("get_ell_list", "get_weight_list", "get_ell_min", "get_ell_max"):
    bad("no such band", "bins." + _m, lambda e, kw, k: {
        sorted(kw)[0]: [-1, e.bins.get_n_bands(), 10**6, -2**31, 2**31][k]},
        5)
bad("edge lengths", "NmtBinFlat", lambda e, kw: dict(l0=kw["l0"][:-1]))
bad("spectrum length", "fbins.bin_cell", lambda e, kw, k: dict(cls_in=[
    cut(e.fcl4), longer(e.fcl4), e.fcl4[None]][k]), 3)
bad("spectrum length", "fbins.unbin_cell", lambda e, kw, k: dict(cls_in=[
    cut(e.bp4), longer(e.bp4), e.bp4[None]][k]), 3)

# workspaces
for _n in ("NmtWorkspace", "w.compute"):
    bad("lmax", _n, lambda e, kw, k: dict(
        [("fl1", lfield(e)), ("fl2", lfield(e, e.sp))][k:k + 1]), 2)
    bad("bins", _n, lambda e, kw, k: dict(
        bins=nmt.NmtBin.from_lmax_linear(e.lmax + [-1, 1, 3][k], 2)), 3)
    bad("norm", _n, lambda e, kw, k: dict(
        normalization=["master", "", "OTHER", None][k]), 4)
    bad("teb spins", _n, lambda e, kw, k: dict(is_teb=True, **[
        dict(fl1=e.f0, fl2=e.f0b), dict(fl1=e.fs, fl2=e.f0),
        dict(fl1=e.fs, fl2=e.fs)][k]), 3)
    bad("toeplitz", _n, lambda e, kw, k: dict([
        dict(l_toeplitz=3, l_exact=-1, dl_band=1),
        dict(l_toeplitz=3, l_exact=2, dl_band=-1),
        dict(l_toeplitz=3, l_exact=4, dl_band=1),
        dict(l_toeplitz=e.lmax + 1, l_exact=2, dl_band=1),
        dict(l_toeplitz=e.lmax + 2, l_exact=e.lmax + 1, dl_band=1),
        dict(l_toeplitz=3, l_exact=2, dl_band=e.lmax + 1),
        dict(fl1=e.fp, fl2=e.fp, l_toeplitz=3, l_exact=2, dl_band=1),
        dict(fl1=e.f0, fl2=e.fp, l_toeplitz=3, l_exact=2, dl_band=1),
        dict(fl1=e.fan, fl2=e.fan, l_toeplitz=3, l_exact=2, dl_band=1)][k]),
        9)
    bad("aniso", _n, lambda e, kw, k: dict([
        dict(fl1=e.fp, fl2=e.fan), dict(fl1=e.f0, fl2=e.fan, is_teb=True)][
            k]), 2)
    bad("FKP catalogues", _n, lambda e, kw: dict(
        fl1=e.fcat, fl2=e.fcat2, normalization="FKP"))
for _n in ("NmtWorkspace.from_file", "w.read_from",
           "NmtCovarianceWorkspace.from_file", "cov.read_from",
           "v.read_from", "fcov.read_from"):
    bad("file", _n, lambda e, kw, k: dict(fname=bare(e, [
        "missing", "folder", "text", "empty", "half"][k])), 5)
for _n in ("NmtWorkspace.from_file", "w.read_from"):
    bad("other kind", _n, lambda e, kw, k: dict(fname=bare(e, [
        "cfile", "vfile", "fcfile"][k])), 3)
for _n in ("NmtCovarianceWorkspace.from_file", "cov.read_from"):
    bad("other kind", _n, lambda e, kw, k: dict(fname=bare(e, [
        "wfile", "vfile"][k])), 2)
bad("other kind", "v.read_from", lambda e, kw, k: dict(fname=bare(e, [
    "wfile", "cfile", "fcfile"][k])), 3)
bad("other kind", "fcov.read_from", lambda e, kw, k: dict(fname=bare(e, [
    "wfile", "cfile", "vfile"][k])), 3)
for _n in ("w.write_to", "v.write_to", "cov.write_to", "fcov.write_to"):
    bad("nowhere", _n, lambda e, kw: dict(
        fname=e.dir + "/no/such/folder/x.fits"))
    bad("folder", _n, lambda e, kw: dict(fname=e.dir))
    bad("none", _n, lambda e, kw: dict(fname=None))
bad("no matrix", "wbare.write_to", lambda e, kw: {})
bad("not computed", "empty.write_to", lambda e, kw: {})
for _n in ("w.update_beams",):
    bad("short", _n, lambda e, kw, k: dict(
        [("beam1", e.beam[:-1]), ("beam2", e.beam[:-1])][k:k + 1]), 2)
    bad("type", _n, lambda e, kw, k: dict(
        [("beam1", 1.), ("beam2", None)][k:k + 1]), 2)
bad("no matrix", "wbare.update_beams", lambda e, kw: {})
bad("lmax", "w.update_bins", lambda e, kw, k: dict(
    bins=nmt.NmtBin.from_lmax_linear(e.lmax + [2, 5, -1][k], 2)), 2)
bad("none", "w.update_bins", lambda e, kw: dict(bins=None))
bad("size", "w.update_coupling_matrix", lambda e, kw, k: dict(new_matrix=[
    cut(cut(kw["new_matrix"], 0), 1), longer(longer(kw["new_matrix"], 0), 1),
    cut(kw["new_matrix"], 0), longer(kw["new_matrix"], 1),
    cut(kw["new_matrix"], 1)][k]), 5)
for _n in ("w00.couple_cell", "wss.couple_cell"):
    bad("shape", _n, lambda e, kw, k: dict(cl_in=bad_cl(e, kw["cl_in"], k)),
        3)
bad("shape", "w.decouple_cell", lambda e, kw, k: {
    (q := ["cl_in", "cl_bias", "cl_noise"][k // 3]): bad_cl(e, kw[q], k % 3)},
    9)
for _n in ("deprojection_bias", "deprojection_bias ss"):
    bad("guess", _n, lambda e, kw, k: dict(cl_guess=bad_cl(
        e, kw["cl_guess"], k)), 3)
    bad("lite", _n, lambda e, kw, k: dict(
        [("f1", e.flite0), ("f2", e.flite)][k:k + 1], cl_guess=[
            kw["cl_guess"][:1] if len(kw["cl_guess"]) == 1 else
            kw["cl_guess"][:2], kw["cl_guess"]][k]), 2)
    bad("resolution", _n, lambda e, kw: dict(f2=ofield(e, e.sp)))
bad("variance map", "uncorr_noise_deprojection_bias", lambda e, kw, k: dict(
    map_var=[e.mask2[:-1], other_nside(e)][k]), 2)
bad("lite", "uncorr_noise_deprojection_bias", lambda e, kw: dict(f1=e.flite))
bad("lmax", "compute_coupled_cell", lambda e, kw, k: dict(
    [("f1", lfield(e)), ("f2", lfield(e, e.sp)), ("f1", lfield(
        e, 0, 1))][k:k + 1]), 3)
bad("mask only", "compute_coupled_cell", lambda e, kw, k: dict(
    [("f1", e.fmask), ("f2", e.fmask)][k:k + 1]), 2)
bad("resolution", "compute_full_master", lambda e, kw, k: dict(
    [("f1", ofield(e)), ("f2", ofield(e, e.sp))][k:k + 1]), 2)
bad("bands", "compute_full_master", lambda e, kw: dict(b=None))
bad("noise", "compute_full_master", lambda e, kw, k: dict(
    cl_noise=bad_cl(e, e.cl2, k)), 3)
bad("guess", "compute_full_master", lambda e, kw, k: dict(
    cl_guess=bad_cl(e, e.cl2, k)), 3)

# covariances
for _n in ("NmtCovarianceWorkspace", "cov.compute"):
    bad("resolution", _n, lambda e, kw, k: {
        ["fla1", "fla2", "flb1", "flb2"][k]: ofield(e)}, 4)
    bad("aniso", _n, lambda e, kw, k: {
        ["fla1", "fla2", "flb1", "flb2"][k]: e.fan}, 4)
    bad("toeplitz", _n, lambda e, kw, k: dict([
        dict(l_toeplitz=3, l_exact=-1, dl_band=1),
        dict(l_toeplitz=3, l_exact=4, dl_band=1),
        dict(l_toeplitz=e.lmax + 1, l_exact=2, dl_band=1)][k]), 3)
for _n in ("gaussian_covariance 00", "gaussian_covariance 0s",
           "gaussian_covariance ss"):
    bad("spectra", _n, lambda e, kw, k: {
        (q := ["cla1b1", "cla1b2", "cla2b1", "cla2b2"][k % 4]): bad_cl(
            e, kw[q], [0, 2][k // 4])}, 8)
    bad("spins", _n, lambda e, kw, k: {
        (q := ["spin_a1", "spin_a2", "spin_b1", "spin_b2"][k]):
            0 if kw[q] else e.sp}, 4)
    bad("workspace", _n, lambda e, kw, k: dict(
        [dict(wa=e.wteb), dict(wb=e.wteb)][k]), 2)

# flat sky
bad("sizes", "NmtFieldFlat spin 0", lambda e, kw, k: {
    ["lx", "ly"][k % 2]: [0., -1., np.nan, np.inf, 1e-300][k // 2]}, 10)
for _n in ("NmtFieldFlat spin 0", "NmtFieldFlat spin s", "NmtFieldFlat pure"):
    bad("map shape", _n, lambda e, kw, k: dict(maps=[
        cut(kw["maps"]), cut(kw["maps"], 1), np.concatenate(
            [kw["maps"]] * 3), kw["maps"][0]][k]), 4)
    bad("mask shape", _n, lambda e, kw, k: dict(mask=[
        cut(kw["mask"]), cut(kw["mask"], 0), kw["mask"][0]][k]), 3)
    bad("templates", _n, lambda e, kw, k: dict(templates=[
        cut(kw["templates"]), cut(kw["templates"], 2), longer(
            kw["templates"], 1), 1.5, "text"][k]), 5)
    bad("beam", _n, lambda e, kw, k: dict(beam=[1., "beam", e.fbeam[0],
                                                e.fbeam[:1]][k]), 4)
    bad("spin and maps", _n, lambda e, kw: dict(spin=2 if len(
        kw["maps"]) == 1 else 0))
bad("purify spin", "NmtFieldFlat pure", lambda e, kw, k: dict(
    spin=[1, 3, 4][k]), 3)
bad("no spin", "NmtFieldFlat mask only", lambda e, kw: dict(spin=None))
for _n, _a, _b in (("NmtWorkspaceFlat.compute", "fl1", "fl2"),
                   ("compute_coupled_cell_flat", "f1", "f2"),
                   ("compute_full_master_flat", "f1", "f2"),
                   ("deprojection_bias_flat", "f1", "f2")):
    bad("first", _n, lambda e, kw, k, _a=_a: {_a: gother(e, 0, k)}, 5)
    bad("second", _n, lambda e, kw, k, _b=_b: {_b: gother(e, e.sp, k)}, 5)
for _n, _s in (("NmtWorkspaceFlat.compute teb", 0),):
    bad("spins", _n, lambda e, kw, k: dict([
        dict(fl1=e.g0, fl2=e.g0), dict(fl1=e.gs, fl2=e.g0),
        dict(fl1=e.gs, fl2=e.gs)][k]), 3)
bad("not computed", "empty.write_to", lambda e, kw: {})
bad("spectra", "v.couple_cell", lambda e, kw, k: dict(cl_in=bad_cl(
    e, kw["cl_in"], k)), 3)
bad("spectra", "v.decouple_cell", lambda e, kw, k: {
    (q := ["cl_in", "cl_bias", "cl_noise"][k // 3]): bad_cl(e, kw[q], k % 3)},
    9)
bad("guess", "deprojection_bias_flat", lambda e, kw, k: dict(
    cl_guess=bad_cl(e, kw["cl_guess"], k)), 3)
bad("lite", "deprojection_bias_flat", lambda e, kw: dict(f2=e.glite))
bad("mask only", "deprojection_bias_flat", lambda e, kw: dict(f2=e.gmask))
bad("mask only", "compute_coupled_cell_flat", lambda e, kw: dict(f2=e.gmask))
bad("noise", "compute_full_master_flat", lambda e, kw, k: dict(
    cl_noise=bad_cl(e, e.bp4[:2], k)), 3)
bad("guess", "compute_full_master_flat", lambda e, kw, k: dict(
    cl_guess=bad_cl(e, e.fcl2, k), ells_guess=e.ells), 3)
bad("guess alone", "compute_full_master_flat", lambda e, kw: dict(
    cl_guess=e.fcl2, ells_guess=None))
bad("workspace", "compute_full_master_flat", lambda e, kw, k: dict(
    workspace=[e.v00, e.vss, e.vteb][k]), 3)
bad("workspace bands", "compute_full_master_flat ws", lambda e, kw: dict(
    b=e.fbins2))
bad("workspace band edges", "compute_full_master_flat ws", lambda e, kw, k:
    dict(b=e.fbins_like(k)), 6)
for _n in ("fcov.compute",):
    bad("resolution", _n, lambda e, kw, k: {
        ["fla1", "fla2", "flb1", "flb2"][k % 4]: gother(
            e, e.sp if k in (0, 3) else 0, k // 4)}, 16)
    bad("bands", _n, lambda e, kw: dict(bin_b=e.fbins2))
    bad("band edges", _n, lambda e, kw, k: dict(bin_b=e.fbins_like(k)), 6)
for _n in ("gaussian_covariance_flat", "gaussian_covariance_flat 0s"):
    bad("spectra", _n, lambda e, kw, k: {
        (q := ["cla1b1", "cla1b2", "cla2b1", "cla2b2"][k % 4]): bad_cl(
            e, kw[q], [0, 2][k // 4])}, 8)
    bad("spins", _n, lambda e, kw, k: {
        (q := ["spin_a1", "spin_a2", "spin_b1", "spin_b2"][k]):
            0 if kw[q] else e.sp}, 4)
    bad("workspace", _n, lambda e, kw: dict(wa=e.vteb))
    bad("multipoles", _n, lambda e, kw: dict(larr=e.ells[:-1]))
    bad("workspace band edges", _n, lambda e, kw, k: other_bands(
        e, kw, k), 12)

# utilities
for _n in ("mask_apodization", "mask_apodization Smooth"):
    bad("scale", _n, lambda e, kw, k: dict(aposize=[-1., np.nan][k]), 2)
    bad("type", _n, lambda e, kw, k: dict(apotype=["C3", "", "smooth",
                                                   None][k]), 4)
    bad("pixels", _n, lambda e, kw, k: dict(mask_in=[
        kw["mask_in"][:-1], np.ones(13), np.ones(0)][k]), 3)
for _n in ("mask_apodization_flat", "mask_apodization_flat Smooth"):
    bad("scale", _n, lambda e, kw, k: dict(aposize=[-1., np.nan][k]), 2)
    bad("type", _n, lambda e, kw, k: dict(apotype=["C3", "", "smooth",
                                                   None][k]), 4)
    bad("rank", _n, lambda e, kw, k: dict(mask_in=[
        kw["mask_in"][0], kw["mask_in"][None]][k]), 2)
    bad("size", _n, lambda e, kw, k: {["lx", "ly"][k % 2]: [
        0., np.nan, -1., np.inf][k // 2]}, 8)
for _n in ("synfast_spherical", "synfast_flat"):
    bad("spins", _n, lambda e, kw: dict(spin_arr=[0, -2]))
    bad("spectra", _n, lambda e, kw, k: dict(cls=[
        cut(kw["cls"], 0), longer(kw["cls"], 0)][k]), 2)
    bad("beams", _n, lambda e, kw, k: dict(beam=[
        kw["beam"][:1], kw["beam"][:, :4]][k]), 2)
bad("size", "synfast_flat", lambda e, kw, k: {["lx", "ly"][k % 2]: [
    0., np.nan, -1., np.inf][k // 2]}, 8)
bad("pixels", "synfast_flat", lambda e, kw, k: {["nx", "ny"][k % 2]: [
    0, -3][k // 2]}, 4)
bad("name", "set_sht_calculator", lambda e, kw, k: dict(calc_name=[
    "libsharp", "", None, "DUCC", 3][k]), 5)
bad("negative", "set_n_iter_default", lambda e, kw, k: dict(
    n_iter=-1, mask=k == 0), 2)
bad("range", "set_tol_pinv_default", lambda e, kw, k: dict(
    tol_pinv=[-1e-3, 1.5, np.nan, np.inf][k]), 4)


def gen_cat(d):
    return dict(env=api.gen_env(d), ks=d.list(
        lambda: d.int(0, len(CAT) - 1), 1, 4), twice=d.bool())


def outcome(entry, e):
    """Result of the valid call, or the way it fails (e.g. because the
    coupling matrix is singular)."""
    f, kw = api.ENTRIES[entry](e)
    try:
        r = f(**kw)
    except Exception as q:
        return type(q).__name__ + ": " + str(q)
    return api.snapshot(r, e)


@cleaned
def fn_cat(c, x):
    limits(x)
    for k in c["ks"]:
        one_cat(c, x, k)


def one_cat(c, x, k):
    name, entry, over = CAT[k % len(CAT)]
    e = api.Env(c["env"], x.scratch)
    f, kw = api.ENTRIES[entry](e)
    kw.update(over(e, kw))
    what = f"{entry}: {name}"
    x.nontrivial(True)
    x.label(entry)
    before = {k: api.snapshot(o, e) for k, o in objects(e, kw, f).items()}
    defaults = nmt.get_default_params()
    for _ in range(1 + c["twice"]):
        x.raises(lambda: f(**kw), Exception, what)
    x.check(nmt.get_default_params() == defaults,
            f"{what} was refused but changed the defaults")
    for k, s in before.items():
        d = api.same(s, api.snapshot(e.made[k], e), 1e-10)
        x.check(d is None, f"{what} was refused but object {k} changed {d}")
    # what comes later is as if nothing had happened
    if entry in api.WRITES or entry in NOVALID:
        return
    got = outcome(entry, e)
    obj = api.CHANGES.get(entry)
    e2 = api.Env(c["env"], x.scratch)
    want = outcome(entry, e2)
    d = api.same(want, got, 1e-10)
    x.check(d is None, f"valid call after {what}: {d}")
    if obj:
        d = api.same(api.snapshot(getattr(e2, obj), e2),
                     api.snapshot(getattr(e, obj), e), 1e-10)
        x.check(d is None, f"{obj} after a valid call after {what}: {d}")


# -------------------------------------- files that contradict themselves
READ = {"w": ["w00", "wss", "w0s", "wteb"], "v": ["v00", "v0s", "vss", "vteb"],
        "c": ["cov"], "c0": ["cov00"], "f": ["fcov"]}


def gen_files(d):
    fam = d.choice(["c", "c0", "f", "v", "v", "v", "w", "w", "w"])
    k = d.int(0, 7)
    return dict(env=api.gen_env(d), fam=fam, kind=d.choice(READ[fam]),
                names=sorted(files.ALL[fam])[k::8], b=d.int(0, 999),
                into=d.choice(["new", "old"]), unb=d.bool())


@cleaned
def fn_files(c, x):
    limits(x)
    e = api.Env(c["env"], x.scratch)
    f = os.path.join(x.scratch, "t.fits")
    obj = getattr(e, c["kind"])
    kw = dict(w=dict(read_unbinned_MCM=c["unb"]), c=dict(
        force_spin0_only=False), c0=dict(force_spin0_only=c["unb"])).get(
            c["fam"], {})
    w = obj if c["into"] == "old" else type(obj)()
    before = api.snapshot(obj, e)
    for name in c["names"]:
        obj2 = getattr(api.Env(c["env"], x.scratch), c["kind"])
        obj2.write_to(f)
        how = files.contradict(f, c["fam"], 0, c["b"], name)
        if how is None:
            continue
        x.nontrivial(True)
        x.label(c["fam"] + " " + (how if c["fam"] in "wv"
                                  else how.split()[-1]))
        what = f"file of {c['kind']} with contradictory contents ({how})"
        x.raises(lambda: w.read_from(f, **kw), Exception, what)
        if c["into"] == "old":
            d = api.same(before, api.snapshot(w, e), 1e-10)
            x.check(d is None,
                    f"{what} was refused but the object changed {d}")
        # the valid file can be read by another object
        g = os.path.join(x.scratch, "valid.fits")
        obj2.write_to(g)
        new = type(obj)()
        new.read_from(g, **dict(kw, **{k: k[0] == "r" for k in kw}))
        d = api.same(before, api.snapshot(new, e), 1e-8)
        x.check(d is None, f"reading a valid file after {what}: {d}")


NOVALID = {"wbare.write_to", "empty.write_to", "wbare.update_beams"}

SUBS = [Sub("fuzz", gen_fuzz, fn_fuzz, quick=3000, thorough=40000, shards=6,
            weight=6, isolate=True),
        Sub("catalogue", gen_cat, fn_cat, quick=1400, thorough=12000,
            shards=4, weight=4, isolate=True),
        Sub("files", gen_files, fn_files, quick=700, thorough=6000, shards=3,
            weight=3, isolate=True)]
