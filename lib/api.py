"""A table of every public call of the library with valid arguments, used
to mutate arguments (P28, P31) and to check repeatability (P29).

Each entry is a function of an Env; it returns (callable, kwargs). Calls
that change one of their arguments (methods of workspaces) are marked.
"""
import os
import numpy as np
import pymaster as nmt
from lib.gen import car_wcs, rng_of

ENTRIES = {}
CHANGES = {}          # name -> attribute of Env whose object changes
WRITES = set()        # entries that write files


def entry(name, changes=None, writes=False):
    def deco(f):
        ENTRIES[name] = f
        if changes:
            CHANGES[name] = changes
        if writes:
            WRITES.add(name)
        return f
    return deco


class Env:
    """Small, valid objects, made when first used."""

    def __init__(self, cfg, scratch):
        self.cfg, self.dir = cfg, scratch
        self.nside, self.lmax = cfg["nside"], cfg["lmax"]
        self.npix = 12 * self.nside**2
        self.ny, self.nx = cfg["ny"], cfg["nx"]
        self.sp = cfg["spin"]
        self.made = {}

    def rng(self, *k):
        return rng_of(self.cfg["seed"], *k)

    def __getattr__(self, k):
        if k.startswith("_") or k in ("made", "cfg"):
            raise AttributeError(k)
        if k not in self.made:
            self.made[k] = getattr(Env, "make_" + k)(self)
        return self.made[k]

    # arrays
    def make_mask(self):
        m = self.rng(1).random(self.npix)
        m[self.rng(2).random(self.npix) < 0.2] = 0
        return m

    def make_mask2(self):
        return self.rng(3).random(self.npix)

    def make_map0(self):
        return self.rng(4).standard_normal((1, self.npix))

    def make_mapS(self):
        return self.rng(5).standard_normal((2, self.npix))

    def make_temp0(self):
        return self.rng(6).standard_normal((2, 1, self.npix))

    def make_tempS(self):
        return self.rng(7).standard_normal((1, 2, self.npix))

    def make_beam(self):
        return 0.5 + self.rng(8).random(self.lmax + 1)

    def make_maniso(self):
        m = 0.2 + self.rng(9).random(self.npix)
        return m, m * 0.8, m * 0.3

    def make_cl1(self):
        return 1 + self.rng(10).random((1, self.lmax + 1))

    def make_cl2(self):
        return self.rng(11).standard_normal((2, self.lmax + 1))

    def make_cl4(self):
        x = 0.2 * self.rng(12).random((4, self.lmax + 1))
        x[[0, 3]] += 1
        return x

    def make_wcs(self):
        return car_wcs(8, 14)[0]

    def make_carmask(self):
        return 0.2 + self.rng(13).random((8, 14))

    def make_carmap(self):
        return self.rng(14).standard_normal((2, 8, 14))

    # bands
    def make_bins(self):
        return nmt.NmtBin.from_edges(list(range(2, self.lmax, 2)),
                                     list(range(2, self.lmax, 2))[1:] +
                                     [self.lmax + 1])

    def make_bins2(self):
        return nmt.NmtBin.from_lmax_linear(self.lmax, 3, is_Dell=True)

    # fields
    def field(self, s, mask, **kw):
        kw = dict(dict(spin=s, lmax=self.lmax, lmax_mask=self.lmax,
                       n_iter=0, n_iter_mask=0), **kw)
        return nmt.NmtField(mask, [self.map0, self.mapS][s > 0], **kw)

    def make_f0(self):
        return self.field(0, self.mask, templates=self.temp0)

    def make_f0b(self):
        return self.field(0, self.mask2, beam=self.beam)

    def make_fs(self):
        return self.field(self.sp, self.mask2, templates=self.tempS)

    def make_fp(self):
        return self.field(2, self.mask, purify_b=True)

    def make_fpt(self):
        return self.field(2, self.mask, purify_b=True, templates=self.tempS,
                          purify_e=bool(self.cfg["seed"] % 2), n_iter_mask=1)

    def make_fcarp(self):
        return nmt.NmtField(self.carmask, self.carmap, wcs=self.wcs, n_iter=0,
                            lmax=self.lmax, lmax_mask=self.lmax, spin=2,
                            purify_b=True, templates=self.carmap[None] ** 2)

    def make_flite(self):
        return self.field(self.sp, self.mask, lite=True)

    def make_flite0(self):
        return self.field(0, self.mask, lite=True)

    def make_fmask(self):
        return nmt.NmtField(self.mask, None, spin=self.sp, lmax=self.lmax,
                            lmax_mask=self.lmax, n_iter_mask=0)

    def make_fan(self):
        m = self.maniso
        return nmt.NmtField(m[0], self.mapS, mask_22=m[1], mask_12=m[2],
                            spin=self.sp, lmax=self.lmax,
                            lmax_mask=max(self.lmax, 2 * self.sp), n_iter=0,
                            n_iter_mask=0)

    def make_fcar(self):
        return nmt.NmtField(self.carmask, self.carmap, wcs=self.wcs, n_iter=0,
                            lmax=self.lmax, lmax_mask=self.lmax)

    def make_pos(self):
        r = self.rng(15)
        return np.array([np.arccos(r.uniform(-1, 1, 20)),
                         r.uniform(0, 2 * np.pi, 20)])

    def make_cw_(self):
        return 0.3 + self.rng(16).random(20)

    def make_cval(self):
        return self.rng(17).standard_normal((2, 20))

    def make_fcat(self):
        return nmt.NmtFieldCatalog(self.pos, self.cw_, self.cval, self.lmax,
                                   lmax_mask=self.lmax, spin=self.sp)

    def make_fcat2(self):
        return nmt.NmtFieldCatalog(self.pos, self.cw_, self.cval * 2,
                                   self.lmax, lmax_mask=self.lmax,
                                   spin=self.sp)

    def make_fclu(self):
        return nmt.NmtFieldCatalogClustering(
            self.pos, self.cw_, self.pos[::, ::-1] * 0.9, self.cw_, self.lmax)

    # workspaces
    def make_w00(self):
        return nmt.NmtWorkspace.from_fields(self.f0, self.f0b, self.bins)

    def make_w0s(self):
        return nmt.NmtWorkspace.from_fields(self.f0, self.fs, self.bins)

    def make_wss(self):
        return nmt.NmtWorkspace.from_fields(self.fs, self.fs, self.bins)

    def make_wteb(self):
        return nmt.NmtWorkspace.from_fields(self.f0, self.fs, self.bins,
                                            is_teb=True)

    def make_wbare(self):
        return nmt.NmtWorkspace.from_file(self.wfile, read_unbinned_MCM=False)

    def make_wfile(self):
        f = os.path.join(self.dir, "w.fits")
        self.wss.write_to(f)
        return f

    def make_cov(self):
        return nmt.NmtCovarianceWorkspace.from_fields(self.f0, self.fs)

    def make_cov00(self):
        return nmt.NmtCovarianceWorkspace.from_fields(
            self.f0, self.f0b, spin0_only=True)

    def make_cfile(self):
        f = os.path.join(self.dir, "c.fits")
        self.cov.write_to(f)
        return f

    # flat sky
    def make_lx(self):
        return 0.1 * self.nx * self.cfg["asp"]

    def make_ly(self):
        return 0.1 * self.ny

    def make_fmk(self):
        return 0.1 + self.rng(20).random((self.ny, self.nx))

    def make_fm0(self):
        return self.rng(21).standard_normal((1, self.ny, self.nx))

    def make_fms(self):
        return self.rng(22).standard_normal((2, self.ny, self.nx))

    def make_ft(self):
        return self.rng(23).standard_normal((2, 2, self.ny, self.nx))

    def make_fbeam(self):
        ll = np.linspace(0., 100., 30)
        return np.array([ll, np.exp(-ll / 60.)])

    def make_fbins(self):
        return nmt.NmtBinFlat(np.array([0., 12., 20.]), np.array(
            [12., 20., 45.]))

    def make_fbins2(self):
        return nmt.NmtBinFlat(np.array([0., 25.]), np.array([25., 50.]))

    def fbins_like(self, k):
        """Bands that differ from fbins in one edge."""
        lo, hi = np.array([0., 12., 20.]), np.array([12., 20., 45.])
        (lo if k % 2 else hi)[k // 2 % 3] += [0.5, -0.5][k % 2 == 0]
        return nmt.NmtBinFlat(lo, hi)

    def make_g0(self):
        return nmt.NmtFieldFlat(self.lx, self.ly, self.fmk, self.fm0,
                                beam=self.fbeam)

    def make_gs(self):
        return nmt.NmtFieldFlat(self.lx, self.ly, self.fmk, self.fms,
                                spin=self.sp, templates=self.ft)

    def make_gp(self):
        return nmt.NmtFieldFlat(self.lx, self.ly, self.fmk, self.fms, spin=2,
                                purify_b=True)

    def make_gpt(self):
        return nmt.NmtFieldFlat(self.lx, self.ly, self.fmk, self.fms, spin=2,
                                purify_b=True, templates=self.ft)

    def make_gmask(self):
        return nmt.NmtFieldFlat(self.lx, self.ly, self.fmk, None,
                                spin=self.sp)

    def make_glite(self):
        return nmt.NmtFieldFlat(self.lx, self.ly, self.fmk, self.fms,
                                spin=self.sp, lite=True)

    def wflat(self, a, b, **kw):
        w = nmt.NmtWorkspaceFlat()
        w.compute_coupling_matrix(a, b, self.fbins, **kw)
        return w

    def make_v00(self):
        return self.wflat(self.g0, self.g0)

    def make_v0s(self):
        return self.wflat(self.g0, self.gs)

    def make_vss(self):
        return self.wflat(self.gs, self.gs)

    def make_vteb(self):
        return self.wflat(self.g0, self.gs, is_teb=True)

    def make_vfile(self):
        f = os.path.join(self.dir, "v.fits")
        self.vss.write_to(f)
        return f

    def make_fcov(self):
        c = nmt.NmtCovarianceWorkspaceFlat()
        c.compute_coupling_coefficients(self.g0, self.gs, self.fbins)
        return c

    def make_fcfile(self):
        f = os.path.join(self.dir, "fc.fits")
        self.fcov.write_to(f)
        return f

    def make_ells(self):
        return np.linspace(0., 80., 25)

    def make_fcl1(self):
        return 1 + self.rng(24).random((1, 25))

    def make_fcl2(self):
        return self.rng(25).standard_normal((2, 25))

    def make_fcl4(self):
        x = 0.2 * self.rng(26).random((4, 25))
        x[[0, 3]] += 1
        return x

    def make_bp4(self):
        return self.rng(27).standard_normal((4, 3))

    def make_minfo(self):
        return nmt.NmtMapInfo(None, [self.npix])

    def make_ainfo(self):
        return nmt.NmtAlmInfo(self.lmax)

    def make_empty_w(self):
        return nmt.NmtWorkspace()

    def make_empty_v(self):
        return nmt.NmtWorkspaceFlat()

    def make_empty_c(self):
        return nmt.NmtCovarianceWorkspace()

    def make_empty_fc(self):
        return nmt.NmtCovarianceWorkspaceFlat()


OBJECTS = ["f0", "fs", "fp", "fpt", "gpt", "fcarp", "flite", "fmask", "fan", "fcar", "fcat", "fclu",
           "bins", "bins2", "w00", "w0s", "wss", "wteb", "wbare", "cov",
           "cov00", "fbins", "fbins2", "g0", "gs", "gp", "gmask", "glite",
           "v00", "v0s", "vss", "vteb", "fcov", "minfo", "ainfo", "empty_w",
           "empty_v", "empty_c", "empty_fc", "wcs"]


def gen_env(d):
    return dict(nside=d.choice([2, 2, 4]), lmax=d.int(5, 9), spin=d.choice(
        [1, 2, 2, 3]), ny=d.int(4, 9), nx=d.int(4, 9), asp=d.choice(
        [1., 1., 0.7]), seed=d.seed())


# ---------------------------------------------------------------- curved sky
@entry("NmtField spin 0")
def _(e):
    return nmt.NmtField, dict(
        mask=e.mask, maps=e.map0, spin=0, templates=e.temp0, beam=e.beam,
        n_iter=1, n_iter_mask=1, tol_pinv=1e-8, lmax=e.lmax, lmax_mask=e.lmax,
        masked_on_input=False, lite=False)


@entry("NmtField spin s")
def _(e):
    return nmt.NmtField, dict(
        mask=e.mask, maps=e.mapS, spin=e.sp, templates=e.tempS, beam=e.beam,
        n_iter=1, n_iter_mask=0, lmax=e.lmax, lmax_mask=e.lmax,
        masked_on_input=True, lite=False)


@entry("NmtField pure")
def _(e):
    return nmt.NmtField, dict(
        mask=e.mask2, maps=e.mapS, spin=2, purify_e=True, purify_b=True,
        n_iter=1, lmax=e.lmax, lmax_mask=e.lmax, lite=False,
        masked_on_input=False, templates=e.tempS)


@entry("NmtField masked on input, pure")
def _(e):
    return nmt.NmtField, dict(
        mask=e.mask, maps=e.mapS * e.mask, spin=2, purify_b=True, n_iter=1,
        lmax=e.lmax, lmax_mask=e.lmax, lite=True, masked_on_input=True,
        templates=e.tempS * e.mask)


@entry("NmtField car")
def _(e):
    return nmt.NmtField, dict(
        mask=e.carmask, maps=e.carmap, spin=2, wcs=e.wcs, n_iter=0,
        lmax=e.lmax, lmax_mask=e.lmax)


@entry("NmtField mask only")
def _(e):
    return nmt.NmtField, dict(mask=e.mask, maps=None, spin=e.sp, lmax=e.lmax,
                              lmax_mask=e.lmax, beam=e.beam)


@entry("NmtField aniso")
def _(e):
    m = e.maniso
    return nmt.NmtField, dict(
        mask=m[0], maps=e.mapS, spin=e.sp, mask_22=m[1], mask_12=m[2],
        lmax=e.lmax, lmax_mask=max(e.lmax, 2 * e.sp), n_iter=0)


@entry("NmtFieldCatalog")
def _(e):
    return nmt.NmtFieldCatalog, dict(
        positions=e.pos, weights=e.cw_, field=e.cval, lmax=e.lmax,
        lmax_mask=e.lmax, spin=e.sp, beam=e.beam, field_is_weighted=False,
        lonlat=False)


@entry("NmtFieldCatalog lonlat")
def _(e):
    p = np.degrees(e.pos)
    return nmt.NmtFieldCatalog, dict(
        positions=np.array([p[1], 90 - p[0]]), weights=e.cw_,
        field=e.cval[:1], lmax=e.lmax, lmax_mask=e.lmax, spin=0,
        field_is_weighted=True, lonlat=True)


@entry("NmtFieldCatalogClustering")
def _(e):
    return nmt.NmtFieldCatalogClustering, dict(
        positions=e.pos, weights=e.cw_, positions_rand=e.pos[:, ::-1] * 0.9,
        weights_rand=e.cw_, lmax=e.lmax, lonlat=False)


for _k, _o in (("f0", "f0"), ("fs", "fs"), ("flite", "flite"), ("fmask",
               "fmask"), ("fan", "fan"), ("fcat", "fcat"), ("fcar", "fcar"),
               ("fpt", "fpt"), ("fcarp", "fcarp"), ("fclu", "fclu")):
    for _m in ("get_alms", "get_mask", "get_mask_alms", "get_maps",
               "get_templates", "get_anisotropic_mask",
               "get_anisotropic_mask_alms"):
        ENTRIES[f"{_k}.{_m}"] = lambda e, _o=_o, _m=_m: (
            getattr(getattr(e, _o), _m), {})


@entry("NmtBin")
def _(e):
    return nmt.NmtBin, dict(
        bpws=np.repeat(np.arange(3), 2), ells=np.arange(6), lmax=e.lmax,
        weights=np.array([1., 2, 1, 1, 3, 1]), f_ell=np.arange(1., 7))


@entry("NmtBin.from_edges")
def _(e):
    return nmt.NmtBin.from_edges, dict(ell_ini=[0, 2, 4], ell_end=[2, 4, 7],
                                       is_Dell=True, f_ell=np.ones(7))


@entry("NmtBin.from_lmax_linear")
def _(e):
    return nmt.NmtBin.from_lmax_linear, dict(lmax=e.lmax, nlb=3, is_Dell=True)


@entry("NmtBin.from_nside_linear")
def _(e):
    return nmt.NmtBin.from_nside_linear, dict(nside=e.nside, nlb=3)


@entry("bins.bin_cell")
def _(e):
    return e.bins.bin_cell, dict(cls_in=e.cl4)


@entry("bins.unbin_cell")
def _(e):
    return e.bins.unbin_cell, dict(cls_in=e.rng(30).random(
        (2, e.bins.get_n_bands())))


for _m in ("get_ell_list", "get_weight_list", "get_ell_min", "get_ell_max"):
    ENTRIES["bins." + _m] = lambda e, _m=_m: (getattr(e.bins, _m), dict(b=1))
for _m in ("get_effective_ells", "get_n_bands", "get_nell_list"):
    ENTRIES["bins." + _m] = lambda e, _m=_m: (getattr(e.bins, _m), {})


@entry("NmtWorkspace")
def _(e):
    return nmt.NmtWorkspace, dict(fl1=e.f0, fl2=e.fs, bins=e.bins,
                                  is_teb=False, normalization="MASTER")


@entry("NmtWorkspace teb")
def _(e):
    return nmt.NmtWorkspace, dict(fl1=e.f0, fl2=e.fs, bins=e.bins,
                                  is_teb=True)


@entry("NmtWorkspace toeplitz")
def _(e):
    return nmt.NmtWorkspace, dict(fl1=e.fs, fl2=e.fs, bins=e.bins,
                                  l_toeplitz=3, l_exact=2, dl_band=1)


@entry("NmtWorkspace pure")
def _(e):
    return nmt.NmtWorkspace, dict(fl1=e.fp, fl2=e.fs, bins=e.bins,
                                  normalization="MASTER")


@entry("NmtWorkspace aniso")
def _(e):
    return nmt.NmtWorkspace, dict(fl1=e.fan, fl2=e.fan, bins=e.bins,
                                  normalization="MASTER")


@entry("NmtWorkspace FKP")
def _(e):
    return nmt.NmtWorkspace, dict(fl1=e.f0, fl2=e.f0b, bins=e.bins,
                                  normalization="FKP")


@entry("w.compute", changes="wss")
def _(e):
    return e.wss.compute_coupling_matrix, dict(
        fl1=e.f0, fl2=e.fs, bins=e.bins, is_teb=False,
        normalization="MASTER")


@entry("NmtWorkspace.from_file")
def _(e):
    return nmt.NmtWorkspace.from_file, dict(fname=e.wfile,
                                            read_unbinned_MCM=True)


@entry("w.read_from", changes="w00")
def _(e):
    return e.w00.read_from, dict(fname=e.wfile, read_unbinned_MCM=True)


@entry("w.write_to", writes=True)
def _(e):
    return e.wss.write_to, dict(fname=os.path.join(e.dir, "out.fits"))


@entry("wbare.write_to", writes=True)
def _(e):
    return e.wbare.write_to, dict(fname=os.path.join(e.dir, "out2.fits"))


@entry("w.update_beams", changes="wss")
def _(e):
    return e.wss.update_beams, dict(beam1=e.beam, beam2=e.beam)


@entry("wbare.update_beams", changes="wbare")
def _(e):
    return e.wbare.update_beams, dict(beam1=e.beam, beam2=e.beam)


@entry("w.update_bins", changes="w0s")
def _(e):
    return e.w0s.update_bins, dict(bins=e.bins2)


@entry("w.update_coupling_matrix", changes="w00")
def _(e):
    return e.w00.update_coupling_matrix, dict(
        new_matrix=np.eye(e.lmax + 1) + 0.1)


@entry("w0s.update_coupling_matrix", changes="w0s")
def _(e):
    return e.w0s.update_coupling_matrix, dict(
        new_matrix=np.eye(2 * (e.lmax + 1)) + 0.1)


for _k in ("w00", "w0s", "wss", "wteb", "wbare", "empty_w"):
    for _m in ("get_coupling_matrix", "get_bandpower_windows",
               "check_unbinned"):
        ENTRIES[f"{_k}.{_m}"] = lambda e, _k=_k, _m=_m: (
            getattr(getattr(e, _k), _m), {})


@entry("w00.couple_cell")
def _(e):
    return e.w00.couple_cell, dict(cl_in=e.cl1)


@entry("wss.couple_cell")
def _(e):
    return e.wss.couple_cell, dict(cl_in=e.cl4)


@entry("wbare.couple_cell")
def _(e):
    return e.wbare.couple_cell, dict(cl_in=e.cl4)


@entry("w.decouple_cell")
def _(e):
    return e.wss.decouple_cell, dict(cl_in=e.cl4, cl_bias=e.cl4 * 0.1,
                                     cl_noise=e.cl4 * 0.2)


@entry("w00.decouple_cell")
def _(e):
    return e.w00.decouple_cell, dict(cl_in=e.cl1)


@entry("deprojection_bias")
def _(e):
    return nmt.deprojection_bias, dict(f1=e.f0, f2=e.fs, cl_guess=e.cl2,
                                       n_iter=1)


@entry("deprojection_bias ss")
def _(e):
    return nmt.deprojection_bias, dict(f1=e.fs, f2=e.fs, cl_guess=e.cl4)


@entry("uncorr_noise_deprojection_bias")
def _(e):
    return nmt.uncorr_noise_deprojection_bias, dict(f1=e.fs, map_var=e.mask2,
                                                    n_iter=1)


@entry("deprojection_bias pure")
def _(e):
    return nmt.deprojection_bias, dict(f1=e.fpt, f2=e.fs, cl_guess=e.cl4,
                                       n_iter=1)


@entry("deprojection_bias pure, pure")
def _(e):
    return nmt.deprojection_bias, dict(f1=e.fpt, f2=e.fpt, cl_guess=e.cl4)


@entry("deprojection_bias car")
def _(e):
    return nmt.deprojection_bias, dict(f1=e.fcarp, f2=e.fcarp, cl_guess=e.cl4,
                                       n_iter=0)


@entry("uncorr_noise_deprojection_bias pure")
def _(e):
    return nmt.uncorr_noise_deprojection_bias, dict(
        f1=e.fpt, map_var=e.mask2, n_iter=0)


@entry("compute_coupled_cell pure")
def _(e):
    return nmt.compute_coupled_cell, dict(f1=e.fp, f2=e.fpt)


@entry("compute_coupled_cell clustering")
def _(e):
    return nmt.compute_coupled_cell, dict(f1=e.fclu, f2=e.fcat)


@entry("NmtWorkspace pure, pure")
def _(e):
    return nmt.NmtWorkspace, dict(fl1=e.fpt, fl2=e.fp, bins=e.bins)


@entry("NmtWorkspace catalog")
def _(e):
    return nmt.NmtWorkspace, dict(fl1=e.fcat, fl2=e.fcat2, bins=e.bins)


@entry("NmtWorkspace clustering")
def _(e):
    return nmt.NmtWorkspace, dict(fl1=e.fclu, fl2=e.fclu, bins=e.bins)


@entry("NmtCovarianceWorkspace pure")
def _(e):
    return nmt.NmtCovarianceWorkspace, dict(fla1=e.fpt, fla2=e.fs)


@entry("compute_full_master pure")
def _(e):
    return nmt.compute_full_master, dict(f1=e.fpt, f2=e.fpt, b=e.bins,
                                         cl_noise=e.cl4, cl_guess=e.cl4)


@entry("compute_full_master catalog")
def _(e):
    return nmt.compute_full_master, dict(f1=e.fcat, f2=e.fcat, b=e.bins)


@entry("compute_coupled_cell")
def _(e):
    return nmt.compute_coupled_cell, dict(f1=e.f0, f2=e.fs)


@entry("compute_coupled_cell cat")
def _(e):
    return nmt.compute_coupled_cell, dict(f1=e.fcat, f2=e.fcat)


@entry("compute_full_master")
def _(e):
    return nmt.compute_full_master, dict(
        f1=e.f0, f2=e.fs, b=e.bins, cl_noise=e.cl2, cl_guess=e.cl2,
        workspace=None, normalization="MASTER")


@entry("compute_full_master ws")
def _(e):
    return nmt.compute_full_master, dict(f1=e.f0, f2=e.fs, workspace=e.w0s)


@entry("NmtCovarianceWorkspace")
def _(e):
    return nmt.NmtCovarianceWorkspace, dict(fla1=e.f0, fla2=e.fs, flb1=e.f0b,
                                            flb2=e.f0, spin0_only=False)


@entry("NmtCovarianceWorkspace toeplitz")
def _(e):
    return nmt.NmtCovarianceWorkspace, dict(
        fla1=e.f0, fla2=e.fs, spin0_only=True, l_toeplitz=3, l_exact=2,
        dl_band=1)


@entry("cov.compute", changes="cov")
def _(e):
    return e.cov.compute_coupling_coefficients, dict(
        fla1=e.f0b, fla2=e.f0, flb1=e.fs, flb2=e.f0, spin0_only=False)


@entry("NmtCovarianceWorkspace.from_file")
def _(e):
    return nmt.NmtCovarianceWorkspace.from_file, dict(
        fname=e.cfile, force_spin0_only=False)


@entry("cov.read_from", changes="cov00")
def _(e):
    return e.cov00.read_from, dict(fname=e.cfile, force_spin0_only=True)


@entry("cov.write_to", writes=True)
def _(e):
    return e.cov.write_to, dict(fname=os.path.join(e.dir, "outc.fits"))


@entry("gaussian_covariance 00")
def _(e):
    return nmt.gaussian_covariance, dict(
        cw=e.cov, spin_a1=0, spin_a2=0, spin_b1=0, spin_b2=0, cla1b1=e.cl1,
        cla1b2=e.cl1, cla2b1=e.cl1, cla2b2=e.cl1, wa=e.w00, coupled=False)


@entry("gaussian_covariance 0s")
def _(e):
    return nmt.gaussian_covariance, dict(
        cw=e.cov, spin_a1=0, spin_a2=e.sp, spin_b1=e.sp, spin_b2=e.sp,
        cla1b1=e.cl2, cla1b2=e.cl2, cla2b1=e.cl4, cla2b2=e.cl4, wa=e.w0s,
        wb=e.wss, coupled=True)


@entry("gaussian_covariance ss")
def _(e):
    return nmt.gaussian_covariance, dict(
        cw=e.cov, spin_a1=e.sp, spin_a2=e.sp, spin_b1=e.sp, spin_b2=e.sp,
        cla1b1=e.cl4, cla1b2=e.cl4, cla2b1=e.cl4, cla2b2=e.cl4, wa=e.wss,
        wb=e.wss, coupled=False)


# ------------------------------------------------------------------ flat sky
@entry("NmtFieldFlat spin 0")
def _(e):
    return nmt.NmtFieldFlat, dict(
        lx=e.lx, ly=e.ly, mask=e.fmk, maps=e.fm0, spin=0, templates=e.ft[
            :, :1], beam=e.fbeam, tol_pinv=1e-8, masked_on_input=False,
        lite=False)


@entry("NmtFieldFlat spin s")
def _(e):
    return nmt.NmtFieldFlat, dict(
        lx=e.lx, ly=e.ly, mask=e.fmk, maps=e.fms, spin=e.sp, templates=e.ft,
        beam=e.fbeam, masked_on_input=True, lite=False)


@entry("NmtFieldFlat pure")
def _(e):
    return nmt.NmtFieldFlat, dict(
        lx=e.lx, ly=e.ly, mask=e.fmk, maps=e.fms, spin=2, purify_e=True,
        purify_b=True, templates=e.ft, lite=True)


@entry("NmtFieldFlat mask only")
def _(e):
    return nmt.NmtFieldFlat, dict(lx=e.lx, ly=e.ly, mask=e.fmk, maps=None,
                                  spin=e.sp, beam=e.fbeam)


for _k in ("g0", "gs", "gp", "gpt", "gmask", "glite"):
    for _m in ("get_mask", "get_maps", "get_templates", "get_ell_sampling"):
        ENTRIES[f"{_k}.{_m}"] = lambda e, _k=_k, _m=_m: (
            getattr(getattr(e, _k), _m), {})


@entry("NmtBinFlat")
def _(e):
    return nmt.NmtBinFlat, dict(l0=np.array([0., 10., 20.]),
                                lf=np.array([10., 20., 30.]))


@entry("fbins.bin_cell")
def _(e):
    return e.fbins.bin_cell, dict(ells=e.ells, cls_in=e.fcl4)


@entry("fbins.unbin_cell")
def _(e):
    return e.fbins.unbin_cell, dict(cls_in=e.bp4, ells=e.ells)


for _m in ("get_effective_ells", "get_n_bands"):
    ENTRIES["fbins." + _m] = lambda e, _m=_m: (getattr(e.fbins, _m), {})


@entry("NmtWorkspaceFlat.compute", changes="vss")
def _(e):
    return e.vss.compute_coupling_matrix, dict(
        fl1=e.g0, fl2=e.gs, bins=e.fbins, ell_cut_x=[-5., 5.],
        ell_cut_y=[1., -1.], is_teb=False)


@entry("NmtWorkspaceFlat.compute teb", changes="empty_v")
def _(e):
    return e.empty_v.compute_coupling_matrix, dict(
        fl1=e.g0, fl2=e.gs, bins=e.fbins, is_teb=True)


@entry("NmtWorkspaceFlat.compute pure", changes="v00")
def _(e):
    return e.v00.compute_coupling_matrix, dict(
        fl1=e.gp, fl2=e.gp, bins=e.fbins2)


@entry("v.read_from", changes="v00")
def _(e):
    return e.v00.read_from, dict(fname=e.vfile)


@entry("v.write_to", writes=True)
def _(e):
    return e.vss.write_to, dict(fname=os.path.join(e.dir, "outv.fits"))


@entry("empty.write_to", writes=True)
def _(e):
    return e.empty_v.write_to, dict(fname=os.path.join(e.dir, "outv.fits"))


@entry("v.couple_cell")
def _(e):
    return e.vss.couple_cell, dict(ells=e.ells, cl_in=e.fcl4)


@entry("v.decouple_cell")
def _(e):
    return e.vss.decouple_cell, dict(cl_in=e.bp4, cl_bias=e.bp4 * 0.1,
                                     cl_noise=e.bp4 * 0.2)


@entry("deprojection_bias_flat")
def _(e):
    return nmt.deprojection_bias_flat, dict(
        f1=e.g0, f2=e.gs, b=e.fbins, ells=e.ells, cl_guess=e.fcl2,
        ell_cut_x=[1., -1.], ell_cut_y=[1., -1.])


@entry("deprojection_bias_flat pure")
def _(e):
    return nmt.deprojection_bias_flat, dict(
        f1=e.gpt, f2=e.gpt, b=e.fbins, ells=e.ells, cl_guess=e.fcl4)


@entry("compute_coupled_cell_flat pure")
def _(e):
    return nmt.compute_coupled_cell_flat, dict(f1=e.gpt, f2=e.gp, b=e.fbins)


@entry("compute_full_master_flat pure")
def _(e):
    return nmt.compute_full_master_flat, dict(
        f1=e.gp, f2=e.gpt, b=e.fbins, cl_guess=e.fcl4, ells_guess=e.ells)


@entry("compute_coupled_cell_flat")
def _(e):
    return nmt.compute_coupled_cell_flat, dict(
        f1=e.g0, f2=e.gs, b=e.fbins, ell_cut_x=[1., -1.],
        ell_cut_y=[-3., 3.])


@entry("compute_full_master_flat")
def _(e):
    return nmt.compute_full_master_flat, dict(
        f1=e.g0, f2=e.gs, b=e.fbins, cl_noise=e.bp4[:2], cl_guess=e.fcl2,
        ells_guess=e.ells, ell_cut_x=[1., -1.], ell_cut_y=[1., -1.])


@entry("compute_full_master_flat ws")
def _(e):
    return nmt.compute_full_master_flat, dict(f1=e.gs, f2=e.gs, b=e.fbins,
                                              workspace=e.vss)


@entry("fcov.compute", changes="fcov")
def _(e):
    return e.fcov.compute_coupling_coefficients, dict(
        fla1=e.gs, fla2=e.g0, bin_a=e.fbins, flb1=e.g0, flb2=e.gs,
        bin_b=e.fbins)


@entry("fcov.compute 2", changes="empty_fc")
def _(e):
    return e.empty_fc.compute_coupling_coefficients, dict(
        fla1=e.gs, fla2=e.gp, bin_a=e.fbins)


@entry("fcov.read_from", changes="fcov")
def _(e):
    return e.fcov.read_from, dict(fname=e.fcfile)


@entry("fcov.write_to", writes=True)
def _(e):
    return e.fcov.write_to, dict(fname=os.path.join(e.dir, "outfc.fits"))


@entry("gaussian_covariance_flat")
def _(e):
    return nmt.gaussian_covariance_flat, dict(
        cw=e.fcov, spin_a1=0, spin_a2=0, spin_b1=e.sp, spin_b2=e.sp,
        larr=e.ells, cla1b1=e.fcl2, cla1b2=e.fcl2, cla2b1=e.fcl2,
        cla2b2=e.fcl2, wa=e.v00, wb=e.vss)


@entry("gaussian_covariance_flat 0s")
def _(e):
    return nmt.gaussian_covariance_flat, dict(
        cw=e.fcov, spin_a1=0, spin_a2=e.sp, spin_b1=0, spin_b2=e.sp,
        larr=e.ells, cla1b1=e.fcl1, cla1b2=e.fcl2, cla2b1=e.fcl2,
        cla2b2=e.fcl4, wa=e.v0s)


# --------------------------------------------------------------------- utils
@entry("mask_apodization")
def _(e):
    return nmt.mask_apodization, dict(mask_in=(e.mask > 0).astype(float),
                                      aposize=30., apotype="C1")


@entry("mask_apodization Smooth")
def _(e):
    return nmt.mask_apodization, dict(mask_in=(e.mask > 0).astype(float),
                                      aposize=40., apotype="Smooth")


@entry("mask_apodization_flat")
def _(e):
    return nmt.mask_apodization_flat, dict(
        mask_in=(e.fmk > 0.3).astype(float), lx=e.lx, ly=e.ly, aposize=10.,
        apotype="C2")


@entry("mask_apodization_flat Smooth")
def _(e):
    return nmt.mask_apodization_flat, dict(
        mask_in=(e.fmk > 0.3).astype(float), lx=e.lx, ly=e.ly, aposize=10.,
        apotype="Smooth")


@entry("synfast_spherical")
def _(e):
    return nmt.synfast_spherical, dict(
        nside=e.nside, cls=np.array([e.cl1[0], e.cl2[0] * 0, e.cl2[0] * 0,
                                     e.cl4[0], e.cl4[1] * 0, e.cl4[3]]),
        spin_arr=[0, e.sp], beam=np.array([e.beam, e.beam]), seed=12)


@entry("synfast_flat")
def _(e):
    return nmt.synfast_flat, dict(
        nx=e.nx, ny=e.ny, lx=e.lx, ly=e.ly, cls=np.array(
            [e.fcl1[0], e.fcl2[0] * 0, e.fcl2[0] * 0, e.fcl4[0],
             e.fcl4[1] * 0, e.fcl4[3]]), spin_arr=[0, e.sp],
        beam=np.ones([2, 25]), seed=12)


@entry("set_sht_calculator")
def _(e):
    return nmt.set_sht_calculator, dict(calc_name="ducc")


@entry("set_n_iter_default")
def _(e):
    return nmt.set_n_iter_default, dict(n_iter=3, mask=True)


@entry("set_tol_pinv_default")
def _(e):
    return nmt.set_tol_pinv_default, dict(tol_pinv=1e-10)


@entry("NmtMapInfo")
def _(e):
    return nmt.NmtMapInfo, dict(wcs=None, axes=[e.npix])


@entry("NmtMapInfo car")
def _(e):
    return nmt.NmtMapInfo, dict(wcs=e.wcs, axes=[8, 14])


@entry("minfo.reform_map")
def _(e):
    return e.minfo.reform_map, dict(maps=e.mapS)


@entry("NmtAlmInfo")
def _(e):
    return nmt.NmtAlmInfo, dict(lmax=e.lmax)


@entry("map2alm")
def _(e):
    return nmt.map2alm, dict(map=e.mapS, spin=e.sp, map_info=e.minfo,
                             alm_info=e.ainfo, n_iter=1)


@entry("alm2map")
def _(e):
    n = (e.lmax + 1) * (e.lmax + 2) // 2
    r = e.rng(31)
    return nmt.alm2map, dict(
        alm=r.standard_normal((2, n)) + 1j * r.standard_normal((2, n)),
        spin=e.sp, map_info=e.minfo, alm_info=e.ainfo)


@entry("moore_penrose_pinvh")
def _(e):
    a = e.rng(32).standard_normal((3, 3))
    return nmt.moore_penrose_pinvh, dict(mat=a @ a.T, tol_pinv=1e-6)


# ------------------------------------------------------------------ snapshots
def snapshot(o, e=None, depth=0):
    """The observable content of a result or object, as nested lists of
    arrays."""
    def call(f, *a):
        try:
            return snapshot(f(*a), e, depth + 1)
        except Exception as x:
            return type(x).__name__
    if o is None or isinstance(o, (int, float, complex, str, bool, bytes)):
        return o
    if isinstance(o, np.ndarray):
        return np.array(o)
    if isinstance(o, np.generic):
        return o
    if isinstance(o, (list, tuple)):
        return [snapshot(x, e, depth + 1) for x in o]
    if isinstance(o, dict):
        return {k: snapshot(v, e, depth + 1) for k, v in o.items()}
    if isinstance(o, nmt.NmtField):
        return [call(getattr(o, k)) for k in (
            "get_alms", "get_mask", "get_mask_alms", "get_maps",
            "get_templates", "get_anisotropic_mask",
            "get_anisotropic_mask_alms")] + [
            snapshot(getattr(o, k, "none")) for k in
            ("beam", "spin", "lite", "n_temp", "nmaps", "iM", "Nw", "Nf",
             "pure_e", "pure_b", "alm_temp", "n_iter", "n_iter_mask")]
    if isinstance(o, nmt.NmtFieldFlat):
        return [call(getattr(o, k)) for k in (
            "get_mask", "get_maps", "get_templates", "get_ell_sampling")] + [
            flat_probe(o)]
    if isinstance(o, nmt.NmtBin):
        n = o.get_n_bands()
        return [call(getattr(o, k)) for k in (
            "get_effective_ells", "get_nell_list")] + [
            [call(getattr(o, k), i) for i in range(n) for k in (
                "get_ell_list", "get_weight_list")], o.lmax,
            call(o.unbin_cell, np.arange(1., n + 1))]
    if isinstance(o, nmt.NmtBinFlat):
        n = o.get_n_bands()
        return [call(o.get_effective_ells), n]
    if isinstance(o, nmt.NmtWorkspace):
        if o.wsp is None:
            return "empty"
        n, lm = o.wsp.ncls, o.wsp.lmax
        cl = 1 + np.cos(np.arange(n * (lm + 1)) * 1.7).reshape(n, -1)
        return [n, lm, call(o.get_coupling_matrix), call(o.couple_cell, cl),
                call(o.decouple_cell, cl), call(o.get_bandpower_windows)]
    if isinstance(o, nmt.NmtWorkspaceFlat):
        if o.wsp is None:
            return "empty"
        n, nb = o.wsp.ncls, o.wsp.bin.n_bands
        ll = np.linspace(0, 60., 20)
        return [n, nb, call(o.couple_cell, ll, np.cos(
            np.arange(n * 20.)).reshape(n, 20)), call(
                o.decouple_cell, np.cos(np.arange(1., n * nb + 1)).reshape(
                    n, nb))]
    if isinstance(o, nmt.NmtCovarianceWorkspace):
        if o.wsp is None:
            return "empty"
        if e is None:
            return [o.wsp.lmax]
        if o.wsp.lmax < e.lmax:
            return [o.wsp.lmax]
        cls = {1: np.ones((1, o.wsp.lmax + 1)),
               4: np.ones((4, o.wsp.lmax + 1))}
        return [call(nmt.gaussian_covariance, o, s, s, s, s, *[
            cls[n]] * 4, w, w, True) for s, n, w in (
                (0, 1, e.w00p), (e.sp, 4, e.wssp))]
    if isinstance(o, nmt.NmtCovarianceWorkspaceFlat):
        if o.wsp is None:
            return "empty"
        if e is None:
            return [o.wsp.bin.n_bands]
        ll = np.linspace(0, 60., 20)
        return [call(nmt.gaussian_covariance_flat, o, s, s, s, s, ll, *[
            np.ones((n, 20))] * 4, w, w) for s, n, w in (
                (0, 1, e.v00p), (e.sp, 4, e.vssp))]
    if isinstance(o, nmt.NmtMapInfo):
        return [o.npix, o.nx, o.ny, o.nside, o.get_lmax()]
    if isinstance(o, nmt.NmtAlmInfo):
        return [o.lmax, o.nelem]
    return repr(type(o))


# private workspaces for probing covariances
Env.make_w00p = Env.make_w00
Env.make_wssp = Env.make_wss
Env.make_v00p = Env.make_v00
Env.make_vssp = Env.make_vss


def flat_probe(f):
    try:
        b = nmt.NmtBinFlat(np.array([0., 15.]), np.array([15., 60.]))
        return snapshot(nmt.compute_coupled_cell_flat(f, f, b))
    except Exception as x:
        return type(x).__name__


def same(a, b, tol=1e-12, where=""):
    """None if two snapshots agree, else a description. NaNs agree with
    NaNs."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return f"{where}: shapes {a.shape} and {b.shape}"
        if a.dtype.kind not in "fciub":
            return None if np.all(a == b) else f"{where}: differ"
        if a.size == 0:
            return None
        fa, fb = np.isfinite(a), np.isfinite(b)
        if not np.array_equal(fa, fb):
            return f"{where}: not finite at different places"
        s = np.max(np.abs(a[fa])) if fa.any() else 0.
        x = np.max(np.abs(a[fa] - b[fb])) if fa.any() else 0.
        if not x <= tol * s:
            return f"{where}: differ by {x:.3g} (scale {s:.3g})"
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return f"{where}: lengths {len(a)} and {len(b)}"
        for i, (p, q) in enumerate(zip(a, b)):
            r = same(p, q, tol, f"{where}[{i}]")
            if r:
                return r
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        if sorted(a) != sorted(b):
            return f"{where}: keys"
        for k in a:
            r = same(a[k], b[k], tol, f"{where}[{k}]")
            if r:
                return r
        return None
    if isinstance(a, (float, complex, np.floating)) and isinstance(
            b, (float, complex, np.floating)):
        if a == b or (a != a and b != b) or abs(a - b) <= tol * abs(a):
            return None
        return f"{where}: {a} and {b}"
    if type(a) is not type(b) or a != b:
        return f"{where}: {a!r:.80} and {b!r:.80}"
    return None


# ------------------------------------------------------------------ mutations
ARRAY = ["drop", "drop", "grow", "ravel", "wrap", "empty", "zeros", "nan",
         "inf", "onenan", "neg", "huge", "tiny", "int", "f32", "swap",
         "complex", "object", "string", "scalar", "none", "list", "transpose",
         "noncontig", "first", "repeat", "bool", "const", "dup", "short"]
INT = ["0", "-1", "-5", "+1", "-=1", "*2", "100", "2**31", "2**33", "half",
       "nan", "none", "string", "list", "float", "npint", "3"]
FLOAT = ["0", "neg", "nan", "inf", "tiny", "huge", "none", "string", "list",
         "180", "1", "-inf"]
STR = ["empty", "long", "none", "int", "other", "bytes", "unicode", "dir",
       "missing", "percent", "longname"]
OBJ = ["none", "object", "object", "object", "object", "int", "string",
       "list"]
BOOL = ["flip", "flip", "none", "2"]


def kinds(v):
    if isinstance(v, np.ndarray) or isinstance(v, list):
        return ARRAY
    if isinstance(v, bool):
        return BOOL
    if isinstance(v, int):
        return INT
    if isinstance(v, float):
        return FLOAT
    if isinstance(v, str):
        return STR
    return OBJ


def subdir(e):
    d = os.path.join(e.dir, "folder")
    os.makedirs(os.path.join(d, "inside"), exist_ok=True)
    return d


def mutate(v, k, p, e):
    """Mutation number k with parameter p of value v (left as it is where
    the mutation has no meaning)."""
    try:
        return mutate_(v, k, p, e)
    except (IndexError, ValueError, TypeError, ZeroDivisionError):
        return "same", v


def mutate_(v, k, p, e):
    ks = kinds(v)
    m = ks[k % len(ks)]
    if ks is ARRAY:
        a = np.array(v, dtype=None if isinstance(v, np.ndarray) else None)
        ax = p % max(1, a.ndim)
        if m == "drop":
            return m, np.delete(a, -1, ax) if a.size else a
        if m == "short":
            return m, np.take(a, range(min(a.shape[ax], 1 + p % 3)), ax)
        if m == "grow":
            return m, np.concatenate([a, np.take(a, [0], ax)], ax)
        if m == "repeat":
            return m, np.concatenate([a, a], ax)
        if m == "ravel":
            return m, a.ravel()
        if m == "wrap":
            return m, a[None]
        if m == "empty":
            return m, np.take(a, [], ax)
        if m == "zeros":
            return m, a * 0
        if m == "const":
            return m, a * 0 + 1
        if m == "dup":
            b = a.copy()
            b[...] = np.take(a, [0], ax)
            return m, b
        if m in ("nan", "inf", "onenan"):
            b = np.array(a, dtype=complex if a.dtype.kind == "c" else float)
            if m == "onenan":
                b.flat[p % b.size] = np.nan
            else:
                b[...] = np.nan if m == "nan" else np.inf
            return m, b
        if m == "neg":
            return m, -a
        if m == "huge":
            return m, a * 1e200
        if m == "tiny":
            return m, a * 1e-200
        if m == "int":
            return m, np.round(a.real * 3).astype(int)
        if m == "bool":
            return m, a > 0.5
        if m == "f32":
            return m, a.astype(np.complex64 if a.dtype.kind == "c"
                               else np.float32)
        if m == "swap":
            return m, a.astype(a.dtype.newbyteorder())
        if m == "complex":
            return m, a.astype(complex)
        if m == "object":
            return m, a.astype(object)
        if m == "string":
            return m, "text"
        if m == "scalar":
            return m, 1.5
        if m == "none":
            return m, None
        if m == "list":
            return m, a.tolist()
        if m == "transpose":
            return m, a.T
        if m == "noncontig":
            b = np.zeros(tuple(2 * x for x in a.shape), a.dtype)
            b[tuple(slice(None, None, 2) for _ in a.shape)] = a
            return m, b[tuple(slice(None, None, 2) for _ in a.shape)]
        return m, a[:1]
    if ks is INT:
        return m, {"0": 0, "-1": -1, "-5": -5, "+1": v + 1, "-=1": v - 1,
                   "*2": 2 * v, "100": 100, "2**31": 2**31, "2**33": 2**33,
                   "half": v + 0.5, "nan": float("nan"), "none": None,
                   "string": "text", "list": [v], "float": float(v),
                   "npint": np.int64(v), "3": 3}[m]
    if ks is FLOAT:
        return m, {"0": 0., "neg": -v, "nan": float("nan"),
                   "inf": float("inf"), "-inf": -float("inf"), "tiny": 1e-300,
                   "huge": 1e300, "none": None, "string": "text",
                   "list": [v], "180": 180., "1": 1.}[m]
    if ks is STR:
        return m, {"empty": "", "long": "x" * 5000, "none": None, "int": 3,
                   "other": "C1" if v != "C1" else "C3", "bytes": b"abc",
                   "unicode": "\u00e9\u4e2d" * 3, "dir": subdir(e),
                   "missing": os.path.join(e.dir, "missing.fits"),
                   "percent": os.path.join(e.dir, "%s%n%d.fits"),
                   "longname": os.path.join(e.dir, "y" * 240 + ".fits")}[m]
    if ks is BOOL:
        return m, {"flip": not v, "none": None, "2": 2}[m]
    if m == "object":
        o = OBJECTS[p % len(OBJECTS)]
        return o, getattr(e, o)
    return m, {"none": None, "int": 3, "string": "text", "list": []}[m]
