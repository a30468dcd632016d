"""Valid FITS files whose contents contradict each other."""
import numpy as np
from astropy.io import fits

TABLE_KEYS = ("N_BANDS", "ELL_MAX", "NX", "NY", "NPIX", "LX", "LY", "PIXSIZE",
              "DELL", "I_DELL")
HEADER_KEYS = ("EXTNAME", "LMAX", "LMAX_FIELDS", "LMAX_MASK", "IS_TEB", "NCLS",
               "NORM_TYPE", "ELLCUT_X_I", "ELLCUT_X_F", "ELLCUT_Y_I",
               "ELLCUT_Y_F", "PURE_E1", "PURE_E2", "PURE_B1", "PURE_B2")


def retable(hl, name, rows=None, **cols):
    """Replaces the rows or columns of a table."""
    i = [h.name for h in hl].index(name)
    h = hl[i]
    if rows is None:
        new = [fits.Column(name=c.name, format=c.format, array=np.asarray(
            cols[c.name])) if c.name in cols else fits.Column(
                name=c.name, format=c.format, array=np.resize(
                    h.data[c.name], len(next(iter(cols.values())))))
               for c in h.columns]
        t = fits.BinTableHDU.from_columns(new, name=name)
    else:
        t = fits.BinTableHDU(h.data[rows], name=name)
    for k in TABLE_KEYS:
        if k in h.header:
            t.header[k] = h.header[k]
    hl[i] = t


def reimage(hl, name, data):
    i = [h.name for h in hl].index(name)
    h = hl[i]
    new = (fits.PrimaryHDU if i == 0 else fits.ImageHDU)(data)
    for k in h.header:
        if k in HEADER_KEYS:
            new.header[k] = h.header[k]
    hl[i] = new


def rows(name, how):
    def f(hl, b):
        n = len(hl[name].data)
        r = np.arange(n)
        r = {"short": r[:-1], "long": np.append(r, r[-1]), "none": r[:0],
             "half": r[:n // 2], "double": np.append(r, r)}[how]
        if len(r) == n:
            return False
        retable(hl, name, r)
    return f


def image(name, how):
    def f(hl, b):
        d = hl[name].data
        if how == "rows":
            d = d[:-1]
        elif how == "more rows":
            d = np.concatenate([d, d[-1:]])
        elif how == "columns":
            d = d[:, :-1]
        elif how == "flat":
            d = d.ravel()
        elif how == "line":
            d = d[:1].ravel() if d.ndim > 1 else d[None, :]
        elif how == "deep":
            d = np.array([d] * (2 + b % 2))
        if d.size == 0 or d.shape == hl[name].data.shape:
            return False
        reimage(hl, name, np.ascontiguousarray(d))
    return f


def perm(how):
    def f(hl, b):
        p = np.array(hl["MCM_PERM"].data)
        if how == "twice":
            if len(p) < 2:
                return False
            i = b % len(p)
            p[i] = p[(i + 1) % len(p)]
        elif how == "beyond":
            p[b % len(p)] = len(p)
        elif how == "negative":
            p[b % len(p)] = -1
        elif how == "far":
            p[b % len(p)] = 2**31 - 1
        reimage(hl, "MCM_PERM", p)
    return f


def key(ext, name, how):
    def f(hl, b):
        h = hl[ext].header
        o = h[name]
        h[name] = {"+1": o + 1, "-1": o - 1, "neg": -1, "x2": 2 * o,
                   "x10": 10 * o, "zero": 0, "big": 2**31 - 1,
                   "x1000": 1000 * o}[how]
        if h[name] == o:
            return False
    return f


def beyond_lmax(hl, b):
    """Bands that reach multipoles that the coupling matrix does not have
    (but the fields may)."""
    t = hl["BANDPOWERS"]
    h = hl["WSP_PRIMARY"].header
    lm, lw = int(t.header["ELL_MAX"]), int(h["LMAX"])
    m = max(lw - lm, 0) + [1, 1, 2, 1 + b % 40][b % 4]
    c = {k: np.array(t.data[k]) for k in ("BAND", "ELLS", "WEIGHTS",
                                          "F_ELL")}
    nb = int(t.header["N_BANDS"])
    new = {"BAND": np.full(m, nb - 1), "ELLS": lm + 1 + np.arange(m),
           "WEIGHTS": np.ones(m), "F_ELL": np.ones(m)}
    retable(hl, "BANDPOWERS", None, **{
        k: np.concatenate([c[k], new[k]]) for k in c})
    hl["BANDPOWERS"].header["ELL_MAX"] = lm + m
    if b // 4 % 2 and int(h["LMAX_FIELDS"]) < lm + m:
        h["LMAX_FIELDS"] = lm + m
        retable(hl, "BEAMS", None, L=np.arange(lm + m + 1),
                BEAMS=np.resize(hl["BEAMS"].data["BEAMS"], lm + m + 1))


def short_fields(hl, b):
    """Fields with fewer multipoles than the coupling matrix."""
    h = hl["WSP_PRIMARY"].header
    n = int(h["LMAX"])
    m = 1 + b % max(n, 1)
    if n - m < 0:
        return False
    h["LMAX_FIELDS"] = n - m
    retable(hl, "BEAMS", np.arange(n - m + 1))


def band_out(col, val):
    def f(hl, b):
        d = hl["BANDPOWERS"].data
        v = np.array(d[col])
        v[b % len(v)] = val(hl)
        w = np.array(d["WEIGHTS"])
        w[b % len(v)] = 1.
        ll = np.array(d["ELLS"])
        ll[b % len(v)] = 1
        retable(hl, "BANDPOWERS", None, **{"WEIGHTS": w, "ELLS": ll, col: v})
    return f


def teb(hl, b):
    h = hl["WSP_PRIMARY"].header
    h["IS_TEB"] = 0 if h["IS_TEB"] else 1


W = {"beams short": rows("BEAMS", "short"),
     "beams long": rows("BEAMS", "long"),
     "beams none": rows("BEAMS", "none"),
     "beams half": rows("BEAMS", "half"),
     "masks short": rows("PCL_MASKS", "short"),
     "masks long": rows("PCL_MASKS", "long"),
     "masks half": rows("PCL_MASKS", "half"),
     "masks none": rows("PCL_MASKS", "none"),
     "bands beyond": beyond_lmax,
     "fields short": short_fields,
     "band missing": key("BANDPOWERS", "N_BANDS", "-1"),
     "band more": key("BANDPOWERS", "N_BANDS", "+1"),
     "band number": band_out("BAND", lambda h: h[
         "BANDPOWERS"].header["N_BANDS"]),
     "mcm rows": image("WSP_PRIMARY", "rows"),
     "mcm columns": image("WSP_PRIMARY", "columns"),
     "mcm more": image("WSP_PRIMARY", "more rows"),
     "mcm flat": image("WSP_PRIMARY", "flat"),
     "mcm line": image("WSP_PRIMARY", "line"),
     "mcm deep": image("WSP_PRIMARY", "deep"),
     "lmax more": key("WSP_PRIMARY", "LMAX", "+1"),
     "lmax less": key("WSP_PRIMARY", "LMAX", "-1"),
     "lmax negative": key("WSP_PRIMARY", "LMAX", "neg"),
     "lmax huge": key("WSP_PRIMARY", "LMAX", "big"),
     "lmax_mask more": key("WSP_PRIMARY", "LMAX_MASK", "+1"),
     "lmax_mask negative": key("WSP_PRIMARY", "LMAX_MASK", "neg"),
     "lmax_mask huge": key("WSP_PRIMARY", "LMAX_MASK", "big"),
     "lmax_fields more": key("WSP_PRIMARY", "LMAX_FIELDS", "+1"),
     "lmax_fields x2": key("WSP_PRIMARY", "LMAX_FIELDS", "x2"),
     "lmax_fields huge": key("WSP_PRIMARY", "LMAX_FIELDS", "big"),
     "ncls more": key("WSP_PRIMARY", "NCLS", "+1"),
     "ncls double": key("WSP_PRIMARY", "NCLS", "x2"),
     "ncls none": key("WSP_PRIMARY", "NCLS", "zero"),
     "teb": teb}
BIN = {"binned rows": image("MCM_BINNED", "rows"),
       "binned columns": image("MCM_BINNED", "columns"),
       "binned line": image("MCM_BINNED", "line"),
       "binned flat": image("MCM_BINNED", "flat"),
       "binned deep": image("MCM_BINNED", "deep"),
       "perm short": image("MCM_PERM", "rows"),
       "perm long": image("MCM_PERM", "more rows"),
       "perm deep": image("MCM_PERM", "deep"),
       "perm twice": perm("twice"), "perm beyond": perm("beyond"),
       "perm negative": perm("negative"), "perm far": perm("far")}
V = {"cells short": rows("N_CELLS", "short"),
     "cells long": rows("N_CELLS", "long"),
     "cells none": rows("N_CELLS", "none"),
     "rings short": rows("FS_INFO", "short"),
     "rings half": rows("FS_INFO", "half"),
     "rings none": rows("FS_INFO", "none"),
     "bands short": rows("BINS_SUMMARY", "short"),
     "bands long": rows("BINS_SUMMARY", "long"),
     "bands none": rows("BINS_SUMMARY", "none"),
     "npix more": key("FS_INFO", "NPIX", "+1"),
     "npix double": key("FS_INFO", "NPIX", "x2"),
     "npix none": key("FS_INFO", "NPIX", "zero"),
     "nx more": key("FS_INFO", "NX", "+1"),
     "ny double": key("FS_INFO", "NY", "x2"),
     "nx none": key("FS_INFO", "NX", "zero"),
     "ny negative": key("FS_INFO", "NY", "neg"),
     "lx none": key("FS_INFO", "LX", "zero"),
     "ly negative": key("FS_INFO", "LY", "neg"),
     "i_dell none": key("FS_INFO", "I_DELL", "zero"),
     "i_dell negative": key("FS_INFO", "I_DELL", "neg"),
     "i_dell large": key("FS_INFO", "I_DELL", "x1000"),
     "ncls more": key("WSP_PRIMARY", "NCLS", "+1"),
     "ncls double": key("WSP_PRIMARY", "NCLS", "x2"),
     "ncls none": key("WSP_PRIMARY", "NCLS", "zero"),
     "teb": teb,
     "mcm rows": image("WSP_PRIMARY", "rows"),
     "mcm columns": image("WSP_PRIMARY", "columns"),
     "mcm line": image("WSP_PRIMARY", "line"),
     "mcm deep": image("WSP_PRIMARY", "deep"),
     "gsl rows": image("MCM_BINNED_GSL", "rows"),
     "gsl columns": image("MCM_BINNED_GSL", "columns"),
     "gsl deep": image("MCM_BINNED_GSL", "deep")}
XI0 = ["XI00_1122", "XI00_1221"]
XI = XI0 + ["XI02_1122", "XI02_1221", "XI22P_1122", "XI22P_1221",
            "XI22M_1122", "XI22M_1221"]


def xi(names):
    out = {}
    for n in names:
        for how in ("rows", "columns", "line", "flat", "deep", "more rows"):
            out[f"{n} {how}"] = image(n, how)
    return out


C0 = {"lmax more": key("CWSP_PRIMARY", "LMAX", "+1"),
      "lmax less": key("CWSP_PRIMARY", "LMAX", "-1"),
      "lmax huge": key("CWSP_PRIMARY", "LMAX", "big"),
      "lmax negative": key("CWSP_PRIMARY", "LMAX", "neg")}
FB = {"bands short": rows("BINS_SUMMARY", "short"),
      "bands long": rows("BINS_SUMMARY", "long"),
      "bands none": rows("BINS_SUMMARY", "none")}
ALL = {"w": {**W, **BIN}, "v": {**V, **BIN}, "c": {**C0, **xi(XI)},
       "c0": {**C0, **xi(XI0)}, "f": {**FB, **xi(XI)}}


def contradict(fname, family, k, b, only=None):
    """Rewrites a file so that its contents contradict each other. Returns
    what was done, or None if it was not possible."""
    todo = ALL[family]
    name = only or sorted(todo)[k % len(todo)]
    with fits.open(fname, memmap=False) as hl:
        hd = fits.HDUList([h.copy() for h in hl])
    if todo[name](hd, b) is False:
        return None
    hd.writeto(fname, overwrite=True, output_verify="ignore")
    return name
