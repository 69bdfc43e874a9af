"""C23: ModelE, DHARMA and WRF output and post-processed files are read into the documented profiles."""
import os
import tempfile
import types

import numpy as np
import xarray as xr
from hypothesis import strategies as st

from vlib.core import Check, require, sut, close, equal
from vlib import synth

CHECK = Check("C23", "A case is a generated ModelE-, DHARMA- or WRF-like file (1-4 times, 2-5 levels, 1-6 grid cells, own dimension names and "
              "precisions), or a post-processed subcolumn file of one of the loaders, read with generated options (time range as array, "
              "tuple or list; region; ice classes; microphysics). WRF files are read through a stand-in of the absent wrf-python package. "
              "Non-trivial: at least two columns or a selection that drops some.",
              ["wrf-python is not installed: getvar is replaced by a stand-in returning destaggered fields as it documents"])
RD = 287.058


def t64(k):
    return np.datetime64("2021-03-01T00:00") + np.asarray(k) * np.timedelta64(1, "h")


def span(s):
    a, b = min(s["range"]), max(s["range"])
    r = [t64(a), t64(b)]
    return {"array": np.array(r), "tuple": tuple(r), "list": r}[s["form"]]


def kept_times(s, n):
    k = list(range(n))
    if s["range"] is not None:
        sel = [t for t in k if min(s["range"]) <= t < max(s["range"])]
        return sel or k
    return k


RANGE = {"range": st.one_of(st.none(), st.tuples(st.integers(-1, 5), st.integers(-1, 5))),
         "form": st.sampled_from(["array", "tuple", "list"]), "seed": st.integers(0, 2 ** 31 - 1),
         "nt": synth.size(1, 4, 20), "nz": synth.size(2, 5, 72), "ny": st.integers(1, 3), "nx": st.integers(1, 3),
         "f32": st.booleans()}


def store(s, ds, f):
    with tempfile.TemporaryDirectory(dir=os.environ["VERIF_SCRATCH"]) as d:
        p = os.path.join(d, "in.nc")
        ds.to_netcdf(p)
        m = f(p)
        m.ds = m.ds.load()
        m.ds.close()
    return m


def compare(s, m, vals, cols, hdim, tdim, tol, what=""):
    """vals: name -> (time, level, cell) array; cols: expected (t, cell) pairs."""
    require(m.height_dim == hdim, "height dimension is %s", m.height_dim)
    require(m.ds.sizes[m.time_dim] == len(cols), "%d columns were read, expected %d", m.ds.sizes[m.time_dim], len(cols))
    for n, v in vals.items():
        require(n in m.ds, "%s is missing", n)
        require(m.ds[n].dims == (m.time_dim, hdim), "%s has dims %s", n, m.ds[n].dims)
        close(m.ds[n].values.astype(float), np.array([v[t, :, c] for t, c in cols]).astype(float), what + n, rtol=tol)


# ------------------------------------------------------------------ ModelE
@CHECK.sub(st.fixed_dictionaries(dict(RANGE, lay=st.sampled_from(["column", "one", "region", "region"]), lev=st.sampled_from(["p", "level"]),
                                      extra=st.booleans())), quick=300, thorough=4000, shards=3)
def modele(s, ctx):
    from emc2.core.model import ModelE
    nt, nz = s["nt"], s["nz"]
    ny, nx = (s["ny"], s["nx"]) if s["lay"] == "region" else (1, 1)
    nc = ny * nx
    rng = np.random.RandomState(s["seed"])
    sh = (nt, nz, nc)
    vals = {"t": rng.uniform(200, 300, sh), "q": rng.uniform(0, 1e-2, sh), "z": np.sort(rng.uniform(10, 15000, sh), axis=1),
            "p_3d": np.sort(rng.uniform(100, 1000, sh), axis=1)[:, ::-1]}
    for h in synth.HYD4:
        for k in ("n" + h, "cldmc" + h, "cldss" + h, "re_mc" + h, "re_ss" + h, "QC%smc" % h[1].upper(), "q" + h):
            vals[k] = rng.rand(*sh)
    if s["f32"]:
        vals = {k: v.astype("float32") for k, v in vals.items()}
    lev = np.linspace(1000, 100, nz)
    ds = xr.Dataset(coords={"time": ("time", t64(np.arange(nt)).astype("datetime64[ns]")), s["lev"]: lev})
    if s["extra"] and s["lev"] == "p":
        ds = ds.assign_coords(level=("p", np.arange(nz)))     # levels may also be numbered
    ex = () if s["lay"] == "column" else ("lat", "lon")
    if ex:
        ds = ds.assign_coords(lat=10. + np.arange(ny), lon=20. + np.arange(nx))
    for k, v in vals.items():
        ds[k] = (("time", s["lev"]) + ex, v[..., 0] if not ex else v.reshape(nt, nz, ny, nx))
    ds["p_3d"].attrs["units"] = "mb"
    m = store(s, ds, lambda p: sut(ModelE, p, **({"time_range": span(s)} if s["range"] is not None else {})))
    ts = kept_times(s, nt)
    cols = [(t, c) for c in range(nc) for t in ts]
    compare(s, m, vals, cols, s["lev"], "time", 1e-12)
    require(m.ds["p_3d"].attrs["units"] == "hPa", "pressure units")
    e = np.array([vals["p_3d"][t, :, c].astype(float) * 100 / (RD * vals["t"][t, :, c].astype(float)) for t, c in cols])
    close(m.ds["rho_a"].values, e, "air density", rtol=3e-6 if s["f32"] else 1e-12)
    require(m.hyd_types == ["cl", "ci", "pl", "pi"] and m.rad_scheme_family == "ModelE", "classes or scheme of ModelE")
    ctx.nontriv(len(cols) > 1 or len(ts) < nt)
    ctx.count(s["lay"])


# ------------------------------------------------------------------ DHARMA
@CHECK.sub(st.fixed_dictionaries(dict(RANGE, lay=st.sampled_from(["dom_col", "time", "region", "region"]), single=st.booleans(), ints=st.booleans(),
                                      box=st.one_of(st.none(), st.tuples(st.integers(-1, 6), st.integers(-1, 6), st.integers(-1, 6), st.integers(-1, 6))))),
           quick=300, thorough=4000, shards=3)
def dharma(s, ctx):
    from emc2.core.model import DHARMA
    nt, nz = s["nt"], s["nz"]
    reg = s["lay"] == "region"
    ny, nx = (s["ny"] + 1, s["nx"]) if reg else (1, 1)
    nc = ny * nx
    rng = np.random.RandomState(s["seed"])
    sh = (nt, nz, nc)
    hyd = ["cl", "ci", "pl", "pi"] + ([] if s["single"] else ["pir"])
    vals = {"t": rng.uniform(200, 300, sh), "q": rng.uniform(0, 1e-2, sh), "z": np.sort(rng.uniform(10, 15000, sh), axis=1),
            "p": np.sort(rng.uniform(100, 1000, sh), axis=1)[:, ::-1], "conv_dat": np.zeros(sh)}
    for h in hyd:
        vals.update({"n" + h: rng.rand(*sh), "q" + h: rng.rand(*sh), "re_strat_" + h: rng.rand(*sh) * 50,
                     "strat_%s_frac" % h: rng.randint(0, 2, sh).astype("int32" if s["ints"] else "float64")})
    if s["f32"]:
        vals = {k: v.astype("float32") if v.dtype == float else v for k, v in vals.items()}
    tdim = "dom_col" if s["lay"] == "dom_col" else "time"
    dated = tdim == "time"
    ds = xr.Dataset(coords={"hgt": np.arange(nz) * 100.})
    if dated:
        ds = ds.assign_coords(time=("time", t64(np.arange(nt)).astype("datetime64[ns]")))
    if reg:
        ds = ds.assign_coords(y=np.arange(ny) * 1., x=np.arange(nx) * 1.)
    for k, v in vals.items():
        ds[k] = ((tdim, "hgt") + (("y", "x") if reg else ()), v.reshape(nt, nz, ny, nx) if reg else v[..., 0],
                 {"units": "u_" + k})
    kw = {"time_dim": tdim, "single_pi_class": s["single"]}
    ts, cells = list(range(nt)), list(range(nc))
    if s["range"] is not None and dated:
        kw["time_range"] = span(s)
        ts = kept_times(s, nt)
    if s["box"] is not None and reg:
        y0, y1, x0, x1 = s["box"]
        y0, y1, x0, x1 = min(y0, y1), max(y0, y1), min(x0, x1), max(x0, x1)
        ky, kx = [j for j in range(ny) if y0 <= j <= y1], [i for i in range(nx) if x0 <= i <= x1]
        if ky and kx:
            kw["bounding_box"] = (x0, y0, x1, y1)
            cells = [j * nx + i for j in ky for i in kx]
    m = store(s, ds, lambda p: sut(DHARMA, p, **kw))
    cols = [(t, c) for c in cells for t in ts]
    compare(s, m, vals, cols, "hgt", tdim, 1e-12)
    for k in vals:
        require(m.ds[k].dtype == np.float64, "%s is read as %s", k, m.ds[k].dtype)
        require(m.ds[k].attrs.get("units") == "u_" + k, "units of %s are lost", k)
    e = np.array([vals["p"][t, :, c].astype(float) * 100 / (RD * vals["t"][t, :, c].astype(float)) for t, c in cols])
    close(m.ds["rho_a"].values, e, "air density", rtol=1e-12)
    if dated:
        name = "time_tmp" if m.stacked_time_dim else "time"
        equal(m.ds[name].values, t64(ts).astype("datetime64[ns]"), "times")
    require(m.hyd_types == hyd, "classes of DHARMA are %s", m.hyd_types)
    for h in hyd:
        for got, want in ((m.q_names_stratiform, "q" + h), (m.N_field, "n" + h), (m.strat_frac_names, "strat_%s_frac" % h),
                          (m.strat_frac_names_for_rad, "strat_%s_frac" % h), (m.strat_re_fields, "re_strat_" + h),
                          (m.q_names_convective, "conv_dat"), (m.conv_frac_names, "conv_dat"), (m.conv_frac_names_for_rad, "conv_dat"),
                          (m.conv_re_fields, "conv_dat")):
            require(got[h] in m.ds, "field of %s is not in the dataset: %s", h, got[h])
            close(m.ds[got[h]].values, m.ds[want].values, "field used for %s in place of %s" % (h, want), rtol=1e-12)
    ctx.nontriv(len(cols) > 1 or len(ts) < nt or len(cells) < nc)
    ctx.count(s["lay"])


# ------------------------------------------------------------------ WRF
def read_wrf(s, ds, z, T, kw):
    """Read a WRF file, with the fields wrf-python would derive (z in m, T in K) given by stand-ins."""
    import emc2.core.model as M
    D = ("Time", "bottom_top", "south_north", "west_east")
    mk = lambda a: xr.DataArray(a, dims=D, coords={"Time": ds["XTIME"].values, "XTIME": ("Time", np.arange(ds.sizes["Time"]) * 60.)})
    saved = {k: getattr(M, k, None) for k in ("getvar", "ALL_TIMES", "WRF_PYTHON_AVAILABLE", "Dataset")}

    def getvar(f, name, units=None, timeidx=0, squeeze=True):
        require(timeidx == "all" and squeeze is False, "WRF fields are not read for all times")
        return {"z": lambda: mk(z if units == "m" else z / 1e3), "tk": lambda: mk(T), "wa": lambda: mk(T * 0)}[name]()

    try:
        M.getvar, M.ALL_TIMES, M.WRF_PYTHON_AVAILABLE = getvar, "all", True
        M.Dataset = lambda p: types.SimpleNamespace(close=lambda: None)
        return store(s, ds, lambda p: sut(M.WRF, p, **kw))
    finally:
        for k, a in saved.items():
            if a is None:
                delattr(M, k)
            else:
                setattr(M, k, a)


@CHECK.sub(st.fixed_dictionaries(dict(RANGE, mp=st.sampled_from(["morrison", "MG2", "nssl"]), gr=st.sampled_from(["none", "hail", "graupel"]),
                                      nu=st.booleans(), up=st.booleans(), cut=st.sampled_from([1e-14, 1e-6]))), quick=200, thorough=3000, shards=3)
def wrf(s, ctx):
    nt, nz, ny, nx = s["nt"], s["nz"], s["ny"], s["nx"]
    rng = np.random.RandomState(s["seed"])
    sh = (nt, nz, ny, nx)
    D = ("Time", "bottom_top", "south_north", "west_east")
    nssl = s["mp"] == "nssl"
    hyd = ["cl", "ci", "pl", "sn", "gr", "ha"] if nssl else ["cl", "ci", "pl", "pi"] + (["gr"] if s["gr"] != "none" else [])
    Q = {"cl": "QCLOUD", "ci": "QICE", "pl": "QRAIN", "pi": "QSNOW", "sn": "QSNOW", "gr": "QGRAUP", "ha": "QHAIL"}
    N = {"cl": "QNDROP" if nssl else "QNCLOUD", "ci": "QNICE", "pl": "QNRAIN", "pi": "QNSNOW", "sn": "QNSNOW", "gr": "QNGRAUPEL", "ha": "QNHAIL"}
    R = {"cl": "REFC", "ci": "REFI", "pl": "REFR", "sn": "REFS", "gr": "REFG", "ha": "REFH"}
    v = {"P": rng.uniform(-500, 500, sh), "PB": np.sort(rng.uniform(2e4, 1e5, sh), axis=1)[:, ::-1], "QVAPOR": rng.uniform(0, 1e-2, sh),
         "CLDFRA": rng.uniform(0, 1, sh)}
    z, T = np.sort(rng.uniform(10, 15000, sh), axis=1), rng.uniform(200, 300, sh)
    for h in hyd:
        off = rng.rand(*sh) < 0.4
        v[Q[h]] = np.where(off, 0, 10 ** rng.uniform(-9, -3, sh))
        v[N[h]] = np.where(off, 0, 10 ** rng.uniform(1, 9, sh))
        if nssl:
            v[R[h]] = rng.uniform(5, 500, sh)
    if nssl:
        v["QVGRAUPEL"], v["QVHAIL"] = v["QGRAUP"] / rng.uniform(20, 900, sh), v["QHAIL"] / rng.uniform(40, 900, sh)
    ds = xr.Dataset({k: (D, a) for k, a in v.items()})
    times = t64(np.arange(nt)).astype("datetime64[ns]")
    ds = ds.assign_coords(XTIME=("Time", times))
    kw = {"mcphys_scheme": s["mp"].upper() if s["up"] else s["mp"], "NUWRF": s["nu"], "q_hyd_truncation_cutoff": s["cut"], "include_gr_class": s["gr"] != "none",
          "gr_class_is_hail": s["gr"] == "hail"}
    if s["range"] is not None:
        kw["time_range"] = span(s)
    m = read_wrf(s, ds, z, T, kw)
    ts = kept_times(s, nt)
    flat = lambda a: a.reshape(nt, nz, ny * nx)
    cols = [(t, c) for c in range(ny * nx) for t in ts]
    p = (v["P"] + v["PB"]) / 100.
    rho = p * 100. / (RD * T)
    e = {"pressure": p, "Z": z, "T": T, "QVAPOR": v["QVAPOR"], "rho_a": rho, "conv_frac": 0 * p}
    require(m.hyd_types == hyd, "classes of WRF are %s", m.hyd_types)
    for h in hyd:
        e[m.q_names_stratiform[h]] = v[Q[h]]
        e[m.q_names_convective[h]] = 0 * p
        e[m.N_field[h]] = v[N[h]] * rho * 1e-6
        e[m.strat_frac_names[h]] = v["CLDFRA"] if s["nu"] and h in ("cl", "ci") else (v[Q[h]] > s["cut"]) * 1.
        if nssl:
            e[m.strat_re_fields[h]] = v[R[h]]
    if nssl:
        for n, q, w in (("RHO_GRAUPEL", "QGRAUP", "QVGRAUPEL"), ("RHO_HAIL", "QHAIL", "QVHAIL")):
            e[n] = np.where(v[q] > 0, v[q] / np.where(v[w] > 0, v[w], 1), 900.)
            if hasattr(m.ds[n].data, "magnitude"):
                require(str(m.ds[n].data.units) == "kilogram / meter ** 3", "units of %s", n)
                m.ds[n] = (m.ds[n].dims, m.ds[n].data.magnitude)
        require(m.variable_density == {"gr": "RHO_GRAUPEL", "ha": "RHO_HAIL"}, "variable densities")
    compare(s, m, {k: flat(a) for k, a in e.items()}, cols, "bottom_top", "Time", 1e-9)
    if s["gr"] != "none" and not nssl:
        require(m.Rho_hyd["gr"].magnitude == (900. if s["gr"] == "hail" else 400.), "graupel density")
    require(m.ds["pressure"].attrs["units"] == "hPa" and m.ds["Z"].attrs["units"] == "m" and m.ds["T"].attrs["units"] == "K", "units")
    ctx.nontriv(len(cols) > 1 or len(ts) < nt)
    ctx.count(s["mp"])


# ------------------------------------------------------------------ post-processed files
@CHECK.sub(st.fixed_dictionaries({"loader": st.sampled_from(["ModelE", "E3SMv1", "CESM2", "DHARMA"]), "nt": st.integers(1, 3),
                                  "nz": st.integers(2, 4), "nsub": st.integers(1, 3), "seed": st.integers(0, 2 ** 31 - 1)}),
           quick=200, thorough=2000)
def processed(s, ctx):
    import emc2.core.model as M
    C = getattr(M, s["loader"])
    hd = {"ModelE": "p", "DHARMA": "hgt"}.get(s["loader"], "lev")
    td = "dom_col" if s["loader"] == "DHARMA" else "time"
    rng = np.random.RandomState(s["seed"])
    d3, sh = ("subcolumn", td, hd), (s["nsub"], s["nt"], s["nz"])
    m0 = synth.base_model()
    m0.time_dim, m0.height_dim = td, hd
    m0.ds = xr.Dataset({k: (d3, rng.rand(*sh), {"units": "dBZ"}) for k in ("sub_col_Ze_tot_strat", "strat_frac_subcolumns_cl", "strat_q_subcolumns_cl",
                                                                          "phase_mask_COSP_2", "conv_frac_subcolumns_pl")},
                       coords={hd: np.arange(s["nz"]) * 1., td: np.arange(s["nt"]) * 1., "subcolumn": np.arange(s["nsub"])})
    with tempfile.TemporaryDirectory(dir=os.environ["VERIF_SCRATCH"]) as d:
        p = os.path.join(d, "sub.nc")
        sut(m0.subcolumns_to_netcdf, p)
        m = sut(C, p, load_processed=True)
    for k, v in m0.ds.items():
        require(k in m.ds and m.ds[k].dims == v.dims, "%s was not read back", k)
        equal(m.ds[k].values, v.values, k)
    require(m.num_subcolumns == s["nsub"], "%s subcolumns were read back, expected %d", m.num_subcolumns, s["nsub"])
    ctx.nontriv(s["nsub"] * s["nt"] > 1)
