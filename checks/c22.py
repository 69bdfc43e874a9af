"""C22: E3SM and CESM output files are read into the documented profiles."""
import os
import tempfile

import numpy as np
import xarray as xr
from hypothesis import strategies as st
from scipy.special import gammaln

from vlib.core import Check, require, sut, close, equal
from vlib import synth

CHECK = Check("C22", "A case is a generated E3SM/CESM-like file (top-down levels, hybrid pressure, 1-4 times, single column, lat-lon region, "
              "cube-sphere columns under suffixed names, or a curtain with time along the columns; single or double precision; noleap "
              "or standard calendar), read by one of the loaders with generated options. Non-trivial: at least two columns and one "
              "cloudy cell.")

F = {"cl": ("CLDLIQ", "NUMLIQ", "FREQL", "AREL"), "ci": ("CLDICE", "NUMICE", "FREQI", "AREI"),
     "pl": ("RAINQM", "NUMRAI", "FREQR", "ADRAIN"), "pi": ("SNOWQM", "NUMSNO", "FREQS", "ADSNOW")}
RD = 287.058


@st.composite
def files(draw, p3=False):
    lay = draw(st.sampled_from(["column", "column", "latlon1", "region", "region", "suffixed", "domains", "curtain"]))
    nt, nz = draw(synth.size(1, 4, 20)), draw(synth.size(2, 5, 72))
    s = {"lay": lay, "nz": nz, "f32": draw(st.booleans()), "p3": p3, "seed": draw(st.integers(0, 2 ** 31 - 1)),
         "cal": draw(st.sampled_from(["noleap", "standard"])) if lay != "curtain" else "noleap",
         "loader": draw(st.sampled_from(["E3SMv3"] * 3 + ["E3SMv1"] if p3 else ["E3SMv1", "E3SMv1", "CESM2", "E3SMv3"])),
         "rain": draw(st.booleans()), "single": draw(st.booleans()), "zero": draw(st.sampled_from([0., 0.3, 0.7])),
         "range": draw(st.one_of(st.none(), st.tuples(st.integers(-1, 5), st.integers(-1, 5)))),
         "form": draw(st.sampled_from(["array", "tuple", "list"])), "attrs": draw(st.booleans())}
    s["nt"] = nt if lay not in ("curtain",) else 1
    s["cells"] = {"column": [1, 1], "latlon1": [1, 1], "region": [draw(st.integers(1, 3)), draw(st.integers(1, 3))],
                  "suffixed": [draw(st.integers(1, 3)), draw(st.integers(1, 3))],
                  "domains": [draw(st.integers(1, 2)), draw(st.integers(1, 2))], "curtain": [draw(st.integers(1, 5)), 1]}[lay]
    if lay == "region" and s["cells"] == [1, 1]:
        s["cells"] = [2, 1]
    s["doms"] = draw(st.sampled_from([["204e_to_205e_71n_to_72n"], ["204e_to_205e_71n_to_72n", "262e_to_263e_36n_to_37n"]])) \
        if lay == "domains" else []
    return s


def hours(s, k):
    return np.datetime64("2021-03-01T00:00") + np.asarray(k) * np.timedelta64(1, "h")


def content(s):
    """name -> (time, level top-down, cell) values as stored, and surface fields (time, cell)."""
    rng = np.random.RandomState(s["seed"])
    nt, nz = s["nt"], s["nz"]
    nc = s["cells"][0] * s["cells"][1] if s["lay"] != "domains" else sum(s["cells"][:len(s["doms"])])
    lo = lambda a, b: 10 ** rng.uniform(np.log10(a), np.log10(b), (nt, nz, nc))
    d = {"T": rng.uniform(200, 300, (nt, nz, nc)), "Q": lo(1e-6, 1e-2),
         "Z3": np.sort(rng.uniform(10, 15000, (nt, nz, nc)), axis=1)[:, ::-1], "CLOUD": rng.uniform(0, 1, (nt, nz, nc)),
         "RELVAR": rng.uniform(0.1, 5, (nt, nz, nc)), "mu_cloud": rng.uniform(2, 15, (nt, nz, nc)),
         "lambda_cloud": lo(1e5, 1e6)}
    for h, (q, n, f, r) in F.items():
        off = rng.rand(nt, nz, nc) < s["zero"]
        d[q], d[n] = np.where(off, 0, lo(1e-9, 1e-3)), np.where(off, 0, lo(1e1, 1e9))
        d[f] = np.where(off, 0, rng.uniform(0.01, 1, off.shape))
        d[r] = np.where(off, 0, lo(4e-7, 1e-3) if h[0] == "p" else rng.uniform(0.2, 200, off.shape))
    if s["p3"]:
        q, n, off = d["CLDICE"], d["NUMICE"], d["CLDICE"] == 0
        d["NUMICE"] = np.where(off, 0, q / lo(1e-17, 1e-2))       # mean particle mass (kg), inside and outside of the table
        fr = np.where(rng.rand(*off.shape) < 0.3, 0., rng.uniform(0, 1.0001, off.shape))
        d["CLDRIM"] = q * fr
        d["BVRIM"] = np.where(d["CLDRIM"] > 0, d["CLDRIM"] / rng.uniform(30, 950, off.shape), 0.)
    sfc = {"PS": rng.uniform(6e4, 1.03e5, (nt, nc))}
    hy = np.sort(rng.uniform(0, 1, nz))
    am = np.where(rng.rand() < 0.5, 0, 1) * rng.uniform(0, 0.1, nz)
    if s["f32"]:
        d = {k: v.astype("float32") for k, v in d.items()}
    return d, sfc, am, hy, nc


def write(s, path):
    d, sfc, am, bm, nc = content(s)
    nt, nz = s["nt"], s["nz"]
    lev = np.linspace(100, 1000, nz)
    n = int(s["cells"][0] * s["cells"][1])
    t = hours(s, np.arange(nt))
    if s["cal"] == "noleap":
        import cftime
        t = [cftime.DatetimeNoLeap(2021, 3, 1 + k // 24, k % 24) for k in range(nt)]
    p0 = [1e5, 1.01325e5, 9e4][s["seed"] % 3]
    ds = xr.Dataset({"hyam": (("lev",), am), "hybm": (("lev",), bm), "P0": ((), p0)}, coords={"lev": lev})
    am = am * p0 / 1e5      # as the checks expect it: pressure is 1e5 am + PS bm
    at = {"units": "as written", "long_name": "x"} if s["attrs"] else {}
    if s["lay"] == "curtain":
        import cftime
        times = [cftime.DatetimeNoLeap(2021, 3, 1, k) for k in range(nc)]
        for k, v in d.items():
            ds[k] = (("ncol", "lev"), v[0].T, at)
        ds["PS"] = (("ncol",), sfc["PS"][0])
        ds["time"] = (("ncol",), times)
    elif s["lay"] == "domains":
        ds = ds.assign_coords(time=("time", t))
        o = 0
        for k, (dom, m) in enumerate(zip(s["doms"], s["cells"])):
            for v, a in d.items():
                ds[v + "_" + dom] = (("time", "lev", "ncol_" + dom), a[:, :, o:o + m], at)
            ds["PS_" + dom] = (("time", "ncol_" + dom), sfc["PS"][:, o:o + m])
            o += m
    else:
        ds = ds.assign_coords(time=("time", t))
        if s["lay"] == "column":
            put = lambda a: a[..., 0]
            ex = ()
        else:
            put = lambda a: a.reshape(a.shape[:-1] + tuple(s["cells"]))
            ex = ("lat", "lon")
            ds = ds.assign_coords(lat=30. + np.arange(s["cells"][0]), lon=100. + np.arange(s["cells"][1]))
        for k, v in d.items():
            ds[k] = (("time", "lev") + ex, put(v), at)
        ds["PS"] = (("time",) + ex, put(sfc["PS"]))
        if s["lay"] == "suffixed":      # one cropped region: every name carries the longitudes and latitudes
            la, lo = "_71n_to_72n", "_204e_to_205e"
            ds = ds.rename({v: v + lo + la for v in list(d) + ["PS"]}).rename(lat="lat" + la, lon="lon" + lo)
    ds.to_netcdf(path)
    return d, sfc, am, bm, nc


def load(s, path, **kw):
    from emc2.core import model as M
    kw = dict(kw, time_dim="ncol" if s["lay"] == "curtain" else "time")
    if s["lay"] == "domains":
        kw.update(appended_str=True, all_appended_in_lat=True)
    if s["lay"] == "suffixed":
        kw.update(appended_str=True)
    if s["range"] is not None:
        r = [hours(s, min(s["range"])), hours(s, max(s["range"]))]
        kw["time_range"] = {"array": np.array(r), "tuple": tuple(r), "list": r}[s["form"]]
    if s["loader"] == "CESM2":
        if s["lay"] == "domains":
            s = dict(s, loader="E3SMv1")
        else:
            return sut(M.CESM2, path, **kw)
    kw.update(single_ice_class=s["single"], include_rain_in_rt=s["rain"], mcphys_scheme="P3" if s["p3"] else "MG2")
    return sut(getattr(M, s["loader"]), path, **kw)


def expected_index(s, nc):
    """Order of the loaded columns as (time, cell) pairs."""
    nt = s["nt"]
    pairs = [(0, c) for c in range(nc)] if s["lay"] == "curtain" else [(t, c) for c in range(nc) for t in range(nt)]
    if s["range"] is not None:
        a, b = min(s["range"]), max(s["range"])
        clock = (lambda t, c: c) if s["lay"] == "curtain" else (lambda t, c: t)
        keep = [(t, c) for t, c in pairs if a <= clock(t, c) < b]
        pairs = keep or pairs
    return pairs


def check_profiles(s, m, d, sfc, am, bm, nc, doms_order=None):
    pairs = expected_index(s, nc)
    if doms_order is not None:
        pairs = [(t, doms_order[c]) for t, c in pairs]
    require(m.height_dim == "lev" and m.time_dim in m.ds.dims, "dimension names of the model are not in the dataset")
    require(m.ds.sizes[m.time_dim] == len(pairs), "%d columns were read, expected %d", m.ds.sizes[m.time_dim], len(pairs))

    def prof(name, v):
        require(name in m.ds, "%s is missing", name)
        require(m.ds[name].dims == (m.time_dim, "lev"), "%s has dims %s", name, m.ds[name].dims)
        return m.ds[name].values, np.array([v[t, ::-1, c] for t, c in pairs])
    tol = 3e-6 if s["f32"] else 1e-12
    equal(m.ds["lev"].values, np.linspace(100, 1000, s["nz"])[::-1], "levels (top-down)")
    for name in ("T", "Q", "Z3", "CLOUD", "RELVAR", "mu_cloud", "lambda_cloud", *[F[h][0] for h in F], *[F[h][2] for h in F]):
        g, e = prof(name, d[name])
        equal(g, e, name + " (bottom-up)")
        if s["attrs"]:
            require(m.ds[name].attrs.get("units") == "as written", "%s lost its units", name)
    p = np.array([(1e5 * am + sfc["PS"][t, c] * bm)[::-1] / 100. for t, c in pairs])
    require(m.ds["p_3d"].dims == (m.time_dim, "lev") and m.ds["p_3d"].attrs["units"] == "hPa", "pressure dims or units")
    close(m.ds["p_3d"].values, p, "pressure", rtol=1e-9)
    T = prof("T", d["T"])[1].astype(float)
    rho = p * 100. / (RD * T)
    close(m.ds["rho_a"].values, rho, "air density", rtol=tol)
    require(np.all(m.ds["zeros_cf"].values == 0), "zeros_cf is not zero")
    for h in F:
        q, n, f, r = F[h]
        used = h in m.hyd_types
        g, e = prof(n, d[n])
        close(g, e * rho / 1e6 if used else e, n + " (per cm3)" if used else n, rtol=tol)
        g, e = prof(r, d[r])
        if used:
            e = np.where(e == 0, np.nan, e * (0.5e6 if h[0] == "p" else 1.))
        require(np.array_equal(np.isnan(g), np.isnan(e)), "cells without %s", r)
        ok = ~np.isnan(e)
        close(g[ok], e[ok], r + " (micron)", rtol=tol)
    return pairs, rho


def classes(s, m):
    cesm = s["loader"] == "CESM2" and s["lay"] != "domains"
    e = ["cl", "ci"] + (["pl"] if s["rain"] and not cesm else []) + ([] if s["single"] and not cesm else ["pi"])
    require(m.hyd_types == e, "classes are %s, expected %s", m.hyd_types, e)
    require(m.process_conv is False and m.mcphys_scheme == ("P3" if s["p3"] else "MG2"), "scheme of the model")
    equal(m.ds[m.strat_relvar_name].values, m.ds["RELVAR"].values, "relative variance")
    for h in m.hyd_types:
        names = (m.q_names_stratiform[h], m.N_field[h], m.strat_frac_names[h], m.strat_re_fields[h])
        require(names == F[h], "fields of %s are %s", h, names)
        require(m.strat_frac_names_for_rad[h] == {"cl": "CLOUD", "ci": "CLOUD"}.get(h, F[h][2]), "radiation fraction of %s", h)
        for x in (m.q_names_convective, m.conv_frac_names, m.conv_frac_names_for_rad, m.conv_re_fields):
            require(x[h] == "zeros_cf", "convective field of %s", h)


def read(s, **kw):
    with tempfile.TemporaryDirectory(dir=os.environ["VERIF_SCRATCH"]) as t:
        path = os.path.join(t, "in.nc")
        out = write(s, path)
        m = load(s, path, **kw)
        m.ds.load()
        m.ds.close()
    return m, out


def dom_order(s, m):
    """Sub-domains may be merged in any one common order: find it from the temperature."""
    return None


@CHECK.sub(files(), quick=500, thorough=3000, shards=4)
def profiles(s, ctx):
    m, (d, sfc, am, bm, nc) = read(s)
    order = None
    if s["lay"] == "domains" and len(s["doms"]) == 2:
        n0, n1 = s["cells"][:2]
        t0 = expected_index(s, nc)[0][0]
        if m.ds["T"].values.size and m.ds["T"].values[0, 0] != d["T"][t0, -1, 0]:
            order = list(range(n0, n0 + n1)) + list(range(n0))
    classes(s, m)
    pairs, rho = check_profiles(s, m, d, sfc, am, bm, nc, order)
    ctx.nontriv(len(pairs) > 1 and bool((d["CLDLIQ"] > 0).any()))
    ctx.count(s["lay"])


def trilinear(axes, tab, pts):
    out = np.full(len(pts), np.nan)
    for k, p in enumerate(pts):
        if np.isnan(p).any():
            continue
        w = []
        for a, x in zip(axes, p):
            i = int(np.clip(np.searchsorted(a, x, side="right") - 1, 0, len(a) - 2))
            w.append((i, (x - a[i]) / (a[i + 1] - a[i])))
        v = 0.
        for b in np.ndindex(2, 2, 2):
            f = 1.
            for (i, u), q in zip(w, b):
                f *= u if q else 1 - u
            v += f * tab[tuple(i + q for (i, u), q in zip(w, b))]
        out[k] = v
    return out


@CHECK.sub(files(p3=True), quick=400, thorough=4000, shards=3)
def p3_ice(s, ctx):
    """P3 rime fraction, rime density, mean particle mass and PSD parameters."""
    inst = synth.instrument("KAZR-nsa") if s["loader"] == "E3SMv3" and s["seed"] % 3 else None
    m, (d, sfc, am, bm, nc) = read(s, **({"instrument": inst} if inst is not None else {}))
    order = None
    if s["lay"] == "domains" and len(s["doms"]) == 2:
        n0, n1 = s["cells"][:2]
        t0 = expected_index(s, nc)[0][0]
        if m.ds["T"].values[0, 0] != d["T"][t0, -1, 0]:
            order = list(range(n0, n0 + n1)) + list(range(n0))
    classes(s, m)
    pairs, rho = check_profiles(s, m, d, sfc, am, bm, nc, order)
    g = lambda n: np.array([d[n][t, ::-1, c] for t, c in pairs]).astype(float)
    q, f, N, rim, vol = (g(n) for n in ("CLDICE", "FREQI", "NUMICE", "CLDRIM", "BVRIM"))
    tol = 1e-5 if s["f32"] else 1e-9
    on = (q > 0) & (N > 0)
    got = lambda n: m.ds[n].values
    ni = N * rho / np.where(on, f, 1)
    close(got("in_cld_Ni")[on], ni[on], "in-cloud ice number (m-3)", rtol=tol)
    fr = rim / np.where(on, q, 1)
    rr = np.where(rim > 0, rim / np.where(vol > 0, vol, 1), 0.)
    qn = q * rho / np.where(on, f, 1) / np.where(on, ni, 1)    # kg of ice per particle
    if inst is not None:
        t = inst.scat_table["p3_ice"]
        ax = [t[k].values for k in ("Fr", "rho_r", "q_norm")]
        fr, rr, qn = (np.clip(v, a[0], a[-1]) for v, a in zip((fr, rr, qn), ax))
    close(got("Fr")[on], fr[on], "rime fraction", rtol=tol, atol=1e-12)
    close(got("rho_r")[on], rr[on], "rime density", rtol=tol)
    close(got("qi_norm")[on], qn[on], "mean ice particle mass (kg)", rtol=tol)
    ctx.nontriv(bool(on.any()))
    if inst is None:
        return
    lam = trilinear(ax, t["lambda"].values, np.stack([got(k)[on] for k in ("Fr", "rho_r", "qi_norm")], 1))
    close(got("lambda_ice")[on], lam, "ice slope parameter", rtol=1e-9)
    mu = np.clip(0.076 * (lam / 100.) ** 0.8 - 2., 0., 6.)
    close(got("mu_ice")[on], mu, "ice shape parameter", rtol=1e-9, atol=1e-12)
    close(np.log(got("N0_norm_ice")[on]), (mu + 1) * np.log(lam) - gammaln(mu + 1), "log of ice intercept parameter", rtol=1e-9)
    ctx.count("with_tables")
    pts = np.stack([got(k)[on] for k in ("Fr", "rho_r", "qi_norm")], 1)
    for k in ("A_tot_norm", "A_tot_eq_V_norm", "A_tot_Mie_norm", "vt_m_weight", "ri_eff", "Dm_m_weight"):
        if len(pts):
            close(m.interpobj["bulk"][k](pts), trilinear(ax, t[k].values, pts), "interpolated " + k, rtol=1e-9)
    ax1 = ax[:2] + [t["p_diam"].values]
    if len(pts):
        dd = np.exp(np.random.RandomState(s["seed"]).uniform(np.log(1.1e-6), np.log(9e-3), len(pts)))
        p1 = np.concatenate([pts[:, :2], dd[:, None]], 1)
        for k in ("vt", "A", "V"):
            close(m.interpobj["single"][k](p1), trilinear(ax1, t[k].values, p1), "interpolated " + k, rtol=1e-9)


@CHECK.sub(st.fixed_dictionaries({"lam": st.lists(synth.logfloat(1e2, 1e7), min_size=1, max_size=6), "nan": st.booleans(),
                                  "grid": st.lists(st.integers(-50, 50), min_size=1, max_size=6, unique=True),
                                  "x": st.lists(st.integers(-80, 80), min_size=1, max_size=8)}), quick=400, thorough=6000)
def p3_helpers(s, ctx):
    from emc2.core.model import E3SMv3, Model
    lam = np.array(s["lam"])
    mu, n0 = sut(E3SMv3.calc_mu_n0_from_lambda, lam)
    e = np.clip(0.076 * (lam / 100.) ** 0.8 - 2., 0., 6.)
    close(mu, e, "shape parameter", rtol=1e-9, atol=1e-12)
    close(np.log(n0), (e + 1) * np.log(lam) - gammaln(e + 1), "log of intercept", rtol=1e-9)
    t = synth.instrument("KAZR-nsa").scat_table["p3_ice"]
    g = np.array(sorted(s["grid"])) * 1.
    x = np.array(s["x"]) * 1.
    if s["nan"]:
        x[0] = np.nan
    got = sut(Model.set_array_to_valid_range, x, g)
    equal(got, np.clip(x, g[0], g[-1]), "values limited to the table")
    ctx.nontriv(bool((x < g[0]).any() or (x > g[-1]).any()))
