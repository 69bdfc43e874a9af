"""C30: output of any supported model simulates as the profiles it documents."""
import os
import tempfile

import numpy as np
import xarray as xr
from hypothesis import strategies as st

from vlib.core import Check, require, sut, close
from vlib import synth
from scipy.special import gamma
from checks import c11, c23

CHECK = Check("C30", "A case is a generated file of one of the supported models (ModelE, E3SM with MG2 or P3, CESM, DHARMA with one or two precipitating "
              "ice classes, WRF with Morrison, MG2 or NSSL; 1-3 times, 2-4 levels, 1-4 grid cells, own layout, units, level order and "
              "precision), loaded and simulated with a stock instrument and generated options, against a generic model holding the "
              "documented profiles. Non-trivial: at least two columns or classes with content.",
              ["wrf-python is not installed: getvar is replaced by a stand-in returning destaggered fields as it documents"])
RAD, LID = ["KAZR-nsa", "WACR-sgp", "XSACR", "NEXRAD", "BASTA-micre", "CSAPR"], ["HSRL", "RL", "CEIL", "Ten64nm", "CALIOP", "MPL"]

# class parameters of each model: density, lidar ratio, LDR slope, fall speed a and b, reference air density, ice fluffiness
COMMON = {"cl": (1000., 18., 0.03, 3e7, 2., 1.0), "ci": (500., 24., 0.35, 700., 1., 1.0), "pl": (1000., 5.5, 0.1, 841.997, 0.8, 1.1),
          "pi": (250., 24., 0.4, 11.72, 0.41, 1.15)}
PAR = {"ModelE": dict(COMMON, fluffy=0.5), "E3SMv1": dict(COMMON, fluffy=1.0), "E3SMv3": dict(COMMON, fluffy=1.0), "CESM2": dict(COMMON, fluffy=1.0),
       "DHARMA": dict(COMMON, pi=(100.,) + COMMON["pi"][1:], pir=(100.,) + COMMON["pi"][1:], fluffy=0.5),
       "morrison": dict(COMMON, fluffy=1.0), "hail": dict(COMMON, gr=(900., 24., 0.4, 114.5, 0.5, 1.23), fluffy=1.0),
       "graupel": dict(COMMON, gr=(400., 24., 0.4, 19.3, 0.37, None), fluffy=1.0),
       "nssl": {"cl": COMMON["cl"][:5], "ci": (459.,) + COMMON["ci"][1:5], "pl": COMMON["pl"][:5], "sn": (100., 24., 0.4, 12.42, 0.8),
                "gr": ("variable", 24., 0.4, 330., 0.8), "ha": ("variable", 24., 0.4, 330., 0.8), "fluffy": 0.5}}


@st.composite
def specs(draw, kind, p3=False):
    s = {"kind": kind, "nt": draw(synth.size(1, 3, 16)), "nz": draw(synth.size(2, 4, 72)), "cells": draw(st.sampled_from([[1, 1], [1, 1], [2, 1], [2, 2], [1, 3]])),
         "seed": draw(st.integers(0, 2 ** 31 - 1)), "f32": draw(st.integers(0, 3)) == 0, "clear": draw(st.sampled_from([0., 0.3, 0.7])),
         "nsub": draw(st.integers(1, 6)), "radar": draw(st.booleans()), "np_seed": draw(st.integers(0, 2 ** 31 - 1)),
         "logic": draw(st.sampled_from(["rad", "rad", "mic", "mic", "emp"])), "mie": draw(st.sampled_from([None, None, True, False])),
         "warm": draw(st.booleans()), "par": draw(st.booleans()), "range": None}
    s["inst"] = draw(st.sampled_from(RAD if s["radar"] else LID))
    if kind == "ModelE":
        s["lev"] = draw(st.sampled_from(["p", "level"]))
    elif kind == "E3SM":
        s["loader"] = draw(st.sampled_from(["E3SMv1", "E3SMv3", "CESM2"]))
        s["rain"], s["single"] = draw(st.booleans()), draw(st.booleans())
        if s["loader"] == "CESM2":
            s["rain"] = s["single"] = False
        s["cal"] = draw(st.sampled_from(["noleap", "standard"]))
        s["p3"] = p3
        if p3:
            s["loader"], s["single"] = "E3SMv3", True
            s["hybrid"] = draw(st.sampled_from([None, 0, 1, 2, False, True]))
            s["lut"] = draw(st.sampled_from(RAD + LID))       # the PSD parameters of ice are the same in the tables of all instruments
    elif kind == "DHARMA":
        s["two"], s["named"] = draw(st.booleans()), draw(st.sampled_from(["dom_col", "time"]))
    elif kind == "WRF":
        s["mp"] = draw(st.sampled_from(["morrison", "MG2", "nssl"]))
        s["gr"] = draw(st.sampled_from(["none", "hail", "graupel"])) if s["mp"] != "nssl" else "none"
        s["nu"], s["cut"] = draw(st.booleans()), draw(st.sampled_from([1e-14, 1e-6]))
        s["up"] = draw(st.booleans())
        if s["mp"] != "nssl" and (s["logic"] == "rad" or s["logic"] == "emp" and not s["radar"]):
            s["logic"] = "mic"          # these files hold no effective radii
    return s


def classes(s):
    if s["kind"] == "E3SM":
        return ["cl", "ci"] + ["pl"] * s["rain"] + ["pi"] * (not s["single"])
    if s["kind"] == "DHARMA":
        return ["cl", "ci", "pl", "pi"] + ["pir"] * s["two"]
    if s["kind"] == "WRF":
        return ["cl", "ci", "pl", "sn", "gr", "ha"] if s["mp"] == "nssl" else ["cl", "ci", "pl", "pi"] + ["gr"] * (s["gr"] != "none")
    return ["cl", "ci", "pl", "pi"]


def held(s):
    """All classes of the file; E3SM files hold those left out of the simulation too."""
    return ["cl", "ci", "pl", "pi"] if s["kind"] == "E3SM" else classes(s)


def params(s):
    if s["kind"] == "WRF":
        return PAR["nssl" if s["mp"] == "nssl" else s["gr"] if s["gr"] != "none" else "morrison"]
    return PAR[s.get("loader", s["kind"])]


def document(s):
    """The profiles (time, level bottom-up, cell) the file documents: thermodynamics, and per class in-scheme content."""
    rng = np.random.RandomState(s["seed"])
    nt, nz, nc = s["nt"], s["nz"], s["cells"][0] * s["cells"][1]
    sh = (nt, nz, nc)
    f = (lambda a: a.astype("float32").astype(float)) if s["f32"] else (lambda a: a)
    log = lambda a, b: f(10 ** rng.uniform(np.log10(a), np.log10(b), sh))
    d = {"T": f(rng.uniform(255, 300, sh) if s["warm"] else rng.uniform(210, 275, sh)), "qv": log(1e-6, 1e-2),
         "z": f(np.sort(rng.uniform(50, 12000, sh), axis=1)), "PS": rng.uniform(8e4, 1.03e5, (nt, nc)), "h": {}}
    d["hy"] = np.sort(rng.uniform(0.2, 1, nz))[::-1]
    d["am"] = rng.uniform(0, 0.1, nz) * (rng.rand() < 0.5)
    if s["kind"] == "E3SM":
        d["p"] = (1e5 * d["am"][None, :, None] + d["PS"][:, None] * d["hy"][None, :, None]) / 100.
        d["relvar"], d["mu"], d["lam"] = f(rng.uniform(0.2, 5, sh)), f(rng.uniform(2, 15, sh)), log(1e5, 1e6)
    else:
        d["p"] = f(np.sort(rng.uniform(150, 1020, sh), axis=1)[:, ::-1])
    d["rho"] = d["p"] * 100. / (287.058 * d["T"])
    cf = f(rng.uniform(0, 0.5, sh)) * (rng.rand() < 0.7) * (s["kind"] == "ModelE")
    rad = f(rng.uniform(0, 1, sh)) * (1 - cf)
    for h in held(s):
        on, con = rng.rand(*sh) >= s["clear"], (rng.rand(*sh) >= s["clear"]) & (cf > 0)
        n = {"cl": (1, 1000), "ci": (1e-4, 1), "pl": (1e-6, 1e-1)}.get(h, (1e-6, 1e-2))
        r = {"cl": (4, 25), "ci": (8, 90), "pl": (30, 800)}.get(h, (30, 400))
        c = {"sq": log(1e-8, 2e-3) * on, "cq": log(1e-8, 2e-3) * con, "N": log(*n) * on, "sf": f(rng.uniform(0, 1, sh) * (1 - cf)) * on,
             "cf": (cf if h in ("cl", "ci") else f(cf * rng.uniform(0.1, 1.9, sh))) * con, "sre": f(rng.uniform(*r, sh)), "cre": f(rng.uniform(*r, sh))}
        c["sfr"], c["cfr"] = c["sf"], c["cf"]
        if s["kind"] == "ModelE":                        # the radiation scheme has one stratiform and one convective cloud fraction
            c["sfr"] = rad
            c["cfr"] = cf if h in ("cl", "ci") else c["cf"]
            c["N"] = log(*n)
        elif s["kind"] == "E3SM":
            c["cq"] = c["cf"] = c["cfr"] = c["cre"] = 0. * on
            if h in ("cl", "ci"):
                c["sfr"] = rad
            c["raw"] = c["N"] * 1e6 / d["rho"]
            if h == "ci" and s["p3"]:
                mass = 10 ** rng.uniform(-15, -6, sh)          # kg per particle, also beyond the tables
                c["raw"] = f(c["sq"] / mass)
                c["N"] = c["raw"] * d["rho"] / 1e6
                c["rim"] = f(c["sq"] * np.where(rng.rand(*sh) < 0.3, 0., rng.uniform(0, 1, sh)))
                c["vol"] = f(c["rim"] / rng.uniform(30, 950, sh))
            if h == "pi" and s["single"]:
                c["use"] = dict(c, sq=0. * on, sf=0. * on, sfr=0. * on)
                c["use"]["raw"] = 0. * on
        elif s["kind"] == "DHARMA":
            c["cq"] = c["cf"] = c["cfr"] = c["cre"] = 0. * on
            c["sf"] = c["sfr"] = on * 1.
        elif s["kind"] == "WRF":
            c["cq"] = c["cf"] = c["cfr"] = 0. * on
            c["cre"] = c["sre"]
            c["sf"] = c["sfr"] = rad if s["nu"] and h in ("cl", "ci") else (c["sq"] > s["cut"]) * 1.
        d["h"][h] = c
    if s["kind"] == "WRF" and s["mp"] == "nssl":
        d["rho_gr"], d["rho_ha"] = (np.where(d["h"][h]["sq"] > 0, rng.uniform(lo, 900, sh), 900.) for h, lo in (("gr", 200), ("ha", 500)))
    d["rad"], d["ccf"] = rad, cf
    return d


def split(s, a):
    return a.reshape(a.shape[:-1] + tuple(s["cells"]))


def load(s, d):
    from emc2.core import model as M
    nt, nz = s["nt"], s["nz"]
    one = s["cells"] == [1, 1]
    cast = lambda a: np.asarray(a, dtype="float32" if s["f32"] else float)
    lat, lon = 10. + np.arange(s["cells"][0]), 20. + np.arange(s["cells"][1])
    t = c23.t64(np.arange(nt)).astype("datetime64[ns]")
    H = d["h"]
    win = {} if s.get("range") is None else {"time_range": s["range"]}
    if s["kind"] == "ModelE":
        v = {"t": d["T"], "q": d["qv"], "z": d["z"], "p_3d": d["p"], "cldmcr": d["ccf"], "cldssr": d["rad"]}
        for h in H:
            u = h.upper()
            v.update({"n" + h: H[h]["N"], "q" + h: H[h]["sq"], "Q%smc" % u: H[h]["cq"], "cldss" + h: H[h]["sf"], "cldmc" + h: H[h]["cf"],
                      "re_ss" + h: H[h]["sre"], "re_mc" + h: H[h]["cre"]})
        ds = xr.Dataset(coords={"time": ("time", t), s["lev"]: np.linspace(1000, 100, nz)})
        ex = () if one else ("lat", "lon")
        if ex:
            ds = ds.assign_coords(lat=lat, lon=lon)
        for k, a in v.items():
            ds[k] = (("time", s["lev"]) + ex, cast(a[..., 0] if one else split(s, a)))
        for k, u in (("p_3d", "mb"), ("t", "K"), ("z", "m")):
            ds[k].attrs["units"] = u
        return c23.store(s, ds, lambda p: sut(M.ModelE, p, **win))
    if s["kind"] == "E3SM":
        F = {"cl": ("CLDLIQ", "NUMLIQ", "FREQL", "AREL"), "ci": ("CLDICE", "NUMICE", "FREQI", "AREI"),
             "pl": ("RAINQM", "NUMRAI", "FREQR", "ADRAIN"), "pi": ("SNOWQM", "NUMSNO", "FREQS", "ADSNOW")}
        v = {"T": d["T"], "Q": d["qv"], "Z3": d["z"], "CLOUD": d["rad"], "RELVAR": d["relvar"], "mu_cloud": d["mu"], "lambda_cloud": d["lam"]}
        for h, (q, n, f, r) in F.items():
            c = H[h]
            v.update({q: c["sq"], n: c["raw"], f: c["sf"], r: np.where(c["sq"] > 0, c["sre"], 0.) * (2e-6 if h[0] == "p" else 1.)})
        if s["p3"]:
            v.update(CLDRIM=H["ci"]["rim"], BVRIM=H["ci"]["vol"])
        if s["cal"] == "noleap":
            import cftime
            t = [cftime.DatetimeNoLeap(2021, 3, 1, k) for k in range(nt)]
        ds = xr.Dataset({"hyam": (("lev",), d["am"][::-1]), "hybm": (("lev",), d["hy"][::-1]), "P0": ((), 1e5)},
                        coords={"lev": np.linspace(100, 1000, nz), "time": ("time", t)})
        ex = () if one else ("lat", "lon")
        if ex:
            ds = ds.assign_coords(lat=lat, lon=lon)
        for k, a in v.items():
            ds[k] = (("time", "lev") + ex, cast((a[..., 0] if one else split(s, a))[:, ::-1]))
        ds["PS"] = (("time",) + ex, d["PS"][:, 0] if one else split(s, d["PS"]))
        for k, u in (("T", "K"), ("Z3", "m")):
            ds[k].attrs["units"] = u
        kw = {} if s["loader"] == "CESM2" else {"single_ice_class": s["single"], "include_rain_in_rt": s["rain"], "mcphys_scheme": "MG2"}
        if s["p3"]:
            kw.update(mcphys_scheme="P3", instrument=synth.instrument(s["lut"]))
            if s["hybrid"] is not None:
                kw["use_hybrid_scat"] = s["hybrid"]
        return c23.store(s, ds, lambda p: sut(getattr(M, s["loader"]), p, **kw, **win))
    if s["kind"] == "DHARMA":
        reg = not one
        td = "time" if reg else s["named"]
        ds = xr.Dataset(coords={"hgt": np.arange(nz) * 100.})
        if td == "time":
            ds = ds.assign_coords(time=("time", t))
        if reg:
            ds = ds.assign_coords(y=lat, x=lon)
        v = {"t": d["T"], "q": d["qv"], "z": d["z"], "p": d["p"], "conv_dat": 0 * d["T"]}
        for h in H:
            v.update({"n" + h: H[h]["N"], "q" + h: H[h]["sq"], "re_strat_" + h: H[h]["sre"], "strat_%s_frac" % h: H[h]["sf"]})
        for k, a in v.items():
            ds[k] = ((td, "hgt") + (("y", "x") if reg else ()), cast(split(s, a) if reg else a[..., 0]))
        for k, u in (("p", "hPa"), ("t", "K"), ("z", "m")):
            ds[k].attrs["units"] = u
        return c23.store(s, ds, lambda p: sut(M.DHARMA, p, time_dim=td, single_pi_class=not s["two"], **win))
    nssl = s["mp"] == "nssl"
    D = ("Time", "bottom_top", "south_north", "west_east")
    Q = {"cl": "QCLOUD", "ci": "QICE", "pl": "QRAIN", "pi": "QSNOW", "sn": "QSNOW", "gr": "QGRAUP", "ha": "QHAIL"}
    N = {"cl": "QNDROP" if nssl else "QNCLOUD", "ci": "QNICE", "pl": "QNRAIN", "pi": "QNSNOW", "sn": "QNSNOW", "gr": "QNGRAUPEL", "ha": "QNHAIL"}
    R = {"cl": "REFC", "ci": "REFI", "pl": "REFR", "sn": "REFS", "gr": "REFG", "ha": "REFH"}
    v = {"P": d["p"] * 100. - 9e4, "PB": 0 * d["p"] + 9e4, "QVAPOR": d["qv"], "CLDFRA": d["rad"]}
    for h in H:
        v[Q[h]], v[N[h]] = H[h]["sq"], H[h]["N"] * 1e6 / d["rho"]
        if nssl:
            v[R[h]] = H[h]["sre"]
    if nssl:
        v["QVGRAUPEL"], v["QVHAIL"] = H["gr"]["sq"] / d["rho_gr"], H["ha"]["sq"] / d["rho_ha"]
    ds = xr.Dataset({k: (D, split(s, a)) for k, a in v.items()}).assign_coords(XTIME=("Time", t))
    kw = {"mcphys_scheme": s["mp"].upper() if s["up"] else s["mp"], "NUWRF": s["nu"], "q_hyd_truncation_cutoff": s["cut"], "include_gr_class": s["gr"] != "none",
          "gr_class_is_hail": s["gr"] == "hail"}
    return c23.read_wrf(s, ds, split(s, d["z"]), split(s, d["T"]), kw)


def reference(s, d):
    """A generic model holding the documented profiles, one column per (cell, time), with the class parameters of the scheme."""
    from emc2.core.instrument import ureg
    fam = "CESM" if s["kind"] == "E3SM" else "ModelE"
    hs = classes(s)
    m = synth.base_model(fam, {"WRF": s.get("mp"), "DHARMA": "MG"}.get(s["kind"], "MG2"), classes(s))
    cols = [(t, c) for c in range(s["cells"][0] * s["cells"][1]) for t in range(s["nt"])]
    g = lambda a: np.array([a[t, :, c] for t, c in cols])
    P, kg = params(s), ureg.kg / ureg.m ** 3
    one = ureg.dimensionless
    for n in ("q_names_convective", "q_names_stratiform", "N_field", "conv_frac_names", "strat_frac_names", "conv_frac_names_for_rad",
              "strat_frac_names_for_rad", "conv_re_fields", "strat_re_fields"):
        x = getattr(m, n)
        for h in list(x):
            if h not in held(s):
                del x[h]
    m.Rho_hyd = {h: P[h][0] if P[h][0] == "variable" else P[h][0] * kg for h in hs}
    m.lidar_ratio, m.LDR_per_hyd = {h: P[h][1] * one for h in hs}, {h: P[h][2] / kg for h in hs}
    m.vel_param_a = {h: P[h][3] * ureg.meter ** (1 - P[h][4]) / ureg.second for h in hs}
    m.vel_param_b = {h: P[h][4] * one for h in hs}
    m.Vd_rhoa_scaling_ref = {h: P[h][5] for h in hs if len(P[h]) > 5}
    m.fluffy = {h: P["fluffy"] * one for h in hs if h not in ("cl", "pl")}
    m.process_conv = s["kind"] in ("ModelE", "DHARMA")
    m.model_name = {"ModelE": "ModelE3", "E3SM": s.get("loader")}.get(s["kind"], s["kind"])
    synth.thermo_ds(m, {"p": g(d["p"]), "qv": g(d["qv"]), "T": g(d["T"]), "z": g(d["z"]), "nt": len(cols), "nz": s["nz"]})
    for h, c in d["h"].items():
        c = c.get("use", c)
        if h not in hs:                  # a class left out of the simulation keeps the numbers of the file (per kg)
            c = dict(c, N=c["raw"])
        for n, k in (("sq_", "sq"), ("cq_", "cq"), ("n_", "N"), ("sf_", "sf"), ("cf_", "cf"), ("sfr_", "sfr"), ("cfr_", "cfr"), ("sre_", "sre"), ("cre_", "cre")):
            a = c[k]
            if s["kind"] == "E3SM" and k == "sre":
                a = np.where(c["sq"] > 0, a, np.nan)
            m.ds[n + h] = synth.to_arr(g(a))
    if s["kind"] == "E3SM":
        m.strat_relvar_name = "relvar"
        m.mu_field, m.lambda_field = ({"cl": n, "ci": None, "pl": None, "pi": None} for n in ("mu", "lam"))
        for n in ("relvar", "mu", "lam"):
            m.ds[n] = synth.to_arr(g(d[n]))
    if s.get("p3"):
        ice_tables(s, d, m, g)
    if s["kind"] == "WRF" and s["mp"] == "nssl":
        m.variable_density = {"gr": "rg", "ha": "rh"}
        m.ds["rg"], m.ds["rh"] = synth.to_arr(g(d["rho_gr"])) * kg, synth.to_arr(g(d["rho_ha"])) * kg
    return m, len(cols)


def ice_tables(s, d, m, g):
    """P3 ice: rime fraction, rime density and particle mass from the file, the rest from the ice table."""
    from scipy.interpolate import RegularGridInterpolator as RGI
    m.rad_scheme_family = m.mcphys_scheme = "P3"
    m.vel_param_a["ci"] = m.vel_param_b["ci"] = None
    m.Vd_rhoa_scaling_ref = {"cl": None, "ci": 0.8254, "pl": 1.1}
    t = synth.instrument(s["lut"]).scat_table["p3_ice"]
    q, rim, vol, fr, n, rho = (g(x) for x in [d["h"]["ci"][k] for k in ("sq", "rim", "vol", "sf", "N")] + [d["rho"]])
    on = (q > 0) & (n > 0) & (fr > 0)
    one = lambda a: np.where(on, a, 1)
    val = {"in_cld_Ni": n * 1e6 / one(fr), "Fr": rim / one(q), "rho_r": np.where(rim > 0, rim / np.where(rim > 0, vol, 1), 0.),
           "qi_norm": q * rho / one(n * 1e6)}
    ax = [t[k].values for k in ("Fr", "rho_r", "q_norm")]
    for k, a in zip(("Fr", "rho_r", "qi_norm"), ax):
        val[k] = np.clip(val[k], a[0], a[-1])
    lam = c11.tri(t, "lambda", val["Fr"], val["rho_r"], val["qi_norm"])
    mu = np.clip(0.076 * (lam / 100) ** 0.8 - 2, 0, 6)
    val.update(lambda_ice=lam, mu_ice=mu, N0_norm_ice=lam ** (mu + 1) / gamma(mu + 1))
    for k, a in val.items():
        m.ds[k] = synth.to_arr(np.where(on, a, np.nan))
    m.mu_field["ci"], m.lambda_field["ci"] = "mu_ice", "lambda_ice"
    m.p3_kws = {"in_cld_Ni_name": "in_cld_Ni", "N0_ice_name": "N0_norm_ice", "use_hybrid_scat": s["hybrid"] or 0, "q_rim_name": "CLDRIM",
                "rim_vol_name": "BVRIM"}
    m.interpobj = {"bulk": {k: RGI(ax, t[k].values, bounds_error=False) for k in
                            ("A_tot_norm", "A_tot_eq_V_norm", "A_tot_Mie_norm", "ri_eff", "rho_m_weight", "vt_m_weight")},
                   "single": {k: RGI(ax[:2] + [t["p_diam"].values], t[k].values, bounds_error=False) for k in ("vt", "A", "V")}}


def simulate(s, m, i):
    from emc2.simulator.main import make_simulated_data
    np.random.seed(s["np_seed"])
    kw = {"use_rad_logic": s["logic"] == "rad", "use_empiric_calc": s["logic"] == "emp", "parallel": s["par"]}
    if s["mie"] is not None:
        kw["mie_for_ice"] = s["mie"]
    return sut(make_simulated_data, m, i, s["nsub"], **kw)


def sheet(s, m):
    """The model holds the class parameters of its scheme, in their units."""
    P = params(s)
    num = lambda x, u: x if isinstance(x, str) else x.to(u).magnitude
    for h in classes(s):
        a, b = P[h][3], P[h][4]
        want = {"Rho_hyd": (P[h][0], "kg/m**3"), "lidar_ratio": (P[h][1], ""), "LDR_per_hyd": (P[h][2], "m**3/kg"), "vel_param_b": (b, ""),
                "vel_param_a": (a, "m**%s/s" % (1 - b))}
        if h[-1] != "l" and h in m.fluffy:
            want["fluffy"] = (P["fluffy"], "")
        for n, (w, u) in want.items():
            x = getattr(m, n)[h]
            if x is None:                # the fall speed of P3 ice is in its tables
                require(s.get("p3") and h == "ci" and n[:3] == "vel", "%s of %s is missing", n, h)
                continue
            g = sut(num, x, u)
            require(g == w if isinstance(w, str) else abs(g - w) <= 1e-9 * abs(w), "%s of %s is %s, expected %s", n, h, g, w)


def check(s, ctx):
    d = document(s)
    m = load(s, d)
    sheet(s, m)
    ref, ncol = reference(s, d)
    i, j = synth.instrument(s["inst"]), synth.instrument(s["inst"])
    m, ref = simulate(s, m, i), simulate(s, ref, j)
    tol = 1e-2 if s["f32"] else 1e-6
    n = 0
    for v in ref.ds:
        if "subcolumn" not in ref.ds[v].dims:
            continue
        require(v in m.ds, "%s is missing", v)
        g, e = m.ds[v], ref.ds[v]
        require(sorted(g.dims) == sorted(("subcolumn", m.time_dim, m.height_dim)), "%s has dims %s", v, g.dims)
        g, e = g.transpose("subcolumn", m.time_dim, m.height_dim), e.transpose("subcolumn", "time", "height")
        require(g.shape == e.shape, "%s has shape %s, expected %s", v, g.shape, e.shape)
        a = e.values.astype(float)
        close(g.values.astype(float), a, "%s of the loaded file" % v, rtol=tol, atol=1e-12 * np.nanmax(np.abs(a), initial=0.) + (1e-3 if "Ze" in v or "Vd" in v else 0.) * s["f32"])
        n += 1
    require(not [v for v in m.ds if "subcolumn" in m.ds[v].dims and v not in ref.ds], "unexpected subcolumn fields")
    on = sum(bool(c["sq"].any() or c["cq"].any()) for c in d["h"].values())
    ctx.nontriv(n > 0 and (ncol > 1 or on > 1))
    ctx.count(s["logic"])


@CHECK.sub(specs("ModelE"), quick=120, thorough=1200, shards=2)
def modele(s, ctx):
    check(s, ctx)


@CHECK.sub(specs("E3SM"), quick=90, thorough=1600, shards=2)
def e3sm_cesm(s, ctx):
    if s["logic"] == "rad" and s["rain"]:
        return                          # recorded finding cesm_rain_psd of C08
    check(s, ctx)


@CHECK.sub(specs("E3SM", p3=True), quick=90, thorough=1600, shards=2)
def e3sm_p3(s, ctx):
    if s["logic"] == "rad" and s["rain"]:
        return                          # recorded finding cesm_rain_psd of C08
    check(s, ctx)


@CHECK.sub(specs("DHARMA"), quick=60, thorough=1200, shards=2)
def dharma(s, ctx):
    check(s, ctx)


@CHECK.sub(specs("WRF"), quick=90, thorough=1600, shards=2)
def wrf(s, ctx):
    check(s, ctx)
