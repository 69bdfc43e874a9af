"""C24: look-up tables and instruments: units on loading, consistency, options."""
import os
import tempfile

import numpy as np
import xarray as xr
from hypothesis import strategies as st

from vlib.core import Check, Violation, require, sut, close, equal, labelled
from vlib import synth, mie

CHECK = Check("C24", "A case is a generated table file in one of the packaged formats, or a row of a packaged table of a generated instrument "
              "with generated options (site, supercooled, DHARMA ice), or a generated frequency or wavelength. Non-trivial: the row has "
              "non-zero scattering, or the file has more than one row.")

num = synth.logfloat(1e-12, 1e4)


def table_file(names, n, rng, sep):
    cols = {k: 10 ** rng.uniform(-9, 4, n) for k in names}
    if n > 1 and rng.rand() < 0.3:                # two rows may share a size
        for k in names[:2]:
            cols[k][-1] = cols[k][0]
    lines = [sep.join(("%.9e" % cols[k][i]).rjust(rng.randint(16, 24)) for k in names) for i in range(n)]
    return {k: np.array([float("%.9e" % x) for x in v]) for k, v in cols.items()}, "\n".join(lines) + "\n"


@CHECK.sub(st.fixed_dictionaries({"kind": st.sampled_from(["mie", "scat", "bulk"]), "mdad": st.booleans(), "radar": st.booleans(),
                                  "n": st.integers(1, 8), "seed": st.integers(0, 2 ** 31 - 1)}), quick=300, thorough=5000, shards=2)
def files(s, ctx):
    """Cross sections in um2, diameters in um (radii in Mie files), volumes in um3 become SI; efficiencies stay, backscatter per sr."""
    from emc2.io import load_mie_file, load_scat_file, load_bulk_scat_file
    rng = np.random.RandomState(s["seed"])
    um = 1e-6
    with tempfile.TemporaryDirectory(dir=os.environ["VERIF_SCRATCH"]) as d:
        p = os.path.join(d, "t.dat")
        if s["kind"] == "mie":
            names = ["wavelength", "p_diam", "size_parameter", "compre_real", "compre_im", "scat_p", "alpha_p", "beta_p", "scat_eff", "ext_eff", "backscat_eff"]
            cols, txt = table_file(names, s["n"], rng, " ")
            open(p, "w").write(txt)
            got = sut(load_mie_file, p)
            f = {"p_diam": 2 * um, "scat_p": um ** 2, "alpha_p": um ** 2, "beta_p": um ** 2 / (4 * np.pi), "backscat_eff": 1 / (4 * np.pi)}
            exp = {k: v * f.get(k, 1.) for k, v in cols.items()}
        elif s["kind"] == "scat":
            first = "frequency" if s["radar"] else "wavelength"
            names = [first, "p_diam", "p_diam_eq_A", "p_diam_eq_V"] + (["p_diam_eq_VdivA"] if s["mdad"] else []) + \
                ["V", "A", "beta_p", "scat_p", "alpha_p"] + ([] if s["mdad"] else ["beta_p_cross"])
            cols, txt = table_file(names, s["n"], rng, ",")
            open(p, "w").write(txt)
            got = sut(load_scat_file, p, s["radar"], **({"param_type": "mDAD"} if s["mdad"] else {}))
            f = {"V": um ** 3, first: 1.}
            for k in names:
                if k.startswith("p_diam"):
                    f[k] = um
            exp = {k: v * f.get(k, um ** 2) for k, v in cols.items()}
            require(got[first].attrs["units"] == ("GHz" if s["radar"] else "microns"), "units of %s", first)
        else:
            names = ["D_e", "Q_scat", "Q_ext", "Q_back", "lidar_ratio"] if s["mdad"] else \
                ["r_e", "Q_scat", "Q_ext", "Q_back", "Q_back_cross", "LDR", "lidar_ratio"]
            cols, txt = table_file(names, s["n"], rng, ",")
            open(p, "w").write(txt)
            got = sut(load_bulk_scat_file, p, **({"param_type": "mDAD"} if s["mdad"] else {}))
            exp = dict(cols)
            if s["mdad"]:
                exp["r_e"] = cols["D_e"] / 2.
    for k, v in exp.items():
        require(k in got, "%s is missing", k)
        close(got[k].values.astype(float), v, k, rtol=1e-9)
    labelled(got)
    ctx.nontriv(s["n"] > 1)
    ctx.count(s["kind"])


@CHECK.sub(st.fixed_dictionaries({"v": synth.logfloat(1e-3, 1e3), "unit": st.sampled_from(["GHz", "MHz", "Hz", "um", "nm", "mm", "cm"])}),
           quick=200, thorough=2000)
def frequency(s, ctx):
    from emc2.core.instrument import Instrument, ureg
    u = {"GHz": ("f", 1e9), "MHz": ("f", 1e6), "Hz": ("f", 1.), "um": ("l", 1e-6), "nm": ("l", 1e-9), "mm": ("l", 1e-3), "cm": ("l", 1e-2)}[s["unit"]]
    q = s["v"] * ureg(s["unit"])
    i = sut(Instrument, **({"frequency": q} if u[0] == "f" else {"wavelength": q}))
    f = s["v"] * u[1] if u[0] == "f" else 299792458. / (s["v"] * u[1])
    close(i.freq, f, "frequency (Hz)", rtol=1e-9)
    close(i.wavelength, 299792458. / f * 1e6, "wavelength (um)", rtol=1e-9)
    try:
        Instrument()
    except ValueError:
        ctx.nontriv()
        return
    require(False, "an instrument without frequency and wavelength was accepted")


NAMES = {"CSAPR": (6.25e9, True), "XSACR": (9.71e9, True), "NEXRAD": (3e9, True), "CEIL": (0.91, True), "Ten64nm": (1.064, True),
         "HSRL1064": (1.064, True), "RL": (0.355, False), "HSRL": (0.532, False), "MPL": (0.532, False), "CALIOP": (0.532, False),
         "KAZR": (34.86e9, True), "WACR": (None, True)}
THRESH = {2: ([0., 0.1, 0.100001, 0.2, 1.], [2e-5, 2e-5, 2e-6, 5e-7, 5e-7]),                 # ice, then undefined 2 and 1, then liquid
          4: ([0., 0.1, 0.100001, 0.2, 0.200001, 1.], [2e-5, 2e-5, 2e-6, 9e-6, 1., 1.]),
          3: ([0., 0.1, 0.100001, 0.2, 0.200001, 1.], [2e-5, 2e-5, 1.41421e-4, 1e-3, 1., 1.]),
          1: ([0., 0.2, 0.200001, 1.], [2e-5, 1e-3, 1., 1.])}
RADARS = ("CSAPR", "XSACR", "NEXRAD", "KAZR", "WACR")
_CACHE = {}


def make(name, site, cold, dharma):
    import emc2
    key = (name, site, cold, dharma)
    if key not in _CACHE:
        if len(_CACHE) > 24:
            _CACHE.clear()
        a = ([site] if site else []) + ([cold] if NAMES[name][1] else [])
        if name == "CSAPR":
            a += [90.]
        _CACHE[key] = sut(getattr(emc2.core.instruments, name), *(a + (["DHARMA"] if dharma else [])))
    return _CACHE[key]


def bad_1064(t):
    """Known finding: the packaged -10 C liquid table at 1064 nm was made with an imaginary index of -4.78."""
    return abs(float(t["wavelength"][0]) - 1.064) < 1e-6 and abs(float(t["compre_im"][0]) + 4.7818298) < 1e-6


def _probe():
    t = make("HSRL1064", None, True, False).mie_table["cl"]
    return bad_1064(t) and bool((t["alpha_p"] < t["scat_p"]).any())


FINDINGS = {"liq_1064_table": _probe}


@st.composite
def picks(draw):
    n = draw(st.sampled_from(sorted(NAMES)))
    site = {"KAZR": ["sgp", "nsa", "awr", "ena", "mos", "NSA"], "WACR": ["sgp", "nsa", "awr", "mos", "micre", "SGP"]}.get(n)
    return {"name": n, "site": draw(st.sampled_from(site)) if site else None, "cold": draw(st.booleans()), "dharma": draw(st.booleans()),
            "row": draw(st.integers(0, 99)), "cls": draw(st.sampled_from(["cl", "pl", "ci", "pi"])),
            "p3": [draw(st.integers(0, 3)), draw(st.integers(0, 4)), draw(st.integers(0, 99))]}


@CHECK.sub(picks(), quick=700, thorough=6000, shards=4)
def instruments(s, ctx):
    import emc2
    try:
        i = make(s["name"], s["site"], s["cold"], s["dharma"])
    except Violation as e:      # not every site has every radar
        if not isinstance(e.__cause__, ValueError):
            raise
        require(s["name"] == "WACR" and s["site"] == "nsa", "%s at %s was refused", s["name"], s["site"])
        return
    radar = s["name"] in RADARS
    require(i.instrument_class == ("radar" if radar else "lidar"), "instrument class")
    f0 = NAMES[s["name"]][0]
    if f0 is not None:
        close(i.freq if radar else i.wavelength, f0, "frequency or wavelength", rtol=1e-9)
    close(i.freq * i.wavelength * 1e-6, 299792458., "frequency times wavelength", rtol=1e-9)
    if not radar:                     # extinction limit, viewing direction, multiple scattering, phase thresholds
        space = s["name"] == "CALIOP"
        equal((i.ext_OD, i.OD_from_sfc, i.eta), (4, not space, 0.7 if space else 1), "extinction limit, direction and multiple scattering")
        if s["name"] in ("RL", "HSRL", "MPL", "CALIOP"):
            equal([t["class_ind"] for t in i.beta_p_phase_thresh], [2, 4, 3, 1], "order of the phase classes")
            for t in i.beta_p_phase_thresh:
                close(np.array(t["LDR"]), np.array(THRESH[t["class_ind"]][0]), "depolarisation ratios of class %d" % t["class_ind"], rtol=1e-9)
                close(np.array(t["beta_p"]), np.array(THRESH[t["class_ind"]][1]), "backscatter thresholds of class %d" % t["class_ind"], rtol=1e-9)
        else:
            require(not i.beta_p_phase_thresh, "%s has phase thresholds", s["name"])
    lam = i.wavelength * 1e-6
    # --- spheres: a row of the table against the Mie solution for its own refractive index
    t = i.mie_table[s["cls"]]
    n = t["p_diam"].size
    k = int(s["row"] * (n - 1) // 99)
    D = float(t["p_diam"][k])
    wl = float(t["wavelength"][k]) * 1e-6
    require(abs(wl / lam - 1) < 0.08, "the %s table of %s is for %.4g um", s["cls"], s["name"], wl * 1e6)
    A, x = np.pi / 4 * D ** 2, np.pi * D / wl
    close(float(t["size_parameter"][k]), x, "size parameter", rtol=1e-5)
    m = complex(float(t["compre_real"][k]), abs(float(t["compre_im"][k])))
    al, sc, be = (float(t[v][k]) for v in ("alpha_p", "scat_p", "beta_p"))
    known = s["cls"] in ("cl", "pl") and bad_1064(t)
    ctx.count("known_1064_table", known)
    if 0.01 < x < (200 if radar else 30) and not known:
        e = mie.efficiencies(m, x)
        close(np.array([al, sc]), np.array(e[:2]) * A, "extinction and scattering cross sections (m2)", rtol=0.06 if not radar else 0.02)
        ctx.nontriv(al > 0)
        if radar:
            close(be, e[2] * A / (4 * np.pi), "backscatter cross section (m2 per sr)", rtol=0.1, atol=0.03 * al / (4 * np.pi))
    if s["cls"] in ("cl", "pl") and not known:
        close(m.real, np.sqrt(i.eps_liq).real, "refractive index of liquid", rtol=2e-3)
        close(m.imag, abs(np.sqrt(i.eps_liq).imag), "absorption index of liquid", rtol=0.05, atol=1e-11)
    elif known:
        close(np.array([np.sqrt(i.eps_liq).real, np.sqrt(i.eps_liq).imag]), np.array([1.3235222, 1.2181699e-6]), "refractive index of liquid at 1064 nm", rtol=1e-6)
    if s["cls"] == "pi":
        other = make(s["name"], s["site"], s["cold"], not s["dharma"]).mie_table["pi"]["compre_real"].values[0]
        require((m.real < other) == s["dharma"], "DHARMA snow (100 kg/m3) must scatter less than the default: index %.3f against %.3f", m.real, other)
    if NAMES[s["name"]][1]:
        warm = make(s["name"], s["site"], not s["cold"], s["dharma"])
        for a, b, w in ((i.mie_table["cl"]["compre_im"], warm.mie_table["cl"]["compre_im"], "Mie"),
                        (i.bulk_table["E3_liq"]["Q_back"], warm.bulk_table["E3_liq"]["Q_back"], "ModelE bulk"),
                        (i.bulk_table["CESM_liq"]["Q_back"], warm.bulk_table["CESM_liq"]["Q_back"], "CESM bulk")):
            require(not np.array_equal(a.values, b.values), "cold and warm %s liquid tables are the same", w)
        require(i.eps_liq != warm.eps_liq, "cold and warm dielectric constants are the same")
    # --- P3 ice: packaged file values in SI, table limits and pointers
    p3 = i.scat_table["p3_ice"]
    q = (s["p3"][0], s["p3"][1], int(s["p3"][2] * 465 // 99))
    raw = raw_p3(i.instrument_str)
    for v, c in (("beta_p", 1e-12), ("alpha_p", 1e-12), ("A", 1e-12), ("V", 1e-18), ("beta_p_eq_V", 1e-12), ("alpha_p_eq_V", 1e-12),
                 ("beta_p_eq_VdivA", 1e-12), ("alpha_p_eq_VdivA", 1e-12), ("D_eq_vol_sphere", 1e-6), ("D_eq_VdivA_sphere", 1e-6)):
        close(float(p3[v].values[q]), float(raw[v].values[q]) * c, "P3 " + v, rtol=1e-9)
    qn = q[:2] + (int(s["p3"][2] * 49 // 99),)
    for v in ("A_tot_norm", "A_tot_Mie_norm", "A_tot_eq_V_norm", "A_tot_eq_VdivA_norm"):
        close(float(p3[v].values[qn]), float(raw[v].values[qn]) * 1e-12, "P3 " + v, rtol=1e-9)
    for v in ("lambda", "ri_eff", "vt_m_weight", "Q_ext_bulk", "Q_back_bulk", "Dm_m_weight"):
        close(float(p3[v].values[qn]), float(raw[v].values[qn]), "P3 " + v, rtol=1e-9)
    close(float(p3["p_diam"][q[2]]), float(raw["d"][q[2]]) * 1e-6, "P3 diameter (m)", rtol=1e-9)
    vt = float(p3["vt"].values[q])
    require(np.isfinite(vt) and vt > 0, "P3 fall speed is %s", vt)
    if np.isfinite(raw["vt"].values[q]):
        close(vt, float(raw["vt"].values[q]), "P3 fall speed", rtol=1e-9)
    if p3["D_eq_vol_sphere"].values[q] > 1e-6:
        close(float(p3["V"].values[q]), np.pi / 6 * float(p3["D_eq_vol_sphere"].values[q]) ** 3, "volume of the P3 equal-volume sphere", rtol=2e-3)
    for a, b in (("p3_ice", i.scat_table["p3_ice"]), ("mie_ice_P3_PSD", i.scat_table["p3_ice"]), ("p3_liq", i.bulk_table["CESM_liq"])):
        equal(i.bulk_table[a]["Q_back_bulk" if a != "p3_liq" else "Q_back"].values, b["Q_back_bulk" if a != "p3_liq" else "Q_back"].values, a)
    # --- non-spherical ice: geometry of a row
    for kk in ("E3_ice", "CESM_ice"):
        t = i.scat_table[kk]
        k = int(s["row"] * (t["p_diam"].size - 1) // 99)
        D, a, v = (float(t[c][k]) for c in ("p_diam", "A", "V"))
        if D > 2e-4:
            close(a, np.pi / 4 * float(t["p_diam_eq_A"][k]) ** 2, "projected area of " + kk, rtol=2e-3)
            close(v, np.pi / 6 * float(t["p_diam_eq_V"][k]) ** 3, "volume of " + kk, rtol=2e-3)
            require(a <= np.pi / 4 * D ** 2 * 1.01 and v <= np.pi / 6 * D ** 3 * 1.01, "%s is larger than its maximum dimension", kk)
        require(float(t["scat_p"][k]) <= float(t["alpha_p"][k]) * (1 + 1e-6), "scattering exceeds extinction in %s", kk)
        if not radar and np.pi * D / lam > 50:
            require(1.5 < float(t["alpha_p"][k]) / a < 2.6, "extinction efficiency of %s in visible light is %.3g", kk, float(t["alpha_p"][k]) / a)
    ctx.count(s["name"])


_RAW = {}


def raw_p3(name):
    import emc2
    if name not in _RAW:
        p = os.path.join(os.path.dirname(emc2.core.instruments.__file__), "p3_tables", "emc2_p3_ice_lut_abrv_full_%s.nc" % name)
        _RAW[name] = xr.load_dataset(p)
    return _RAW[name]


@CHECK.sub(st.fixed_dictionaries({"n": st.integers(1, 6), "seed": st.integers(0, 2 ** 31 - 1), "twice": st.booleans()}), quick=60, thorough=600)
def observations(s, ctx):
    """An ARM file is attached to the instrument as stored."""
    i = synth.instrument("HSRL")
    rng = np.random.RandomState(s["seed"])
    ds = xr.Dataset({"beta": (("time", "height"), rng.rand(s["n"], 3)), "n": (("time",), rng.rand(s["n"]))},
                    coords={"time": np.datetime64("2021-03-01T00:00", "ns") + np.arange(s["n"]) * np.timedelta64(60, "s"), "height": [1., 2., 3.]})
    with tempfile.TemporaryDirectory(dir=os.environ["VERIF_SCRATCH"]) as d:
        p = os.path.join(d, "arm.nc")
        ds.to_netcdf(p)
        sut(i.read_arm_netcdf_file, p)
        for v in ("beta", "n"):
            close(i.ds[v].values, ds[v].values, v, rtol=1e-12)
        equal(i.ds["time"].values, ds["time"].values, "time")
        i.ds.close()
    require(i.instrument_str == "HSRL", "the instrument changed")
    ctx.nontriv(s["n"] > 1)


TOKEN = {"Ten64nm": "1064nm", "HSRL1064": "1064nm", "MPL": "HSRL", "CALIOP": "HSRL"}
KINDS = ("mie_cl", "mie_pl", "mie_ci", "mie_pi", "c6_ice", "mdad_ice", "bulk_c6_ice", "bulk_c6_liq", "bulk_c6_sphere", "bulk_mdad_ice", "bulk_mdad_liq",
         "bulk_mdad_sphere")


def packaged(s, i, d, tok, kind, ext):
    """The packaged file of one table, its column names and separator, and the loaded table."""
    liq = "liq_c" if s["cold"] and ext else "liq"
    mie_names = ["wavelength", "p_diam", "size_parameter", "compre_real", "compre_im", "scat_p", "alpha_p", "beta_p", "scat_eff", "ext_eff", "backscat_eff"]
    c6 = ["r_e", "Q_scat", "Q_ext", "Q_back", "Q_back_cross", "LDR", "lidar_ratio"]
    md = ["D_e", "Q_scat", "Q_ext", "Q_back", "lidar_ratio"]
    first = "frequency" if i.instrument_class == "radar" else "wavelength"
    geo = [first, "p_diam", "p_diam_eq_A", "p_diam_eq_V"]
    if kind.startswith("mie"):
        k = kind[4:]
        f = "mie_tables/Mie%s_%s.dat" % (tok, liq if k in ("cl", "pl") else "ci" if k == "ci" else "pi1" if s["dharma"] else "pi")
        return f, mie_names, r"\s+", i.mie_table[k]
    return {"c6_ice": ("c6_tables/C6_%s_8col_agg_rough_270K.dat" % tok, geo + ["V", "A", "beta_p", "scat_p", "alpha_p", "beta_p_cross"], ",", i.scat_table["E3_ice"]),
            "mdad_ice": ("mDAD_tables/mDAD_%s_ice.dat" % tok, geo + ["p_diam_eq_VdivA", "V", "A", "beta_p", "scat_p", "alpha_p"], ",", i.scat_table["CESM_ice"]),
            "bulk_c6_ice": ("bulk_c6_tables/bulk_%s_C6PSD_c6_8col_ice_agg_rough_270K.dat" % tok, c6, ",", i.bulk_table["E3_ice"]),
            "bulk_c6_liq": ("bulk_c6_tables/bulk_%s_C6PSD_mie_%s.dat" % (tok, liq), c6, ",", i.bulk_table["E3_liq"]),
            "bulk_c6_sphere": ("bulk_c6_tables/bulk_%s_C6PSD_mie_ice.dat" % tok, c6, ",", i.bulk_table["mie_ice_E3_PSD"]),
            "bulk_mdad_ice": ("bulk_mDAD_tables/bulk_%s_mDAD_mDAD_ice_263K.dat" % tok, md, ",", i.bulk_table["CESM_ice"]),
            "bulk_mdad_liq": ("bulk_mDAD_tables/bulk_%s_mDAD_mie_%s.nc" % (tok, liq), None, None, i.bulk_table["CESM_liq"]),
            "bulk_mdad_sphere": ("bulk_mDAD_tables/bulk_%s_mDAD_mie_ice.dat" % tok, md, ",", i.bulk_table["mie_ice_CESM_PSD"])}[kind]


_FILES = {}


@CHECK.sub(st.tuples(picks(), st.sampled_from(KINDS)).map(lambda t: dict(t[0], kind=t[1])), quick=300, thorough=3000, shards=3)
def own_tables(s, ctx):
    """Every table of an instrument is the packaged one of its own wavelength and options, in documented units."""
    import emc2
    import pandas as pd
    try:
        i = make(s["name"], s["site"], s["cold"], s["dharma"])
    except Violation as e:
        if not isinstance(e.__cause__, ValueError):
            raise
        return
    d = os.path.dirname(emc2.core.instruments.__file__)
    tok = TOKEN.get(s["name"], s["name"])
    fn, names, sep, t = packaged(s, i, d, tok, s["kind"], NAMES[s["name"]][1])
    p = os.path.join(d, fn)
    if not os.path.exists(p):
        ctx.count("no_such_file")
        return
    if p not in _FILES:
        if len(_FILES) > 40:
            _FILES.clear()
        _FILES[p] = xr.load_dataset(p) if names is None else pd.read_csv(p, sep=sep, names=names)
    raw = _FILES[p]
    um = 1e-6
    f = {"V": um ** 3, "A": um ** 2, "alpha_p": um ** 2, "scat_p": um ** 2, "beta_p": um ** 2, "beta_p_cross": um ** 2}
    f.update({k: um for k in ("p_diam", "p_diam_eq_A", "p_diam_eq_V", "p_diam_eq_VdivA")})
    if s["kind"].startswith("mie"):
        f.update({"p_diam": 2 * um, "beta_p": um ** 2 / (4 * np.pi), "backscat_eff": 1 / (4 * np.pi)})
    for k in (names or list(raw.data_vars)):
        a = np.asarray(raw[k].values, dtype=float)
        close(np.asarray(t[k].values, dtype=float), a * f.get(k, 1.), "%s of %s in %s of %s" % (k, s["kind"], fn, s["name"]), rtol=1e-9)
    if "D_e" in (names or []):
        close(t["r_e"].values, raw["D_e"].values / 2, "effective radius", rtol=1e-9)
    ax = t["p_diam" if "p_diam" in t else "r_e" if "r_e" in t and t["r_e"].ndim == 1 else "mu"].values
    require(np.all(np.diff(ax) > 0), "the axis of %s is not ascending", s["kind"])
    ctx.nontriv()
    ctx.count(s["kind"])
