"""C05: radar sensitivity profile and gaseous attenuation."""
import numpy as np
from hypothesis import strategies as st

from vlib.core import Check, require, sut, close
from vlib import synth

CHECK = Check("C05", "A case is a generated column set (height, temperature, pressure down to 1 hPa, vapour incl. zero), a radar "
              "(stock or custom frequency 1-200 GHz) and the units its fields are stored in. Non-trivial: vapour present and "
              "the pressures span one of the O2 line-width regime limits (333 / 25 hPa), or a non-default unit is used.")

from vlib.synth import PU, TU, ZU


@st.composite
def specs(draw):
    s = draw(synth.columns(2, 8, 1, 3))
    top = draw(st.sampled_from([1., 1., 0.3, 0.05, 0.01]))   # push some columns into thin air
    nz = s["nz"]
    s["p"] = [[round(p * (1 - (1 - top) * k / (nz - 1)), 5) for k, p in enumerate(r)] for r in s["p"]]
    s["inst"] = draw(st.one_of(st.sampled_from(synth.RADARS + ["MWACR-awr", "BASTA-micre", "KAZR-mos"]), st.integers(10, 2000).map(lambda g: g / 10.)))
    s["pu"] = draw(st.sampled_from(sorted(PU)))
    s["tu"] = draw(st.sampled_from(TU))
    s["zu"] = draw(st.sampled_from(sorted(ZU)))
    s["ref"] = draw(st.sampled_from([None, 1000, 500., 5000., 25000, 100., 250]))
    return synth.blown(draw, s, n=False, t_max=140)


def radar(name):
    import emc2
    if isinstance(name, str):
        return synth.instrument(name)
    i = emc2.core.Instrument(frequency=name * emc2.core.instrument.ureg.GHz)
    i.instrument_class = "radar"
    i.Z_min_1km = -40.
    return i


def with_units(s):
    m = synth.base_model()
    synth.thermo_ds(m, s)
    return synth.set_units(m, s)


def ulaby(f, p, T, q):
    """Ulaby, Moore and Fung (1981), dB/km; f GHz, p hPa, T K, q kg/kg."""
    rho = q * p * 100 / (287.058 * T) * 1e3
    th = 300. / T
    g1 = 2.85 * (p / 1013.) * th ** 0.626 * (1 + 0.018 * rho * T / p)
    wv = 2 * f ** 2 * rho * th ** 1.5 * g1 * (th * np.exp(-644. / T) / ((494.4 - f ** 2) ** 2 + 4 * f ** 2 * g1 ** 2)
                                             + 1.2e-6)
    g0 = np.where(p >= 333, 0.59, np.where(p >= 25, 0.59 * (1 + 3.1e-3 * (333 - p)), 1.18))
    g = g0 * (p / 1013.) * th ** 0.85
    o2 = 1.1e-2 * f ** 2 * (p / 1013.) * th ** 2 * g * (1. / ((f - 60.) ** 2 + g ** 2) + 1. / (f ** 2 + g ** 2))
    return wv, o2


@CHECK.sub(specs(), quick=700, thorough=15000, shards=4)
def gaseous_attenuation(s, ctx):
    from emc2.simulator.attenuation import calc_radar_atm_attenuation
    m = with_units(s)
    i = radar(s["inst"])
    require(abs(i.freq * i.wavelength * 1e-6 / 299792458. - 1) < 1e-6, "frequency and wavelength disagree")
    before = m.ds.copy(deep=True)
    m = sut(calc_radar_atm_attenuation, i, m)
    wv, o2 = ulaby(i.freq * 1e-9, np.array(s["p"]), np.array(s["T"]), np.array(s["qv"]))
    # cells within float noise of a regime limit may take either side
    p = np.array(s["p"])
    edge = (np.abs(p - 333) < 1e-6) | (np.abs(p - 25) < 1e-6)
    got = {v: m.ds[v].transpose("time", "height").values for v in ("kappa_wv", "kappa_o2", "kappa_att")}
    close(np.where(edge, wv, got["kappa_wv"]), wv, "water vapour attenuation", rtol=1e-6)
    close(np.where(edge, o2, got["kappa_o2"]), o2, "oxygen attenuation", rtol=1e-6)
    close(got["kappa_att"], got["kappa_wv"] + got["kappa_o2"], "total gaseous attenuation", rtol=1e-12)
    require(np.all(got["kappa_wv"] >= 0) and np.all(got["kappa_o2"] > 0), "negative gaseous attenuation")
    for v in before.variables:
        require(np.array_equal(before[v].values, m.ds[v].values), "input %s was modified", v)
    reg = np.digitize(p, [25, 333])
    ctx.nontriv(bool((np.array(s["qv"]) > 0).any() and (len(np.unique(reg)) > 1 or s["pu"] in ("Pa", "kPa", "pascal")
                                                       or s["tu"] == "degC")))
    ctx.count("regimes_%d" % len(np.unique(reg)))


@CHECK.sub(specs(), quick=300, thorough=5000, shards=2)
def sensitivity(s, ctx):
    """Minimum detectable reflectivity grows with the square of range from its value at the reference range."""
    from emc2.simulator.attenuation import calc_radar_Ze_min
    m = with_units(s)
    i = radar(s["inst"])
    ref = s["ref"]
    m = sut(calc_radar_Ze_min, i, m) if ref is None else sut(calc_radar_Ze_min, i, m, ref)
    z = np.array(s["z"])
    with np.errstate(divide="ignore"):
        exp = i.Z_min_1km + 20 * np.log10(z / (1000. if ref is None else ref))
    close(m.ds["Ze_min"].transpose("time", "height").values, exp, "Ze_min", rtol=1e-9, atol=1e-9)
    ctx.nontriv(bool((z > 0).any()))


SHEET = {"KAZR-nsa": (34.86, 0.88, -48.5), "KAZR-sgp": (34.86, 0.88, -51.5), "KAZR-ena": (34.86, 0.88, -56.5), "KAZR-awr": (34.86, 0.88, -45.5),
         "KAZR-mos": (34.86, 0.88, -41.6), "WACR-sgp": (95.04, 0.84, -46.), "WACR-awr": (95.04, 0.84, -40.), "WACR-mos": (95.04, 0.84, -40.),
         "WACR-micre": (95.04, 0.84, -36.), "MWACR-awr": (95.04, 0.84, -40.), "BASTA-micre": (95.04, 0.84, -36.), "XSACR": (9.71, 0.93, -30.),
         "CSAPR": (6.25, 0.93, -35.), "NEXRAD": (3., 0.92, -23 - 20 * np.log10(25.))}


@CHECK.sub(st.fixed_dictionaries({"up": st.booleans(), "cold": st.booleans(), "bad": st.sampled_from(["", "xyz", "olympus"])}),
           quick=4, thorough=20, shards=4)
def stock_radars(s, ctx):
    """Every stock radar has the frequency, wavelength, dielectric factor and sensitivity (GHz, 1, dBZ at 1 km) of its band and site."""
    import emc2
    for name in SHEET:
        cls, _, site = name.partition("-")
        f = getattr(emc2.core.instruments, cls)
        i = sut(f, *([site.upper() if s["up"] else site] if site else []), supercooled=s["cold"])
        require(i.instrument_class.lower() == "radar", "class %s", i.instrument_class)
        freq, kw, zmin = SHEET[name]
        close(i.freq, freq * 1e9, "frequency of " + name, rtol=1e-9)
        close(i.wavelength, 299792458. / freq / 1e3, "wavelength of " + name, rtol=1e-9)
        close(i.K_w, kw, "dielectric factor of " + name, rtol=1e-9)
        close(i.Z_min_1km, zmin, "sensitivity of " + name, rtol=1e-4)
        require(i.OD_from_sfc, "%s does not look up from the surface", name)
        eps = i.eps_liq
        require(eps.real > 1 and abs(abs((eps - 1) / (eps + 2)) ** 2 - kw) < 0.25, "dielectric constant of liquid %s", eps)
        if site and s["bad"]:
            try:
                f(s["bad"])
            except ValueError:
                pass
            else:
                require(False, "%s at site %s was accepted", cls, s["bad"])
    ctx.nontriv()
