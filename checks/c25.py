"""C25: Mie spheres, refractive indices and drop shape."""
import warnings

import numpy as np
import xarray as xr
from hypothesis import strategies as st

from vlib.core import Check, require, sut, close, labelled
from vlib import synth, mie

CHECK = Check("C25", "A case is a generated list of diameters (any order, array or DataArray) with a wavelength, temperature, pressure and, for "
              "ice, a density; or a wavelength and temperature; or a drop diameter. Non-trivial: at least two different diameters, not in an "
              "even ascending sequence.")

BANDS = [0.031, 0.086, 0.13, 0.32, 0.86, 1.25, 3.1, 5.5, 10.7]


@st.composite
def spheres(draw):
    wl = draw(st.sampled_from(BANDS)) * draw(st.floats(0.8, 1.25))
    n = draw(st.integers(1, 6))
    x = [10 ** draw(st.floats(-2.5, 1.6)) for _ in range(n)]
    d = [v * wl * 1e4 / np.pi for v in x]                       # microns
    k = draw(st.integers(0, 3))
    if k == 0:
        d = sorted(d)
    elif k == 1:
        d = sorted(d, reverse=True)
    return {"d": d, "wl": wl, "t": draw(st.floats(-40., 40.)), "p": draw(st.floats(100., 1050.)), "ice": draw(st.booleans()), "colder": draw(st.sampled_from([0., 0., 40.])),
            "rho": draw(st.one_of(st.floats(0.05, 0.917), st.sampled_from([0.05, 0.1, 0.91, 0.917]))), "da": draw(st.booleans()), "defaults": draw(st.integers(0, 3)) == 0}


def eps_water(f, t):
    """Meissner and Wentz (2004) pure-water permittivity, f in GHz and t in degrees C."""
    es = (37088.6 - 82.168 * t) / (421.854 + t)
    e1 = 5.7230 + 2.2379e-2 * t - 7.1237e-4 * t ** 2
    v1 = (45. + t) / (5.0478 - 7.0315e-2 * t + 6.0059e-4 * t ** 2)
    ei = 3.6143 + 2.8841e-2 * t
    v2 = (45. + t) / (0.13652 + 1.4825e-3 * t + 2.4166e-4 * t ** 2)
    return (es - e1) / (1 + 1j * f / v1) + (e1 - ei) / (1 + 1j * f / v2) + ei


def eps_snow(rho):
    """Dry snow: 1 + 2 rho and a loss factor of 8e-4 (0.52 rho + 0.62 rho^2) (g/cm3)."""
    return 1 + 2 * rho - 1j * 8e-4 * (0.52 * rho + 0.62 * rho ** 2)


@CHECK.sub(spheres(), quick=600, thorough=12000, shards=4)
def mie_spheres(s, ctx):
    """Each requested diameter has the Mie solution for its own size, in the order asked."""
    from emc2.scattering import scat_properties_water, scat_properties_ice
    d = np.array(s["d"])
    t, p, rho = (0., 1013., 0.5) if s["defaults"] else (s["t"] - s["colder"] * s["ice"], s["p"], s["rho"])
    arg = xr.DataArray(d, dims="size") if s["da"] else d.copy()
    kw = {} if s["defaults"] else {"temperature": t, "pressure": p}
    if s["ice"]:
        if not s["defaults"]:
            kw["rho_d"] = rho
        r = sut(scat_properties_ice, arg, s["wl"], **kw)
        m = np.conj(np.sqrt(eps_snow(rho)))
    else:
        r = sut(scat_properties_water, arg, s["wl"], **kw)
        m = np.conj(np.sqrt(eps_water(29.9792458 / s["wl"], t)))
    close(np.asarray(arg), d, "the diameters passed in", rtol=0)
    for v in ("p_diam", "alpha_p", "beta_p", "scat_p", "size_parameter", "ext_eff", "scat_eff", "backscat_eff", "wavelength"):
        require(v in r and r[v].size == d.size, "%s is missing or not one per diameter", v)
    labelled(r)
    close(r["p_diam"].values, d * 1e-6, "p_diam (m)", rtol=1e-9)
    close(r["wavelength"].values, s["wl"] * 1e4, "wavelength (um)", rtol=1e-9)
    close(r["size_parameter"].values, np.pi * d / (s["wl"] * 1e4), "size parameter", rtol=1e-9)
    close(r["compre_real"].values, m.real, "real index", rtol=1e-3)
    close(r["compre_im"].values, m.imag, "imaginary index", rtol=1e-3)
    nm = 1 + 77.6e-6 * p / (t + 273.15)          # refractivity of dry air (Smith and Weintraub, 1953)
    A = np.pi / 4 * (d * 1e-6) ** 2
    for k in range(d.size):
        x = np.pi * d[k] / (s["wl"] * 1e4)
        qe, qs, qb, g = mie.efficiencies(m / nm, x * nm, asymmetry=True)
        # for x below 0.05 the Rayleigh limit is as good an answer
        e_r, xm = (m / nm) ** 2, x * nm
        kr = (e_r - 1) / (e_r + 2)
        rs = 8 / 3 * xm ** 4 * abs(kr) ** 2
        ray = (4 * xm * kr.imag + rs, rs, 1.5 * rs)
        for v, e, r0 in zip(("ext_eff", "scat_eff", "backscat_eff"), (qe, qs, qb), ray):
            if x >= 0.06:
                close(float(r[v][k]), e, v, rtol=1e-5, atol=1e-6 * qs)
                continue
            lo, hi = min(e, r0), max(e, r0)
            if v == "ext_eff":
                lo -= rs * 1.1                   # the library's limit may leave the scattering part out
            close(float(r[v][k]), np.clip(float(r[v][k]), lo, hi), v, rtol=0.04, atol=0.01 * qs if v == "backscat_eff" else 0.)
        if x >= 0.06:
            close(float(r["g"][k]), g, "asymmetry parameter", rtol=1e-4, atol=1e-6)
            close(float(r["qpr"][k]), qe - g * qs, "radiation pressure efficiency", rtol=1e-4, atol=1e-6 * qs)
            close(float(r["qratio"][k]), qb / qs, "ratio of backscattering to scattering", rtol=1e-4, atol=1e-6)
        for v, e in (("alpha_p", "ext_eff"), ("scat_p", "scat_eff"), ("beta_p", "backscat_eff")):
            close(float(r[v][k]), float(r[e][k]) * A[k], v + " (m2)", rtol=1e-6)
        close(float(r["qabs"][k]), float(r["ext_eff"][k]) - float(r["scat_eff"][k]), "absorption efficiency", rtol=1e-6, atol=1e-6 * qe)
    df = np.diff(d)
    even = d.size < 2 or np.allclose(df, df[0], rtol=1e-3)
    ctx.nontriv(d.size > 2 and not even or d.size == 2 and df[0] < 0)
    ctx.count("ice" if s["ice"] else "water")
    ctx.count("unsorted", bool(np.any(df < 0)))


@CHECK.sub(spheres(), quick=150, thorough=2000)
def metamorphic(s, ctx):
    """Order and company do not matter: a subset or permutation of the diameters gives the same values."""
    from emc2.scattering import scat_properties_water, scat_properties_ice
    f = scat_properties_ice if s["ice"] else scat_properties_water
    d = np.array(s["d"])
    a = sut(f, d, s["wl"])
    b = sut(f, d[::-1], s["wl"])
    c = sut(f, d[:1], s["wl"])
    for v in ("alpha_p", "beta_p", "scat_p", "p_diam", "g"):
        close(b[v].values[::-1], a[v].values, v + " for reversed diameters", rtol=1e-9)
        close(c[v].values[0], a[v].values[0], v + " for one diameter alone", rtol=1e-9)
    ctx.nontriv(d.size > 1)


@CHECK.sub(st.fixed_dictionaries({"wl": synth.logfloat(0.03, 30.), "t": st.lists(st.floats(-20., 40.), min_size=1, max_size=5),
                                  "rho": st.one_of(st.floats(0.01, 0.917), st.sampled_from([0.01, 0.91, 0.917])), "defaults": st.booleans()}), quick=500, thorough=10000)
def refractive_index(s, ctx):
    """(n + ik)^2 is the complex permittivity of the material."""
    from emc2.scattering import calc_microwave_ref_index, calc_microwave_ref_index_ice
    t = np.array(s["t"])
    m = np.asarray(sut(calc_microwave_ref_index, s["wl"], t))
    e = eps_water(29.9792458 / s["wl"], t)
    close(m.real ** 2 - m.imag ** 2, e.real, "real permittivity of water", rtol=1e-6, atol=1e-6)
    close(2 * m.real * m.imag, abs(e.imag), "loss of water", rtol=1e-6)
    one = sut(calc_microwave_ref_index, s["wl"], float(t[0]))
    require(abs(one - m[0]) < 1e-9 * abs(one), "one temperature alone gives %r, among others %r", one, m[0])
    close(complex(sut(calc_microwave_ref_index, s["wl"])).real, np.sqrt(eps_water(29.9792458 / s["wl"], 0.)).real, "index at 0 C", rtol=1e-6)
    rho = 0.5 if s["defaults"] else s["rho"]
    mi = sut(calc_microwave_ref_index_ice, s["wl"], *(() if s["defaults"] else (float(t[0]), rho)))
    ei = eps_snow(rho)
    close(mi.real ** 2 - mi.imag ** 2, ei.real, "real permittivity of snow", rtol=1e-9)
    close(2 * mi.real * mi.imag, abs(ei.imag), "loss of snow", rtol=1e-3)
    ctx.nontriv(t.size > 1 or not s["defaults"])


@CHECK.sub(st.fixed_dictionaries({"d": st.lists(st.floats(0., 10.), min_size=1, max_size=8), "scalar": st.booleans()}), quick=200, thorough=3000)
def drop_shape(s, ctx):
    """Brandes et al. axis ratio of each drop (mm)."""
    from emc2.scattering import brandes
    d = s["d"][0] if s["scalar"] else np.array(s["d"])
    e = 0.9951 + 0.02510 * np.asarray(d) - 0.03644 * np.asarray(d) ** 2 + 0.005303 * np.asarray(d) ** 3 - 0.0002492 * np.asarray(d) ** 4
    close(sut(brandes, d), e, "axis ratio", rtol=1e-9)
    require(np.all(np.asarray(brandes(d))[np.asarray(d) <= 8.] <= 1.01), "a drop is higher than wide")
    ctx.nontriv(np.size(d) > 1)
