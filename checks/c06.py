"""C06: molecular (Rayleigh) scattering and transmittance for lidars."""
import numpy as np
from hypothesis import strategies as st

from vlib.core import Check, require, sut, close
from vlib import synth
from vlib.synth import PU, TU, ZU

CHECK = Check("C06", "A case is a generated column set with its stored units, a wavelength of 0.3-2 um (or a stock lidar's) and a "
              "viewing direction. Non-trivial: at least 3 levels with unequal spacing (so that the trapezoid and the direction "
              "matter).")


@st.composite
def specs(draw):
    s = draw(synth.columns(2, 9, 1, 3))
    s.update(pu=draw(st.sampled_from(sorted(PU))), tu=draw(st.sampled_from(TU)), zu=draw(st.sampled_from(sorted(ZU))),
             lam=draw(st.one_of(st.sampled_from([0.355, 0.532, 0.91, 1.064]),
                                st.integers(300, 2000).map(lambda v: v / 1000.))), sfc=draw(st.booleans()),
             default_dir=draw(st.booleans()))
    return synth.blown(draw, s, n=False, t_max=140)


def build(s):
    m = synth.base_model()
    synth.thermo_ds(m, s)
    return synth.set_units(m, s)


def rayleigh(lam, p, T):
    """Edlen-type refractivity, King factor from depolarisation 0.035; SI units."""
    Tc = T - 273.15
    nu = 1. / lam
    nref = (6432.8 + 2949810. / (146 - nu ** 2) + 25540. / (41 - nu ** 2)) * 1e-8
    n = 1 + nref * ((1 + 0.00366 * 15) / (1 + 0.00366 * Tc)) * (p / 1013.25)
    N = p * 100 / (8.3144598 * T) * 6.022140857e23      # m-3
    r = 0.035
    sig = 8 * np.pi ** 3 / 3 * (n ** 2 - 1) ** 2 / ((lam * 1e-6) ** 4 * N ** 2) * (6 + 3 * r) / (6 - 7 * r)
    return n, N, sig, sig * 0.7629 * 1.932 / (4 * np.pi)


@CHECK.sub(specs(), quick=700, thorough=15000, shards=4)
def molecular(s, ctx):
    from emc2.simulator.attenuation import calc_theory_beta_m
    m = build(s)
    before = m.ds.copy(deep=True)
    sfc = True if s["default_dir"] else s["sfc"]
    m = sut(calc_theory_beta_m, m, s["lam"]) if s["default_dir"] else \
        sut(calc_theory_beta_m, m, s["lam"], OD_from_sfc=sfc)
    p, T, z = (np.array(s[k]) for k in ("p", "T", "z"))
    n, N, sig, sig180 = rayleigh(s["lam"], p, T)
    g = {v: m.ds[v].transpose("time", "height").values for v in
         ("tau", "u_atm", "beta", "sigma_180_vol", "sigma_180", "sigma", "N_s", "n_s")}
    close(g["n_s"] - 1, n - 1, "refractivity", rtol=1e-7)
    close(g["N_s"], N, "number density", rtol=1e-9)
    close(g["sigma"], sig, "Rayleigh cross section", rtol=1e-6)
    close(g["sigma_180"], sig180, "Rayleigh backscatter cross section", rtol=1e-6)
    close(g["beta"], sig * N, "molecular extinction", rtol=1e-6)
    close(g["sigma_180_vol"], sig180 * N, "molecular backscatter", rtol=1e-6)
    lay = 0.5 * (sig * N)[:, :-1] * np.diff(z, axis=1) + 0.5 * (sig * N)[:, 1:] * np.diff(z, axis=1)
    u = np.zeros_like(p)
    for k in range(1, s["nz"]):
        if sfc:
            u[:, k] = u[:, k - 1] + lay[:, k - 1]
        else:
            u[:, s["nz"] - 1 - k] = u[:, s["nz"] - k] + lay[:, s["nz"] - 1 - k]
    close(g["u_atm"], u, "molecular optical depth", rtol=1e-6, atol=1e-15)
    close(g["tau"], np.exp(-2 * u), "molecular two-way transmittance", rtol=1e-9)
    for v in before.variables:
        require(np.array_equal(before[v].values, m.ds[v].values), "input %s was modified", v)
    ctx.nontriv(s["nz"] >= 3 and len(np.unique(np.diff(z[0]))) > 1)
    ctx.count("from_sfc", sfc)


@CHECK.sub(specs(), quick=60, thorough=1000)
def physical_anchor(s, ctx):
    """Independent anchors: 532 nm cross section of about 5.17e-31 m2 and wavelength^-4 behaviour."""
    from emc2.simulator.attenuation import calc_theory_beta_m
    m = sut(calc_theory_beta_m, build(s), 0.532)
    a = m.ds["sigma"].values.copy()
    # the cross section per molecule depends only weakly on p and T
    require(np.all(np.abs(a / 5.17e-31 - 1) < 0.05), "Rayleigh cross section at 532 nm is %g m2", float(a.flat[0]))
    lam = s["lam"]
    b = sut(calc_theory_beta_m, build(s), lam).ds["sigma"].values
    ratio = b / a * (lam / 0.532) ** 4
    require(np.all((ratio > 0.9) & (ratio < 1.25)), "not close to wavelength^-4: %g at %g um", float(ratio.flat[0]), lam)
    ctx.nontriv(lam != 0.532)
