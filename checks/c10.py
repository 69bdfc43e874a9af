"""C10: particle size distributions hold the number and mass of the cell."""
import numpy as np
from hypothesis import strategies as st
from scipy.special import gamma, gammaincc

from vlib.core import Check, require, sut, close
from vlib import synth, micro

CHECK = Check("C10", "A case is a generated column set with explicit subcolumn contents, a model kind (generic, ModelE3, ModelE, DHARMA), a "
              "liquid or ice class (with fixed or variable density), dispersion option and bounds, convective or stratiform. "
              "Non-trivial: the class fills some but not all cells.")


@st.composite
def specs(draw):
    s = draw(synth.moment_specs(hyd=synth.HYD4 + ["gr"], mcphys=("MG2", "MG", "Morrison", "NSSL"), vary=True))
    s["h"] = draw(st.sampled_from(s["hyd"]))
    s["name"] = draw(st.sampled_from(["Model", "ModelE", "ModelE3", "DHARMA", "CESM"]))
    s["disp"] = draw(st.sampled_from([None, True, False]))
    s["bounds"] = draw(st.sampled_from([None, [2, 15], [1, 4], [5, 6], [13, 14]]))
    s["vardens"] = draw(st.booleans())
    if draw(st.integers(0, 5)) == 0:             # hardly any condensate is still condensate
        for c in s["sc"]:
            s["sc"][c][s["h"]]["q"] = [[1e-9 * v for v in r] for r in s["sc"][c][s["h"]]["q"]]
    return synth.blown(draw, s)


def build(s):
    from emc2.core.instrument import ureg
    m = synth.moment_model(s)
    m.Rho_hyd["gr"] = 400. * ureg.kg / ureg.m ** 3
    if s["vardens"]:
        m.Rho_hyd["gr"] = "variable"
        m.variable_density["gr"] = "RHO_G"
        m.ds["RHO_G"] = synth.to_arr(200 + 100. * np.arange(s["nz"])[None, :] + 40. * np.arange(s["nt"])[:, None], "kg/m**3")
    m.model_name = s["name"]
    return m


def known_shape(N, bounds):
    """KNOWN finding dispersion_units: the cm-3 number is scaled to cm-3 once more."""
    return np.clip(1 / (0.0005714 * (N * 1e-6) + 0.2714) ** 2 - 1, *bounds)


def _probe():
    from emc2.simulator.psd import calc_mu_lambda
    s = {"nz": 2, "nt": 1, "z": [[0., 500.]], "p": [[1000., 940.]], "T": [[280., 278.]], "qv": [[1e-3, 1e-3]], "nsub": 1,
         "hyd": ["cl"], "family": "CESM", "mcphys": "MG2", "conv": False, "spread": 0., "pu": "hPa", "tu": "K", "zu": "m",
         "sc": {"strat": {"cl": {"m": [[1, 1]], "q": [[1e-4, 1e-4]], "n": [[100., 400.]], "re": [[10., 10.]]}}}}
    m = synth.moment_model(s)
    m = calc_mu_lambda(m, "cl", calc_dispersion=True)
    return not np.allclose(m.ds["mu"].values.ravel(), micro.shape(np.array([100., 400.]), True))


FINDINGS = {"dispersion_units": _probe}


@CHECK.sub(specs(), quick=900, thorough=20000, shards=4)
def gamma_psd(s, ctx):
    from emc2.simulator.psd import calc_mu_lambda
    m = build(s)
    h = s["h"]
    cls = sorted(s["sc"])[0]
    kw = {}
    if s["disp"] is not None:
        kw["calc_dispersion"] = s["disp"]
    if s["bounds"]:
        kw["dispersion_mu_bounds"] = tuple(s["bounds"])
    before = m.ds.copy(deep=True)
    m = sut(calc_mu_lambda, m, h, is_conv=cls == "conv", **kw)
    N, q = synth.sub_n(s, cls, h), micro.water(s, cls, h)
    g = {v: synth.tkz(m, v) for v in ("mu", "lambda", "N_0")}
    disp = s["disp"] if s["disp"] is not None else s["name"] not in ("ModelE", "ModelE3", "DHARMA")
    b = tuple(s["bounds"] or (2, 15))
    if h == "cl" and cls == "strat":
        mu = micro.shape(N, disp, b)
        if disp and not np.allclose(g["mu"], mu) and np.allclose(g["mu"], known_shape(N, b), rtol=1e-9):
            ctx.count("known_dispersion_units")
            mu = known_shape(N, b)
    else:
        mu = np.zeros_like(N)
    close(g["mu"], mu, "shape of %s" % h, rtol=1e-9)
    rho = np.broadcast_to(micro.rho_of(s, m, h), N.shape)
    lam = micro.slope(q, N, rho, mu)
    close(g["lambda"], lam, "slope of %s" % h, rtol=1e-9)
    close(g["N_0"], micro.intercept(N, lam, mu), "intercept of %s" % h, rtol=1e-9)
    on = q > 0
    require(np.array_equal(np.isfinite(g["lambda"]), on), "distribution exists exactly where there is condensate")
    # numerical round trip of number and mass on a fine grid
    if on.any():
        x = np.linspace(0, 60, 6001)
        c = tuple(np.argwhere(on)[0])
        D = x / g["lambda"][c]
        n = g["N_0"][c] * D ** g["mu"][c] * np.exp(-g["lambda"][c] * D)
        close(micro.integrate(n, D) / (N[c] * 1e6), 1., "number held by the distribution", rtol=2e-3)
        close(micro.integrate(np.pi / 6 * rho[c] * D ** 3 * n, D) / q[c], 1., "mass held by the distribution", rtol=2e-3)
    for v in before.variables:
        require(np.array_equal(before[v].values, m.ds[v].values), "input %s was modified", v)
    ctx.nontriv(bool(on.any() and not on.all()))
    ctx.count("cl_strat", h == "cl" and cls == "strat")
    ctx.count("variable_density", h == "gr" and s["vardens"])


@CHECK.sub(specs(), quick=300, thorough=5000, shards=2)
def dispatch(s, ctx):
    """calc_and_set_psd_params gives the same distribution for every supported scheme, and refuses unknown ones."""
    from emc2.simulator.psd import calc_and_set_psd_params, calc_mu_lambda
    h = s["h"]
    m = build(s)
    kw = {} if s["disp"] is None else {"calc_dispersion": s["disp"]}
    d = sut(calc_and_set_psd_params, m, h, **kw)
    ref = calc_mu_lambda(build(s), h, **kw).ds
    for v in ("mu", "lambda", "N_0"):
        close(d[v].values, ref[v].values, "%s of %s" % (v, s["mcphys"]), rtol=1e-12)
    m.mcphys_scheme = "unheard_of"
    try:
        calc_and_set_psd_params(m, h)
    except ValueError:
        pass
    else:
        require(False, "an unknown microphysics scheme was accepted")
    ctx.nontriv(True)


@CHECK.sub(st.fixed_dictionaries({"h": st.sampled_from(["cl", "pl", "gr", "ha", "sn", "ci", "pi"]),
                                  "rho": st.integers(50, 950), "d": st.lists(synth.logfloat(1e-7, 5e-2), min_size=1, max_size=8)}),
           quick=400, thorough=5000)
def nssl_velocity(s, ctx):
    from emc2.simulator.psd import calc_velocity_nssl
    d = np.sort(np.array(s["d"]))
    v = np.asarray(sut(calc_velocity_nssl, d, float(s["rho"]), s["h"]))
    close(v, micro.nssl_speed(d, float(s["rho"]), s["h"]), "NSSL speed of %s" % s["h"], rtol=1e-9)
    require(np.all(v >= 0) and np.all(np.diff(v) >= -1e-12), "fall speed not positive and growing with size")
    ctx.nontriv(len(d) > 1)
