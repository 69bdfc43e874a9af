"""C12: lidar empirical and bulk (radiation logic) backscatter, extinction, optical depth."""
import numpy as np
from hypothesis import strategies as st

from vlib.core import Check, require, sut, close
from vlib import synth, bulk, lidar
from checks import c08

CHECK = Check("C12", "A case is a generated column set with explicit subcolumn contents (masks, mixing ratios, effective radii in and "
              "outside the tables, mu/lambda nodes) in stored units, a stock lidar, scheme family, ice tables, fluffiness, variable "
              "densities, class order/subset, direction, multiple-scattering factor, convective or stratiform. Non-trivial: at least "
              "two classes overlap in a subcolumn and some cell of some class is empty.")


@st.composite
def specs(draw):
    s = draw(synth.moment_specs(hyd=draw(st.sampled_from([synth.HYD4, synth.HYD4 + ["gr", "sn"]])), vary=True))
    s["inst"] = draw(st.sampled_from(synth.LIDAR_POOL))
    s["order"] = draw(synth.orders(s["hyd"]))
    s["mie"] = draw(st.booleans())
    s["fluffy"] = draw(c08.fluffiness(s["hyd"]))
    s["vardens"] = draw(st.booleans())
    s["eta"] = draw(st.sampled_from([None, 1., 0.7, 0.5]))
    return synth.blown(draw, s, t_max=140)


def marks(s, ctx, hyds):
    ms = [synth.mask(s, "strat", h) for h in hyds]
    ctx.nontriv(bool((sum(ms) > 1).any() and min(x.min() for x in ms) == 0))
    ctx.count("from_top", not s["sfc"])
    ctx.count("with_conv", s["conv"])
    ctx.count("top_level_filled", bool(max(x[..., -1].max() for x in ms) > 0))


@CHECK.sub(specs(), quick=400, thorough=8000, shards=6)
def lidar_bulk(s, ctx):
    from emc2.simulator.lidar_moments import calc_lidar_moments
    i = synth.instrument(s["inst"])
    m = c08.build(s, i)
    hyds = s["order"] or s["hyd"]
    before = m.ds.copy(deep=True)
    kw = {} if s["eta"] is None else {"eta": s["eta"]}
    eta = s["eta"] or 1.
    parts = []
    for cls in sorted(s["sc"]):
        rad = not (cls == "conv" and s["spread"] == 0)    # without radiation logic convection still uses it
        m = sut(calc_lidar_moments, i, m, cls == "conv", OD_from_sfc=s["sfc"], hyd_types=s["order"], mie_for_ice=s["mie"],
                use_rad_logic=rad, parallel=False, **kw)
        al, be = {}, {}
        for h in hyds:
            qb, qe = bulk.efficiencies(s, m, i, cls, h, s["mie"])
            A = bulk.area(s, m, cls, h)
            al[h], be[h] = A * qe, A * qb
        parts.append(lidar.check_class_totals(m, s, cls, hyds, i, al, be, eta))
    lidar.check_grand_total(m, s, i, parts, eta)
    lidar.unchanged(before, m)
    marks(s, ctx, hyds)
    ctx.count("family_" + s["family"])
    ctx.count("mie_ice", s["mie"])


@CHECK.sub(specs(), quick=300, thorough=6000, shards=4)
def lidar_empirical(s, ctx):
    from emc2.simulator.lidar_moments import calc_lidar_moments
    s["hyd"] = [h for h in s["hyd"] if h in synth.HYD4]            # no parameterization for the others
    s["order"] = s["order"] and ([h for h in s["order"] if h in synth.HYD4] or None)
    i = synth.instrument(s["inst"])
    m = synth.moment_model(s)
    hyds = s["order"] or s["hyd"]
    before = m.ds.copy(deep=True)
    T = np.array(s["T"])
    rho_a = np.array(s["p"]) * 100 / (287.058 * T)
    kw = {} if s["eta"] is None else {"eta": s["eta"]}
    parts = []
    for cls in sorted(s["sc"]):
        m = sut(calc_lidar_moments, i, m, cls == "conv", OD_from_sfc=s["sfc"], hyd_types=s["order"], use_empiric_calc=True, **kw)
        al, be = {}, {}
        for h in hyds:
            WC = synth.sub_q(s, cls, h) * rho_a
            if h in ("cl", "pl"):
                re = np.array(s["sc"][cls][h]["re"]) * 1e-6
                al[h] = 3 * WC / (2 * 1000. * re)
            else:                                                  # Heymsfield et al. (2014)
                tc = T - 273.15
                al[h] = (WC / (0.00532 * (tc + 90) ** 2.55)) ** (1 / (1.31 * np.exp(0.0047 * tc)))
            be[h] = al[h] / {"cl": 18., "ci": 24., "pl": 5.5, "pi": 27.}[h]
        parts.append(lidar.check_class_totals(m, s, cls, hyds, i, al, be, s["eta"] or 1.))
    lidar.check_grand_total(m, s, i, parts, s["eta"] or 1.)
    lidar.unchanged(before, m)
    marks(s, ctx, hyds)
