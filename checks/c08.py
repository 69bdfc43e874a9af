"""C08: bulk (radiation logic) radar reflectivity and attenuation."""
import numpy as np
from hypothesis import strategies as st

from vlib.core import Check, require, sut, close
from vlib import synth, bulk
from checks.c07 import check_totals, check_grand_total

CHECK = Check("C08", "A case is a generated column set with explicit subcolumn contents (masks, mixing ratios, effective radii "
              "inside and outside the tables, mu/lambda table nodes for CESM liquid) in stored units, a stock radar, scheme family, "
              "ice tables, fluffiness, class order/subset, direction, convective or stratiform. Non-trivial: at least two classes "
              "overlap in a subcolumn and some cell of some class is empty.")


def fluffiness(hyds):
    """None (equal volume spheres not used) or a fluffiness per ice class"""
    return st.one_of(st.none(), st.fixed_dictionaries({h: st.sampled_from([0., 0.3, 0.5, 1.]) for h in hyds if h[-1] != "l"}))


@st.composite
def specs(draw):
    s = draw(synth.moment_specs(hyd=draw(st.sampled_from([synth.HYD4, synth.HYD4 + ["gr", "sn"]])), vary=True))
    s["inst"] = draw(st.sampled_from(synth.RADAR_POOL))
    s["order"] = draw(synth.orders(s["hyd"]))
    s["mie"] = draw(st.booleans())
    s["fluffy"] = draw(fluffiness(s["hyd"]))
    s["vardens"] = draw(st.booleans())
    return synth.blown(draw, s, t_max=140)


def build(s, i):
    from emc2.core.instrument import ureg
    m = synth.moment_model(s)
    for k, h in enumerate(s["hyd"]):
        if h in ("gr", "sn"):
            m.Rho_hyd[h] = (400. if h == "gr" else 100.) * ureg.kg / ureg.m ** 3
    if s["vardens"] and "gr" in s["hyd"]:
        m.Rho_hyd["gr"] = "variable"
        m.variable_density["gr"] = "RHO_G"
        m.ds["RHO_G"] = synth.to_arr(200 + 100. * np.arange(s["nz"])[None, :] + 40. * np.arange(s["nt"])[:, None], "kg/m**3")
    fl = s["fluffy"]
    m.fluffy = None if fl is None else {h: (fl[h] if isinstance(fl, dict) else fl) * ureg.dimensionless for h in s["hyd"] if h[-1] != "l"}
    if s["family"] == "CESM":
        bulk.set_mu_lambda(s, m, i)
    return m


def _probe():
    """Known finding: CESM-family rain without parameters of its own takes those of the cloud droplets."""
    from emc2.simulator.radar_moments import calc_radar_moments
    one = {"m": [[1, 1]], "q": [[1e-4, 1e-4]], "n": [[1., 1.]], "re": [[20., 20.]], "mui": [[5, 5]], "lami": [[20, 20]]}
    got = []
    for la in (5, 40):
        s = {"nz": 2, "nt": 1, "z": [[0., 500.]], "p": [[1000., 940.]], "T": [[285., 280.]], "qv": [[0.01, 0.01]], "nsub": 1,
             "hyd": synth.HYD4, "family": "CESM", "mcphys": "MG2", "conv": False, "spread": 0., "pu": "hPa", "tu": "K", "zu": "m",
             "sfc": True, "vardens": False, "fluffy": None, "sc": {"strat": {h: dict(one, lami=[[la, la]]) for h in synth.HYD4}}}
        i = synth.instrument("KAZR-nsa")
        m = build(s, i)
        m.mu_field["pl"] = m.lambda_field["pl"] = None
        try:
            m = calc_radar_moments(i, m, False, hyd_types=["cl", "pl"], use_rad_logic=True)
        except Exception:
            return True
        got.append(synth.tkz(m, "sub_col_Ze_pl_strat"))
    return not np.array_equal(got[0], got[1])


FINDINGS = {"cesm_rain_psd": _probe}


@CHECK.sub(specs(), quick=450, thorough=10000, shards=6)
def radar_bulk(s, ctx):
    from emc2.simulator.radar_moments import calc_radar_moments
    i = synth.instrument(s["inst"])
    m = build(s, i)
    hyds = s["order"] or s["hyd"]
    before = m.ds.copy(deep=True)
    tots, trans = [], []
    for cls in sorted(s["sc"]):
        # without radiation logic convection still uses it
        rad = not (cls == "conv" and s["spread"] == 0)
        m = sut(calc_radar_moments, i, m, cls == "conv", OD_from_sfc=s["sfc"], hyd_types=s["order"], mie_for_ice=s["mie"],
                use_rad_logic=rad, parallel=False)
        Ze, ext = {}, 0.
        for h in hyds:
            qb, qe = bulk.efficiencies(s, m, i, cls, h, s["mie"])
            A = bulk.area(s, m, cls, h)
            Ze[h] = A * qb * i.wavelength ** 4 / (i.K_w * np.pi ** 5) * 1e-6
            ext = ext + A * qe
        ht = np.exp(-2 * synth.two_way(np.array(s["z"]), ext, s["sfc"]))
        atm, tot = check_totals(m, s, cls, hyds, i, s["sfc"], Ze, ht)
        tots.append(tot), trans.append(ht)
    check_grand_total(m, s, i, tots, trans, atm)
    for v in before.variables:
        require(np.array_equal(before[v].values, m.ds[v].values), "input %s was modified", v)
    ms = [synth.mask(s, "strat", h) for h in hyds]
    ctx.nontriv(bool((sum(ms) > 1).any() and min(x.min() for x in ms) == 0))
    ctx.count("family_" + s["family"])
    ctx.count("mie_ice", s["mie"])
    ctx.count("conv", s["conv"])
    ctx.count("top_level_filled", bool(max(x[..., -1].max() for x in ms) > 0))


@CHECK.sub(specs(), quick=60, thorough=1000, shards=2)
def between_nodes(s, ctx):
    """CESM liquid between table nodes stays within the table's range and scales linearly with mixing ratio."""
    from emc2.simulator.radar_moments import calc_radar_moments
    s["family"] = "CESM"
    i = synth.instrument(s["inst"])
    m = build(s, i)
    t = i.bulk_table["CESM_liq"]
    mu, la = t["mu"].values, t["lambda"].transpose("mu", "lambdas").values
    mi = np.clip(np.array(s["sc"]["strat"]["cl"]["mui"]), 1, 17)
    li = np.clip(np.array(s["sc"]["strat"]["cl"]["lami"]), 1, 47)
    m.ds["mu_cl"] = synth.to_arr(0.5 * (mu[mi] + mu[mi + 1]), "1")
    m.ds["lambda_cl"] = synth.to_arr(0.5 * (la[mi, li] + la[mi, li + 1]), "m-1")
    m = sut(calc_radar_moments, i, m, False, hyd_types=["cl"], use_rad_logic=True)
    got = 10 ** (synth.tkz(m, "sub_col_Ze_cl_strat") / 10.)
    k = bulk.area(s, m, "strat", "cl") * i.wavelength ** 4 / (i.K_w * np.pi ** 5) * 1e-6
    on = synth.mask(s, "strat", "cl") == 1
    require(np.all(np.isfinite(got[on])), "no echo from cloud inside the table")
    require(np.all(np.isnan(got[~on])), "echo in clear air")
    q = got[on] / k[on]
    require(np.all((q >= t["Q_back"].values.min() * 0.999) & (q <= t["Q_back"].values.max() * 1.001)), "outside the table range")
    ctx.nontriv(bool(on.any()))
