"""C07: empirical radar reflectivity, attenuation and totals."""
import numpy as np
from hypothesis import strategies as st

from vlib.core import Check, require, sut, close
from vlib import synth
from checks.c05 import ulaby

CHECK = Check("C07", "A case is a generated column set with explicit subcolumn contents (masks, mixing ratios) in stored units, a radar "
              "(stock, covering the S, Ka, W and other bands), direction, class order/subset and convective or stratiform call. "
              "Non-trivial: at least two classes overlap in a subcolumn and some cell of some class is empty.")


@st.composite
def specs(draw):
    s = draw(synth.moment_specs(vary=True))
    s["inst"] = draw(st.sampled_from(synth.RADAR_POOL))
    s["order"] = draw(synth.orders(s["hyd"]))
    s["dir"] = draw(st.booleans())
    return synth.blown(draw, s, t_max=140)


def dbz(x):
    with np.errstate(all="ignore"):
        return np.where(x > 0, 10 * np.log10(np.where(x > 0, x, 1)), np.nan)


def emp_Ze(h, WC, T, f):
    with np.errstate(all="ignore"):
        if h == "cl":
            z = 0.031 * WC ** 1.56                                   # Fox and Illingworth (1997)
        elif h == "pl":
            z = (WC * 1e3 / 3.4) ** 1.75                             # Hagen and Yuter (2003)
        elif 2 <= f < 4:                                             # Hogan et al. (2006)
            z = 10 ** ((np.log10(WC) + 0.0197 * T + 1.7) / 0.060 / 10)
        elif 75 <= f < 110:
            z = 10 ** ((np.log10(WC) + 0.00706 * T + 0.992) / (0.000580 * T + 0.0923) / 10)
        else:
            z = 10 ** ((np.log10(WC) + 0.0186 * T + 1.63) / (0.000242 * T + 0.0699) / 10)
    return np.where(WC > 0, z, 0.)


def check_totals(m, s, cls, hyds, i, sfc, Ze, hyd_trans, rtol=1e-6):
    """Per-class and total reflectivity, attenuation by the two transmittances; Ze linear per class."""
    z = np.array(s["z"])
    wv, o2 = ulaby(i.freq * 1e-9, np.array(s["p"]), np.array(s["T"]), np.array(s["qv"]))
    atm = 10 ** (-2 * synth.two_way(z / 1e3, wv + o2, sfc) / 10)
    tot = sum(Ze[h] for h in hyds)
    db = 1e-5      # dB
    for h in hyds:
        close(synth.tkz(m, "sub_col_Ze_%s_%s" % (h, cls)), dbz(Ze[h]), "%s %s reflectivity" % (cls, h), rtol=rtol, atol=db)
    close(synth.tkz(m, "sub_col_Ze_tot_%s" % cls), dbz(tot), "%s total reflectivity" % cls, rtol=rtol, atol=db)
    close(synth.tkz(m, "atm_ext"), atm, "gaseous two-way transmittance", rtol=1e-6, atol=1e-300)
    close(synth.tkz(m, "hyd_ext_%s" % cls), hyd_trans, "%s hydrometeor two-way transmittance" % cls,
          rtol=1e-6 * (1 - np.log(np.maximum(hyd_trans, 1e-300))), atol=1e-290)      # relative to the optical depth
    close(synth.tkz(m, "sub_col_Ze_att_tot_%s" % cls), dbz(tot * hyd_trans * atm), "%s attenuated reflectivity" % cls,
          rtol=rtol, atol=db)
    return atm, tot


def check_grand_total(m, s, i, tots, trans, atm):
    """calc_total_reflectivity: linear sum over cloud kinds, attenuated by all transmittances; detectability mask."""
    from emc2.simulator.attenuation import calc_radar_Ze_min
    from emc2.simulator.radar_moments import calc_total_reflectivity
    m = sut(calc_radar_Ze_min, i, m)
    m = sut(calc_total_reflectivity, m, detect_mask=True)
    tot = sum(tots)
    att = tot * atm
    for t in trans:
        att = att * t
    close(synth.tkz(m, "sub_col_Ze_tot"), dbz(tot), "total reflectivity", rtol=1e-6, atol=1e-5)
    close(synth.tkz(m, "sub_col_Ze_att_tot"), dbz(att), "total attenuated reflectivity", rtol=1e-6, atol=1e-5)
    with np.errstate(all="ignore"):
        zmin = i.Z_min_1km + 20 * np.log10(np.array(s["z"]) / 1000.)
        d = dbz(att)
        sure = np.abs(d - zmin) > 1e-4
    got = synth.tkz(m, "detect_mask").astype(bool)
    require(not (got & (d > zmin) & sure).any(), "echo above the sensitivity masked as below noise")
    require(not (~got & (d < zmin) & sure).any(), "echo below the sensitivity reported as detected")
    return m


@CHECK.sub(specs(), quick=600, thorough=12000, shards=6)
def empirical(s, ctx):
    from emc2.simulator.radar_moments import calc_radar_moments
    m = synth.moment_model(s)
    i = synth.instrument(s["inst"])
    hyds = s["order"] or s["hyd"]
    before = m.ds.copy(deep=True)
    T = np.array(s["T"]) - 273.15
    kap = 6 * np.pi / (i.wavelength * 1000.) * ((i.eps_liq - 1) / (i.eps_liq + 2)).imag * 4.34e6
    tots, trans = [], []
    for cls in sorted(s["sc"]):
        kw = {"OD_from_sfc": s["sfc"]} if s["dir"] or not s["sfc"] else {}
        m = sut(calc_radar_moments, i, m, cls == "conv", hyd_types=s["order"], use_empiric_calc=True, parallel=False, **kw)
        rho = np.array(s["p"]) * 100 / (287.058 * np.array(s["T"]))
        WC = {h: synth.sub_q(s, cls, h) * rho * 1e3 for h in hyds}
        Ze = {h: emp_Ze(h, WC[h], T, i.freq * 1e-9) for h in hyds}
        liq = sum([WC[h] for h in hyds if h in ("cl", "pl")], np.zeros_like(WC[hyds[0]]))
        ht = 10 ** (-2 * synth.two_way(np.array(s["z"]) / 1e3, liq * kap, s["sfc"]) / 10)
        atm, tot = check_totals(m, s, cls, hyds, i, s["sfc"], Ze, ht)
        tots.append(tot), trans.append(ht)
    check_grand_total(m, s, i, tots, trans, atm)
    for v in before.variables:
        require(np.array_equal(before[v].values, m.ds[v].values), "input %s was modified", v)
    ms = [synth.mask(s, "strat", h) for h in hyds]
    ctx.nontriv(bool((sum(ms) > 1).any() and min(x.min() for x in ms) == 0))
    ctx.count("from_sfc", s["sfc"])
    ctx.count("with_conv", s["conv"])
    ctx.count("attenuated_1dB", bool((10 * np.log10(np.maximum(ht, 1e-300)) < -1).any()))


@CHECK.sub(specs(), quick=60, thorough=1000)
def classes_add(s, ctx):
    """Metamorphic: the classes simulated one by one give the same class fields as simulated together."""
    from emc2.simulator.radar_moments import calc_radar_moments
    i = synth.instrument(s["inst"])
    hyds = s["order"] or s["hyd"]
    a = sut(calc_radar_moments, i, synth.moment_model(s), False, hyd_types=hyds, use_empiric_calc=True)
    lin = 0.
    for h in hyds:
        b = sut(calc_radar_moments, i, synth.moment_model(s), False, hyd_types=[h], use_empiric_calc=True)
        close(synth.tkz(a, "sub_col_Ze_%s_strat" % h), synth.tkz(b, "sub_col_Ze_%s_strat" % h), "alone vs together " + h)
        lin = lin + np.nan_to_num(10 ** (synth.tkz(b, "sub_col_Ze_tot_strat") / 10.))
    close(synth.tkz(a, "sub_col_Ze_tot_strat"), dbz(lin), "sum over classes", rtol=1e-9, atol=1e-9)
    ctx.nontriv(len(hyds) > 1)
