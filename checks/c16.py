"""C16: emulated COSP (Cesana and Chepfer 2013) cloud detection and phase."""
import numpy as np
import xarray as xr
from hypothesis import strategies as st

from vlib.core import Check, require, sut, equal, close
from vlib import synth, lidar

CHECK = Check("C16", "A case is a generated lidar-simulated dataset (backscatter and optical depth per class, subcolumn and cloud kind, "
              "molecular profile, temperature in stored units), multiple scattering, thresholds, curves, direction, class subset. "
              "Non-trivial: at least two different phases occur.")
DIMS = ("subcolumn", "time", "height")
CURVE = [9.032e3, -2.136e3, 173.394, -3.951, 0.256, -9.478e-4]


@st.composite
def specs(draw):
    nz, nt, ns = draw(st.integers(1, 6)), draw(st.integers(1, 3)), draw(st.integers(1, 3))
    s = {"nz": nz, "nt": nt, "ns": ns, "conv": draw(st.booleans()), "sfc": draw(st.booleans()), "nan": draw(st.booleans()),
         "eta": draw(st.sampled_from([None, 0.7, 1.])), "precip": draw(st.sampled_from([None, True, False])),
         "order": draw(synth.orders(synth.HYD4)), "known": draw(st.permutations(synth.HYD4)), "atb": draw(st.booleans()),
         "sr": draw(st.sampled_from([None, 5., 2.])), "und": draw(st.sampled_from([None, 30., 10.])),
         "curve": draw(st.sampled_from([None, None, [0.256, -9.478e-4]])),
         "cross": draw(st.sampled_from([None, None, {"liq": [0.1, 0.], "ice": [0.5, 0.01]}])),
         "tu": draw(st.sampled_from(["K", "degC"])), "f": {}}
    beta = st.one_of(st.just(0.), synth.logfloat(1e-8, 1e-3))
    for c in (["conv", "strat"] if s["conv"] else ["strat"]):
        s["f"][c] = {h: {"b": [draw(synth.grid(nt, nz, beta)) for _ in range(ns)],
                         "o": [draw(synth.grid(nt, nz, st.sampled_from([0., 0., 0.01, 0.1, 0.5, 2.]))) for _ in range(ns)]}
                     for h in synth.HYD4}
    s["T"] = draw(synth.grid(nt, nz, st.one_of(st.integers(185, 315).map(float), st.sampled_from([233., 233.2, 273., 273.2]))))
    s["mol"] = draw(synth.grid(nt, nz, synth.logfloat(1e-7, 2e-6)))
    s["tau"] = draw(synth.grid(nt, nz, st.integers(60, 100).map(lambda v: v / 100.)))
    return synth.blown(draw, s, t_max=140)


def phase(s, bt, bc, od, mol, tau):
    """(mask, ambiguous cells, (ATB, cross ATB, SR)) for summed backscatter bt, cross part bc and optical depth od."""
    eta = 0.7 if s["eta"] is None else s["eta"]
    tr = np.exp(-2 * eta * od) * tau
    atb, cr = (bt + bc + mol * 1.0284) * tr, (bc + mol * 0.0284 / 1.0284) * tr
    sr = atb / (mol * 1.0284 * tau)
    thr, und = s["sr"] or 5., s["und"] or 30.
    disc = np.polyval(s["curve"] or CURVE, atb * 1e3) / 1e3
    mask = np.where(sr > thr, np.where(cr > disc, 2, 1), 0)
    amb = (np.abs(sr / thr - 1) < 1e-9) | ((sr > thr) & (np.abs(cr - disc) < 1e-9 * (np.abs(cr) + np.abs(disc))))
    T = np.array(s["T"])
    mask = np.where((mask > 0) & (T > 273.15), 1, mask)
    mask = np.where((mask > 0) & (T < 233.15), 2, mask)
    strong = sr > und
    behind = np.zeros(sr.shape, bool)
    order = range(s["nz"]) if s["sfc"] else range(s["nz"] - 1, -1, -1)
    for t in np.ndindex(sr.shape[:2]):
        hit = False
        for k in order:
            behind[t + (k,)] = hit
            hit = hit or strong[t + (k,)]
    mask = np.where((mask > 0) & behind, 3, mask).astype(float)
    amb |= (np.abs(sr / und - 1) < 1e-9).any(axis=2)[..., None]
    if s["nan"]:
        mask[mask == 0] = np.nan
    return mask, amb, (atb, cr, sr)


@CHECK.sub(specs(), quick=700, thorough=15000, shards=7)
def cosp(s, ctx):
    from emc2.simulator.classification import lidar_emulate_cosp_phase
    i = synth.instrument("HSRL")
    m = synth.base_model(hyd=s["known"])
    m.ds = xr.Dataset()
    m.process_conv, m.num_subcolumns = s["conv"], s["ns"]
    F = {c: {h: {k: np.array(v) for k, v in d.items()} for h, d in x.items()} for c, x in s["f"].items()}
    for c in F:
        for h in synth.HYD4:
            m.ds["sub_col_beta_p_%s_%s" % (h, c)] = synth.to_arr(F[c][h]["b"], None, DIMS)
            m.ds["sub_col_OD_%s_%s" % (h, c)] = synth.to_arr(F[c][h]["o"], None, DIMS)
        m.ds["sub_col_beta_p_tot_" + c] = synth.to_arr(sum(F[c][h]["b"] for h in synth.HYD4), None, DIMS)
        m.ds[c + "_q_subcolumns_cl"] = synth.to_arr(np.zeros((s["ns"], s["nt"], s["nz"])), None, DIMS)
    m.ds["sigma_180_vol"], m.ds["tau"] = synth.to_arr(s["mol"], None), synth.to_arr(s["tau"], None)
    T = np.array(s["T"])
    m.ds[m.T_field] = synth.to_arr(T if s["tu"] == "K" else T - 273.15, s["tu"])
    before = m.ds.copy(deep=True)
    kw = {"OD_from_sfc": s["sfc"], "convert_zeros_to_nan": s["nan"], "output_ATB": s["atb"], "hyd_types": s["order"]}
    for k, n in (("eta", "eta"), ("precip", "inc_precip_hyd_atb"), ("sr", "cloud_SR_thresh"), ("und", "undef_SR_thresh"),
                 ("curve", "phase_disc_curve"), ("cross", "atb_cross_coeff")):
        if s[k] is not None:
            kw[n] = s[k]
    m = sut(lidar_emulate_cosp_phase, i, m, **kw)
    coef = s["cross"] or {"liq": [0.4099, 0.009, 0], "ice": [0.2904, 0]}
    use = s["order"] or synth.HYD4
    if s["precip"] is False:
        use = [h for h in use if h in ("cl", "ci")]
    mol, tau = np.array(s["mol"]), np.array(s["tau"])
    eta = 0.7 if s["eta"] is None else s["eta"]
    tot = [0., 0., 0.]
    res = {}
    zero = np.zeros((s["ns"], s["nt"], s["nz"]))
    for c in F:
        part = [zero, zero, zero]
        for ph, hs in (("liq", ("cl", "pl")), ("ice", ("ci", "pi"))):
            b = sum([F[c][h]["b"] for h in hs if h in use], zero)
            o = sum([F[c][h]["o"] for h in hs if h in use], zero)
            tr = tau * np.exp(-2 * eta * o)
            bc = np.polyval(coef[ph], (mol + b) * tr * 1e3) / 1e3 / tr - mol * 0.0284 / 1.0284
            part = [x + y for x, y in zip(part, (b, bc, o))]
        res[c] = phase(s, *part, mol, tau)
        tot = [x + y for x, y in zip(tot, part)]
    res["all_hyd"] = phase(s, *tot, mol, tau)
    seen = set()
    for c, (mask, amb, fields) in res.items():
        name = "COSP_phase_mask_all_hyd" if c == "all_hyd" else c + "_COSP_phase_mask"
        got = synth.tkz(m, name).astype(float)
        equal(np.where(amb, 0, got), np.where(amb, 0, mask), name)
        require(list(m.ds[name].attrs["legend"]) == ["liquid", "ice", "undef"], "legend of %s", name)
        if s["atb"]:
            for n, f in zip(("ATBtot", "ATBcross", "SR"), fields):
                close(synth.tkz(m, "COSP_%s_%s" % (n, c)), f, "COSP %s %s" % (n, c), rtol=1e-8, atol=1e-15)
        seen |= set(np.unique(np.nan_to_num(mask)))
    lidar.unchanged(before, m)
    ctx.nontriv(len(seen - {0.}) > 1)
    ctx.count("undefined_seen", 3. in seen)
    ctx.count("from_top", not s["sfc"])
    ctx.count("with_conv", s["conv"])
    ctx.count("celsius", s["tu"] != "K")


@CHECK.sub(st.sampled_from(["RL", "CEIL", "Ten64nm", "KAZR-nsa"]), quick=8, thorough=8)
def only_532nm(name, ctx):
    from emc2.simulator.classification import lidar_emulate_cosp_phase
    try:
        lidar_emulate_cosp_phase(synth.instrument(name), synth.base_model())
    except ValueError:
        ctx.nontriv()
        return
    require(False, "COSP emulation accepted %s", name)
