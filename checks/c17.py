"""C17: frequency and mass phase ratios."""
import numpy as np
import xarray as xr
from hypothesis import strategies as st

from vlib.core import Check, require, sut, close
from vlib import synth, lidar

CHECK = Check("C17", "A case is a generated hydrometeor mask (integer classes, zeros or undefined where empty), numerator/denominator "
              "classes, or subcolumn and model mixing ratios, class subset, cloud kinds. Non-trivial: some ratio is strictly between 0 and 1.")
DIMS = ("subcolumn", "time", "height")


@st.composite
def specs(draw):
    nz, nt, ns = draw(st.integers(1, 5)), draw(st.integers(1, 3)), draw(st.integers(1, 6))
    s = {"nz": nz, "nt": nt, "ns": ns, "conv": draw(st.booleans()), "nan": draw(st.booleans()),
         "num": draw(st.sampled_from([1, 2, [1], [1, 3], [2, 4]])), "den": draw(st.sampled_from([None, None, [1, 2], [1, 2, 3, 4], 2])),
         "order": draw(synth.orders(synth.HYD4)), "known": draw(st.permutations(synth.HYD4))}
    s["rep"] = draw(st.sampled_from([1] * 6 + [60, 130, 300]))       # many subcolumns: the same ones over and over
    s["mask"] = [draw(synth.grid(nt, nz, st.integers(0, 4))) for _ in range(ns)]
    q = st.one_of(st.just(0.), synth.logfloat(1e-8, 1e-3))
    s["q"] = {c: {h: [draw(synth.grid(nt, nz, q)) for _ in range(ns)] for h in synth.HYD4}
              for c in (["conv", "strat"] if s["conv"] else ["strat"])}
    s["qm"] = {h: draw(synth.grid(nt, nz, q)) for h in synth.HYD4}
    return synth.blown(draw, s, t_max=140)


@CHECK.sub(specs(), quick=600, thorough=12000, shards=4)
def ratios(s, ctx):
    from emc2.simulator.classification import calculate_phase_ratio
    r = s["rep"]
    s = dict(s, ns=s["ns"] * r, mask=s["mask"] * r, q={c: {h: v * r for h, v in d.items()} for c, d in s["q"].items()})
    m = synth.base_model(hyd=s["known"])
    m.ds = xr.Dataset()
    m.process_conv, m.num_subcolumns = s["conv"], s["ns"]
    mask = np.array(s["mask"])
    stored = mask.astype(np.uint8)
    if s["nan"]:
        stored = np.where(mask == 0, np.nan, mask)
    m.ds["the_mask"] = synth.to_arr(stored, None, DIMS)
    m.ds[m.T_field] = synth.to_arr(np.full((s["nt"], s["nz"]), 260.), "K")
    for h in synth.HYD4:
        m.ds[m.q_names_stratiform[h]] = synth.to_arr(s["qm"][h], "kg/kg")
        for c in s["q"]:
            m.ds["%s_q_subcolumns_%s" % (c, h)] = synth.to_arr(s["q"][c][h], None, DIMS)
    m.ds["strat_frac_subcolumns_cl"] = synth.to_arr(np.zeros(mask.shape, bool), None, DIMS)
    before = m.ds.copy(deep=True)
    m = sut(calculate_phase_ratio, m, "the_mask", s["num"], mask_allhyd=s["den"], hyd_types=s["order"])
    num = np.isin(mask, s["num"]).sum(axis=0)
    den = (mask > 0).sum(axis=0) if s["den"] is None else np.isin(mask, s["den"]).sum(axis=0)
    with np.errstate(all="ignore"):
        exp = np.where(den > 0, num / den, np.nan)
    close(m.ds["the_mask_fpr"].values, exp, "frequency phase ratio", rtol=1e-12)
    mixed = ((exp > 0) & (exp < 1)).any()

    m = sut(calculate_phase_ratio, m, "the_mask", s["num"], mass_pr=True, mpr_subcolmod=True, hyd_types=s["order"])
    use = s["order"] or synth.HYD4
    liq = sum(np.where(mask > 0, np.array(s["q"][c][h]), 0) for c in s["q"] for h in use if h in ("cl", "pl"))
    tot = sum(np.where(mask > 0, np.array(s["q"][c][h]), 0) for c in s["q"] for h in use)
    liq = np.broadcast_to(liq, tot.shape)
    with np.errstate(all="ignore"):
        close(synth.tkz(m, "the_mask_mpr"), liq / tot, "subcolumn mass phase ratio", rtol=1e-9)
        close(m.ds["the_mask_mpr_sum"].values, liq.sum(axis=0) / tot.sum(axis=0), "mass phase ratio", rtol=1e-9)

    m = sut(calculate_phase_ratio, m, "the_mask", s["num"], mass_pr=True, hyd_types=s["order"])
    liq = sum([np.array(s["qm"][h]) for h in use if h in ("cl", "pl")], np.zeros((s["nt"], s["nz"])))
    with np.errstate(all="ignore"):
        exp = liq / sum(np.array(s["qm"][h]) for h in use)
    close(m.ds["mpr_q"].values, exp, "model mass phase ratio", rtol=1e-9)
    lidar.unchanged(before, m)
    ctx.nontriv(bool(mixed))
    ctx.count("undefined_in_mask", s["nan"])
    ctx.count("with_conv", s["conv"])
