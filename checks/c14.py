"""C14: linear depolarisation ratio and extinction mask."""
import numpy as np
from hypothesis import strategies as st

from vlib.core import Check, require, sut, close, equal
from vlib import synth, lidar

CHECK = Check("C14", "A case is a generated lidar-simulated dataset (per-class backscatter with clear cells, total optical depth "
              "accumulated from the surface or the top and crossing the threshold or not), an extinction threshold, a class subset, "
              "default or user depolarisation ratios (plain or with units), with or without convection. Non-trivial: the signal is "
              "extinct somewhere but not everywhere.")


@st.composite
def specs(draw):
    nz, nt, ns = draw(st.integers(2, 7)), draw(st.integers(1, 3)), draw(st.integers(1, 4))
    hyd = draw(synth.classes(draw(st.sampled_from([synth.HYD4, ["cl", "ci"], synth.HYD4 + ["gr"]]))))
    conv = draw(st.booleans())
    s = {"nz": nz, "nt": nt, "ns": ns, "hyd": list(hyd), "conv": conv, "sfc": draw(st.booleans()), "b": {},
         "order": draw(synth.orders(hyd)), "ext_OD": draw(st.sampled_from([None, 0.5, 2., 4.])),
         "ldr": draw(st.sampled_from([None, "float", "quantity"])), "nan": draw(st.booleans())}
    beta = st.one_of(st.just(0.), synth.logfloat(1e-9, 1e-2), synth.logfloat(1e-18, 1e-9))
    for cls in (["conv", "strat"] if conv else ["strat"]):
        s["b"][cls] = {h: [draw(synth.grid(nt, nz, beta)) for _ in range(ns)] for h in hyd}
    s["tau"] = [draw(synth.grid(nt, nz, st.sampled_from([0., 0.1, 0.5, 1., 2.5, 4.]))) for _ in range(ns)]
    s["ldrv"] = {h: draw(st.integers(0, 100).map(lambda v: v / 100.)) for h in hyd}
    return synth.blown(draw, s, t_max=140)


@CHECK.sub(specs(), quick=900, thorough=20000, shards=6)
def ldr_and_extinction(s, ctx):
    from emc2.core.instrument import ureg
    from emc2.simulator.lidar_moments import calc_LDR_and_ext
    m = synth.base_model(hyd=s["hyd"])
    import xarray as xr
    m.ds = xr.Dataset()
    m.process_conv, m.num_subcolumns = s["conv"], s["ns"]
    m.LDR_per_hyd["gr"] = 0.5 / (ureg.kg / ureg.m ** 3)
    dims = ("subcolumn", "time", "height")
    clear = lambda b: np.where(np.array(b) == 0, np.nan, b) if s["nan"] else b      # finalized fields have undefined clear cells
    for cls in s["b"]:
        for h in s["hyd"]:
            m.ds["sub_col_beta_p_%s_%s" % (h, cls)] = synth.to_arr(clear(s["b"][cls][h]), None, dims)
    lay = np.array(s["tau"])
    od = np.cumsum(lay, axis=2) if s["sfc"] else np.cumsum(lay[:, :, ::-1], axis=2)[:, :, ::-1]
    m.ds["sub_col_OD_tot"] = synth.to_arr(od, None, dims)
    before = m.ds.copy(deep=True)
    kw = {"OD_from_sfc": s["sfc"], "hyd_types": s["order"]}
    if s["ext_OD"] is not None:
        kw["ext_OD"] = s["ext_OD"]
    val = {h: getattr(v, "magnitude", v) for h, v in m.LDR_per_hyd.items()}
    if s["ldr"]:
        val = s["ldrv"]
        kw["LDR_per_hyd"] = {h: (v if s["ldr"] == "float" else v * ureg.dimensionless) for h, v in val.items()}
    m = sut(calc_LDR_and_ext, m, **kw)
    hyds = s["order"] or s["hyd"]
    nt_, dt_ = 0., 0.
    for cls in s["b"]:
        num = sum(np.array(s["b"][cls][h]) * val[h] for h in hyds)
        den = sum(np.array(s["b"][cls][h]) for h in hyds)
        with np.errstate(all="ignore"):
            close(synth.tkz(m, "sub_col_LDR_" + cls), np.where(den > 0, num / den, np.nan), "%s depolarisation ratio" % cls, rtol=1e-9)
        nt_, dt_ = nt_ + num, dt_ + den
    with np.errstate(all="ignore"):
        close(synth.tkz(m, "sub_col_LDR_tot"), np.where(dt_ > 0, nt_ / dt_, np.nan), "total depolarisation ratio", rtol=1e-9)
    thr = 4. if s["ext_OD"] is None else s["ext_OD"]
    exp = np.zeros(od.shape)
    gone = od > thr
    exp[gone] = 2
    for k in range(s["nz"]):
        n = k + 1 if s["sfc"] else k - 1
        if 0 <= n < s["nz"]:
            exp[:, :, k] = np.where(~gone[:, :, k] & gone[:, :, n], 1, exp[:, :, k])
    equal(synth.tkz(m, "ext_mask"), exp, "extinction mask")
    lidar.unchanged(before, m)
    ctx.nontriv(bool(gone.any() and not gone.all()))
    ctx.count("with_conv", s["conv"])
    ctx.count("from_top", not s["sfc"])
