"""C15: lidar threshold phase masks and radar-sounding hydrometeor masks."""
import numpy as np
import xarray as xr
from hypothesis import strategies as st

from vlib.core import Check, require, sut, equal
from vlib import synth, lidar

CHECK = Check("C15", "A case is a generated simulated dataset (backscatter, depolarisation and optical depth, or attenuated reflectivity, "
              "sensitivity profile and cloud flags, per subcolumn and cloud kind, undefined values in clear cells), thresholds "
              "(stock or generated), masking options. Non-trivial: at least two different classes occur in a mask.")
DIMS = ("subcolumn", "time", "height")


# depolarisation nodes of user thresholds; beyond the outer nodes the threshold stays what it is there
ldr_nodes = st.integers(5, 30).flatmap(lambda v: st.sampled_from([[0., v / 100., 1.], [v / 200., v / 100., 0.35]]))


@st.composite
def lidar_specs(draw):
    nz, nt, ns = draw(st.integers(1, 6)), draw(st.integers(1, 3)), draw(st.integers(1, 3))
    s = {"nz": nz, "nt": nt, "ns": ns, "conv": draw(st.booleans()), "inst": draw(st.sampled_from(["HSRL", "RL", "CALIOP", "CEIL", "MPL", "CEIL+warm"])),
         "nan": draw(st.booleans()), "sub": draw(st.sampled_from([None, True, False])), "ext": draw(st.sampled_from([None, None, 2.])),
         "f": {}}
    beta = st.one_of(st.just(0.), synth.logfloat(1e-8, 3e-3), synth.logfloat(1e-8, 3e-3))
    for c in (["conv", "strat"] if s["conv"] else ["strat"]):
        s["f"][c] = {"b": [draw(synth.grid(nt, nz, beta)) for _ in range(ns)],
                     "l": [draw(synth.grid(nt, nz, st.integers(0, 450).map(lambda v: v / 1000.))) for _ in range(ns)],
                     "o": [draw(synth.grid(nt, nz, st.sampled_from([0., 0.5, 1.9, 2.1, 3.9, 4., 4.1, 9.]))) for _ in range(ns)]}
    s["thr"] = None
    if s["inst"].startswith("CEIL") or draw(st.booleans()):
        n = draw(st.integers(1, 4))
        ind = draw(st.permutations(range(1, n + 1)))
        s["thr"] = [{"class": "c%d" % k, "class_ind": k, "LDR": draw(ldr_nodes),
                     "beta_p": [draw(synth.logfloat(1e-8, 1e-3)) for _ in range(3)]} for k in ind]
    return synth.blown(draw, s, t_max=140)


def interp(x, xp, fp):
    x = np.clip(x, xp[0], xp[-1])
    j = np.clip(np.searchsorted(xp, x, side="right") - 1, 0, len(xp) - 2)
    xp, fp = np.array(xp), np.array(fp)
    return fp[j] + (fp[j + 1] - fp[j]) * (x - xp[j]) / (xp[j + 1] - xp[j])


@CHECK.sub(lidar_specs(), quick=900, thorough=20000, shards=4)
def lidar_phase(s, ctx):
    from emc2.simulator.classification import lidar_classify_phase
    i = synth.instrument(s["inst"])
    i.ext_OD = s["ext"] or i.ext_OD
    m = synth.base_model()
    m.ds = xr.Dataset()
    m.process_conv, m.num_subcolumns = s["conv"], s["ns"]
    b = {c: np.array(s["f"][c]["b"]) for c in s["f"]}
    o = {c: np.array(s["f"][c]["o"]) for c in s["f"]}
    ldr = {c: np.where(b[c] > 0, np.array(s["f"][c]["l"]), np.nan) for c in s["f"]}
    with np.errstate(all="ignore"):
        wsum = sum(np.nan_to_num(ldr[c]) * b[c] for c in s["f"])
        b["tot"], o["tot"] = sum(b.values()), sum(o.values())
        ldr["tot"] = np.where(b["tot"] > 0, wsum / b["tot"], np.nan)
    for c in b:
        cc = "tot" if c == "tot" else "tot_" + c
        m.ds["sub_col_beta_p_" + cc] = synth.to_arr(b[c], None, DIMS)
        m.ds["sub_col_OD_" + cc] = synth.to_arr(o[c], None, DIMS)
        m.ds["sub_col_LDR_" + c] = synth.to_arr(ldr[c], None, DIMS)
    before = m.ds.copy(deep=True)
    kw = {"convert_zeros_to_nan": s["nan"]}
    if s["sub"] is not None:
        kw["remove_sub_detect"] = s["sub"]
    if s["thr"] is not None:
        kw["beta_p_phase_thresh"] = s["thr"]
    m = sut(lidar_classify_phase, i, m, **kw)
    thr = s["thr"] or i.beta_p_phase_thresh
    seen = set()
    for c in (list(b) if s["conv"] else ["tot"]):
        exp, amb = np.zeros(b[c].shape), np.zeros(b[c].shape, bool)
        with np.errstate(all="ignore"):
            lb = np.log10(b[c])
        for t in thr:
            x = interp(np.nan_to_num(ldr[c]), t["LDR"], np.log10(t["beta_p"]))
            exp = np.where((b[c] > 0) & (lb >= x), t["class_ind"], exp)
            amb |= np.abs(lb - x) < 1e-9
        if s["sub"] is not False:
            exp[o[c] > i.ext_OD] = 0
        if s["nan"]:
            exp[exp == 0] = np.nan
        name = "phase_mask_%s_all_hyd" % i.instrument_str if c == "tot" else "%s_phase_mask_%s" % (c, i.instrument_str)
        got = synth.tkz(m, name).astype(float)
        equal(np.where(amb, 0, got), np.where(amb, 0, exp), "phase mask %s" % name)
        legend = {t["class_ind"]: t["class"] for t in thr}
        require(list(m.ds[name].attrs["legend"]) == [legend[k + 1] for k in range(len(thr))], "legend of %s", name)
        seen |= set(np.unique(np.nan_to_num(exp)))
    lidar.unchanged(before, m)
    ctx.nontriv(len(seen) > 2)
    ctx.count("user_thresholds", s["thr"] is not None)
    ctx.count("with_conv", s["conv"])


@st.composite
def radar_specs(draw):
    nz, nt, ns = draw(st.integers(1, 6)), draw(st.integers(1, 3)), draw(st.integers(1, 3))
    s = {"nz": nz, "nt": nt, "ns": ns, "conv": draw(st.booleans()), "inst": draw(st.sampled_from(["KAZR-nsa", "WACR-sgp"])),
         "nan": draw(st.booleans()), "rng": draw(st.sampled_from([None, None, [500., 2000.], [0., 1000.]])), "f": {}}
    cl = ["conv", "strat"] if s["conv"] else ["strat"]
    for c in cl + ["tot"]:
        s["f"][c] = [draw(synth.grid(nt, nz, st.one_of(st.integers(-60, 30).map(float), st.none()))) for _ in range(ns)]
    s["cl"] = {c: [draw(synth.grid(nt, nz, st.integers(0, 1))) for _ in range(ns)] for c in cl}
    s["min"] = draw(synth.grid(nt, nz, st.integers(-60, 0).map(float)))
    s["z"] = [[300. + 200. * t + 250. * k for k in range(nz)] for t in range(nt)]
    return synth.blown(draw, s, t_max=140)


@CHECK.sub(radar_specs(), quick=600, thorough=12000, shards=3)
def radar_sounding(s, ctx):
    from emc2.simulator.classification import radar_classify_phase
    i = synth.instrument(s["inst"])
    m = synth.base_model()
    m.ds = xr.Dataset()
    m.process_conv, m.num_subcolumns = s["conv"], s["ns"]
    ze = {c: np.array(v, dtype=float) for c, v in s["f"].items()}
    for c in ze:
        m.ds["sub_col_Ze_att_tot" + ("" if c == "tot" else "_" + c)] = synth.to_arr(ze[c], None, DIMS)
    for c in s["cl"]:
        m.ds["%s_frac_subcolumns_cl" % c] = synth.to_arr(np.array(s["cl"][c]).astype(bool), None, DIMS)
    m.ds["Ze_min"] = synth.to_arr(s["min"], "dBZ")
    m.ds[m.z_field] = synth.to_arr(s["z"], "m")
    before = m.ds.copy(deep=True)
    m = sut(radar_classify_phase, i, m, mask_height_rng=s["rng"], convert_zeros_to_nan=s["nan"])
    cloud = {c: np.array(v) == 1 for c, v in s["cl"].items()}
    cloud["tot"] = np.any(list(cloud.values()), axis=0)
    seen = set()
    for c in (list(ze) if s["conv"] else ["tot"]):
        echo = np.nan_to_num(ze[c], nan=-999.) >= np.array(s["min"])
        exp = np.where(cloud[c] & echo, 2., np.where(cloud[c], 1., np.where(echo, 3., 0.)))
        if s["rng"]:
            z = np.array(s["z"])
            exp[:, (z < s["rng"][0]) | (z > s["rng"][1])] = 0
        if s["nan"]:
            exp[exp == 0] = np.nan
        name = ("phase_mask_%s_sounding_all_hyd" if c == "tot" else c + "_phase_mask_%s_sounding") % i.instrument_str
        equal(synth.tkz(m, name).astype(float), exp, "mask %s" % name)
        require(list(m.ds[name].attrs["legend"]) == ["Cloud", "Mixed", "Precip"], "legend of %s", name)
        seen |= set(np.unique(np.nan_to_num(exp)))
    lidar.unchanged(before, m)
    ctx.nontriv(len(seen) > 2)
    ctx.count("height_range", s["rng"] is not None)


@CHECK.sub(st.sampled_from(["HSRL", "RL", "CEIL", "KAZR-nsa", "WACR-sgp"]), quick=10, thorough=10)
def refusals(name, ctx):
    """A lidar cannot be classified as a radar, nor the reverse, nor a lidar without thresholds by default."""
    from emc2.simulator.classification import lidar_classify_phase, radar_classify_phase
    i = synth.instrument(name)
    for f in ((radar_classify_phase,) if name in synth.LIDARS else (lidar_classify_phase,)) + \
            ((lidar_classify_phase,) if name == "CEIL" else ()):
        try:
            f(i, synth.base_model())
        except ValueError:
            continue
        require(False, "%s accepted %s", f.__name__, name)
    ctx.nontriv()
