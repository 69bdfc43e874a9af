"""C19: saving, loading, removing and finalizing subcolumn fields."""
import os
import tempfile

import numpy as np
import xarray as xr
from hypothesis import strategies as st

from vlib.core import Check, require, sut, close, equal
from vlib import synth, lidar
from checks import c08, c18

CHECK = Check("C19", "A case is a generated model with explicit subcolumns, simulated with one or two instruments and options, then a sequence "
              "of save / load into another model / overwrite / delete file / simulate on / remove / finalize. Non-trivial: the fields "
              "hold clear and filled subcolumns.")


@st.composite
def specs(draw):
    s = draw(c18.specs((1, 2), 3, 4, 3))
    s["later"] = draw(c18.calls())
    s["after"] = draw(st.sampled_from(["delete", "overwrite", "keep"]))
    s["bare"] = draw(st.booleans())
    s["drop"] = draw(st.sampled_from(["conv", "strat"]))
    s["more"] = draw(st.sampled_from([[], ["subcolumns"], ["subcolumns_cl"]]))
    s["ratio"] = draw(st.one_of(st.none(), st.integers(0, 5)))
    s["t0"] = draw(st.integers(0, 40000))
    return s


def timed(s, m):
    t = np.datetime64("1990-01-01T00:00", "ns") + (s["t0"] * 3600 + np.arange(s["nt"]) * 600) * np.timedelta64(1000000000, "ns")
    m.ds["time"] = ("time", t)
    return m


def build(s):
    return timed(s, c08.build(s, synth.instrument("HSRL" if s["calls"][0]["inst"] in c18.LID else "NEXRAD")))


SIM = ("sub_col", "subcol", "phase_mask", "ext_mask", "Ze_min", "hyd_ext", "atm_ext", "detect_mask", "mpr", "fpr")


def sim_fields(ds):
    return [v for v in ds.variables if any(x in str(v) for x in SIM)]


def same_field(a, b, what):
    require(a.dims == b.dims, "%s: dims %s, were %s", what, a.dims, b.dims)
    equal(np.asarray(a.values, float), np.asarray(b.values, float), what)
    for k in ("units", "long_name", "Processing method"):
        require(str(a.attrs.get(k)) == str(b.attrs.get(k)), "%s: attribute %s is %r, was %r", what, k, a.attrs.get(k), b.attrs.get(k))


@CHECK.sub(specs(), quick=160, thorough=3000, shards=6)
def save_and_load(s, ctx):
    m = build(s)
    for c in s["calls"]:
        m = c18.whole(m, c, s["nsub"], skip_subcol_gen=True)
    masks = sorted(v for v in m.ds.data_vars if "phase_mask" in v and "subcolumn" in m.ds[v].dims)
    if masks and s["ratio"] is not None:
        from emc2.simulator.classification import calculate_phase_ratio
        for h in s["hyd"]:
            m.ds[m.q_names_stratiform[h]] = synth.to_arr(s["sc"]["strat"][h]["q"], "kg/kg")
        for mass in (False, True):
            m = sut(calculate_phase_ratio, m, masks[s["ratio"] % len(masks)], 1, mass_pr=mass)
        ctx.count("phase_ratio")
    before = m.ds.copy(deep=True)
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "sub.nc")
        if s["after"] == "overwrite":
            open(path, "wb").write(b"x" * 1000)
        sut(m.subcolumns_to_netcdf, path)
        require(set(before.variables) == set(m.ds.variables), "saving changed the model's fields")
        lidar.unchanged(before, m)
        g = build(s)
        g.ds = g.ds.drop_vars([v for v in g.ds.variables if "subcol" in v])
        if s["bare"]:
            g.ds = xr.Dataset()
        sut(g.load_subcolumns_from_netcdf, path)
        if s["after"] == "delete":
            os.remove(path)
            sut(g.ds.load)      # nothing is left to be read from the file
        for v in sim_fields(before):
            require(v in g.ds.variables, "%s was not restored", v)
            same_field(g.ds[v], before[v], "restored " + v)
        equal(g.ds["time"].values, before["time"].values, "restored time")
        require(g.num_subcolumns == s["nsub"], "restored %s subcolumns, had %d", g.num_subcolumns, s["nsub"])
        if s["after"] == "overwrite":
            sut(g.subcolumns_to_netcdf, path)
            g2 = build(s)
            g2.ds = xr.Dataset()
            sut(g2.load_subcolumns_from_netcdf, path)
            for v in sim_fields(before):
                same_field(g2.ds[v], before[v], "twice restored " + v)
        if not s["bare"]:
            g = c18.whole(g, s["later"], s["nsub"], skip_subcol_gen=True)
            m = c18.whole(m, s["later"], s["nsub"], skip_subcol_gen=True)
            for v in sim_fields(m.ds):
                close(g.ds[v].values, m.ds[v].values, "%s simulated from restored subcolumns" % v, rtol=1e-9, atol=1e-290)
    ctx.nontriv(c18.overlap(s))
    ctx.count(s["after"])


@CHECK.sub(specs(), quick=100, thorough=2000, shards=3)
def remove_and_finalize(s, ctx):
    m = build(s)
    for c in s["calls"]:
        m = c18.whole(m, c, s["nsub"], skip_subcol_gen=True)
    a = m.ds.copy(deep=True)
    sut(m.finalize_subcol_fields, *([s["more"]] if s["more"] else []))
    for v in a.variables:
        x = a[v].values
        if v in a.data_vars and any(k in v for k in ["sub_col"] + s["more"]):
            equal(m.ds[v].values, np.where(x == 0, np.nan, x.astype(float)), "finalized " + v)
        else:
            require(np.array_equal(x, m.ds[v].values, equal_nan=x.dtype.kind == "f"), "finalizing changed %s", v)
        require(m.ds[v].dims == a[v].dims and str(m.ds[v].attrs) == str(a[v].attrs), "finalizing changed dims or attributes of %s", v)
    b = m.ds.copy(deep=True)
    sut(m.remove_subcol_fields, *([s["drop"]] if s["drop"] == "strat" else []))
    other = {"conv": "strat", "strat": "conv"}[s["drop"]]
    for v in b.variables:
        if any(k in v for k in ("sub_col", "subcol", "phase_mask")) and s["drop"] in v:
            require(v not in m.ds.variables, "%s was not removed", v)
        else:
            require(v in m.ds.variables, "%s was removed with the %s fields", v, s["drop"])
            require(np.array_equal(b[v].values, m.ds[v].values, equal_nan=b[v].dtype.kind == "f"), "%s changed", v)
    require(m.num_subcolumns == s["nsub"], "the number of subcolumns was lost")
    ctx.nontriv(c18.overlap(s))
    ctx.count("conv_removed", s["conv"] and s["drop"] == "conv")
    ctx.count("kept_" + other)
