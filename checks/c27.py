"""C27: statistics: lidar cloud fraction, contoured frequency diagrams, and saving them."""
import os
import tempfile

import numpy as np
import xarray as xr
from hypothesis import strategies as st

from vlib.core import Check, require, sut, close
from vlib import synth

CHECK = Check("C27", "A case is generated scattering ratios or reflectivities (subcolumn, time, bin, column; with undefined cells and values "
              "exactly on the edges) and generated bin edges. Non-trivial: some but not all of the values are cloudy, or two or more frequency "
              "bins are occupied.")


@st.composite
def fields(draw):
    return {"sh": [draw(st.one_of(st.integers(1, 6), st.integers(1, 6), st.integers(1, 6), st.integers(120, 300))), draw(synth.size(1, 4, 60)), draw(synth.size(1, 5, 60)), draw(synth.size(1, 3, 12))],
            "undef": draw(st.sampled_from([0., 0.3, 0.8])), "edge": draw(st.sampled_from([0., 0.3])), "seed": draw(st.integers(0, 2 ** 31 - 1)),
            "ne": draw(synth.size(2, 8, 80)), "even": draw(st.booleans())}


@CHECK.sub(fields(), quick=600, thorough=10000, shards=2)
def cloud_fraction(s, ctx):
    """Cloudy subcolumns (scattering ratio above 5) over those the lidar reaches (above 0.01); undefined where it reaches none."""
    from emc2.statistics_LLNL.statistical_aggregation import calculate_lidar_CF
    rng = np.random.RandomState(s["seed"])
    sr = 10 ** rng.uniform(-3.5, 2, s["sh"])
    pick = rng.rand(*s["sh"])
    sr[pick < s["edge"]] = rng.choice([5., 0.01, 1., 0., -2.], int((pick < s["edge"]).sum()))
    sr[rng.rand(*s["sh"]) < s["undef"]] = np.nan
    keep = sr.copy()
    cf = sut(calculate_lidar_CF, sr, *s["sh"][1:])
    close(sr, keep, "the scattering ratio passed in", rtol=0)
    seen = clouds = 0
    exp = np.full(s["sh"][1:], np.nan)
    for i in np.ndindex(*s["sh"][1:]):
        col = [v for v in sr[(slice(None),) + i] if v > 0.01]
        if col:
            exp[i] = sum(v > 5 for v in col) / len(col)
            seen += len(col)
            clouds += sum(v > 5 for v in col)
    close(cf, exp, "cloud fraction", rtol=1e-9)
    require(np.nanmax(cf, initial=0) <= 1 and np.nanmin(cf, initial=0) >= 0, "cloud fraction outside [0, 1]")
    ctx.nontriv(0 < clouds < seen)
    ctx.count("unreached", bool(np.isnan(exp).any()))


def edges(s, rng, lo, hi):
    if s["even"]:
        return np.linspace(lo, hi, s["ne"])
    return np.sort(rng.uniform(lo, hi, s["ne"]))


@CHECK.sub(fields(), quick=500, thorough=8000, shards=2)
def cfad(s, ctx):
    """Per bin of height and signal: the fraction of all subcolumns and times with a signal in [edge, next edge)."""
    from emc2.statistics_LLNL.statistical_aggregation import get_cfaddBZ, get_cfad_SR
    rng = np.random.RandomState(s["seed"])
    ns, nt, nz, nc = s["sh"]
    e = edges(s, rng, -30, 20)
    x = rng.uniform(-40, 30, s["sh"])
    pick = rng.rand(*s["sh"])
    x[pick < s["edge"]] = rng.choice(e, int((pick < s["edge"]).sum()))
    x[rng.rand(*s["sh"]) < s["undef"]] = np.nan
    keep = x.copy()
    mid = np.arange(nz) * 0.48 + 0.24
    for c in range(nc):
        exp = np.zeros((nz, s["ne"] - 1))
        for j in range(s["ne"] - 1):
            exp[:, j] = ((x[:, :, :, c] >= e[j]) & (x[:, :, :, c] < e[j + 1])).sum(axis=(0, 1)) / (ns * nt)
        for f in (get_cfaddBZ, get_cfad_SR):
            got = sut(f, e, mid, nt, ns, x, c)
            close(got, exp, "frequencies by %s of column %d" % (f.__name__, c), rtol=1e-9, atol=1e-12)
            require(np.all(got.sum(axis=1) <= 1 + 1e-9), "the frequencies of a height add up to more than 1")
        ctx.nontriv(int((exp > 0).sum()) > 1)
    close(x, keep, "the signal passed in", rtol=0)


@CHECK.sub(fields(), quick=100, thorough=1500)
def saving(s, ctx):
    """The saved file has the frequencies, the cloud fraction, their bins and the model output, as computed."""
    from emc2.statistics_LLNL.statistical_output import save_cfads_to_nc
    rng = np.random.RandomState(s["seed"])
    _, nt, nz, nc = s["sh"]
    nb = s["ne"]

    class M:
        pass
    m = M()
    m.ds = xr.Dataset({"q": (("time", "lev", "ncol"), rng.rand(nt, 3, nc))}, coords={"time": np.arange(nt) * 1., "ncol": np.arange(nc)})
    bins, cf, ze, sr = rng.uniform(-50, 20, nb), rng.rand(nt, nz, nc), rng.rand(nz, nb), rng.rand(nz, nb + 2)
    cf[rng.rand(*cf.shape) < s["undef"]] = np.nan
    q = m.ds["q"].values.copy()
    m.ds["q"].attrs["units"] = "kg/kg"
    again = s["seed"] % 3
    if again == 1:              # a model whose earlier statistics were loaded with it
        m.ds["CFAD_Radar"], m.ds["cloud_fraction"] = (("cosp_ht", "cosp_ze"), ze + 1), (("time", "cosp_ht", "ncol"), cf + 1)
    keep, arr = m.ds.copy(deep=True), [a.copy() for a in (bins, cf, ze, sr)]
    with tempfile.TemporaryDirectory(dir=os.environ["VERIF_SCRATCH"]) as d:
        if again == 2:          # over an older file
            sut(save_cfads_to_nc, m, bins - 1, cf + 1, ze + 1, sr + 1, d + "/", "o.nc")
        sut(save_cfads_to_nc, m, bins, cf, ze, sr, d + "/", "o.nc")
        require(os.listdir(d) == ["o.nc"], "files written: %s", os.listdir(d))
        out = xr.load_dataset(os.path.join(d, "o.nc"))
    for v, e, dims in (("CFAD_Radar", ze, None), ("CFAD_SR", sr, None), ("cloud_fraction", cf, ("time", "cosp_ht", "ncol")), ("q", q, ("time", "lev", "ncol"))):
        require(v in out, "%s was not saved", v)
        require(dims is None or out[v].dims == dims, "%s dims %s", v, out[v].dims)
        close(out[v].values, e, v, rtol=1e-9)
    require("cosp_dbz" in out.coords, "the reflectivity bins were not saved")
    close(out["cosp_dbz"].values, bins, "reflectivity bins", rtol=1e-9)
    require(out["q"].attrs.get("units") == "kg/kg", "the units of the model fields were not saved")
    require(m.ds.identical(keep), "saving changed the model output in memory")
    for a, b in zip(arr, (bins, cf, ze, sr)):
        close(b, a, "arrays handed over", rtol=0)
    ctx.nontriv()
