"""C29: the statistics plots show every subcolumn, and every frequency, in its own place."""
import os
import tempfile

import numpy as np
import xarray as xr
from hypothesis import strategies as st

from vlib.core import Check, require, sut, close
from vlib import synth

CHECK = Check("C29", "A case is a generated simulation output (subcolumns, times, levels and columns, undefined and flag values) or a generated "
              "frequency table on a generated grid, with generated colour limits and colour maps. Non-trivial: at least two levels, two "
              "times or bins and two different values are shown.")

T0 = np.datetime64("2021-03-01T00:00:00", "ns")


@st.composite
def outputs(draw):
    nt, ns = draw(synth.size(2, 4, 24)), draw(synth.size(1, 4, 40))
    steps = draw(st.lists(st.integers(1, 9), min_size=nt, max_size=nt))
    return {"nt": nt, "ns": ns, "nz": draw(synth.size(2, 5, 70)), "nc": draw(synth.size(1, 3, 20)), "c": draw(st.integers(0, 2)),
            "seed": draw(st.integers(0, 2 ** 31 - 1)), "steps": steps, "undef": draw(st.sampled_from([0., 0.2])), "flag": draw(st.sampled_from([0., 0.2])),
            "what": draw(st.sampled_from(["att", "nonatt", "sr", "q", "q2"])), "rl": draw(st.booleans()), "ll": draw(st.booleans()),
            "lim": draw(st.sampled_from([None, None, "both", "min", "max"])), "cmap": draw(st.sampled_from([None, "viridis", "jet"])),
            "alpha": draw(st.booleans()), "save": draw(st.integers(0, 7)) == 0, "z2": draw(st.booleans())}


def model(s):
    rng = np.random.RandomState(s["seed"])
    m = synth.base_model()
    m.model_name, m.z_field, m.time_dim, m.height_dim = "E3SMv1", "Z3", "time", "lev"
    sh = (s["ns"], s["nt"], s["nz"], s["nc"])
    d = ("subcolumn", "time", "lev", "ncol")
    z = np.sort(rng.uniform(50, 15000, sh[1:] if s["z2"] else (1, sh[2], 1)), axis=1)
    t = T0 + np.cumsum(s["steps"]) * np.timedelta64(600, "s")
    v = {}
    for name in ("sub_col_Ze_att_tot", "sub_col_Ze_tot"):
        v[name] = rng.uniform(-60, 20, sh)
        v[name][rng.rand(*sh) < s["flag"]] = -1e30
    for name in ("sub_col_beta_att_tot", "sub_col_beta_p_tot"):
        v[name] = 10 ** rng.uniform(-9, -2, sh)
    for h in ("cl", "ci", "pl", "pi"):
        v["strat_q_subcolumns_" + h] = 10 ** rng.uniform(-7, -3, sh) * (rng.rand(*sh) < 0.6)
    for a in v.values():
        a[rng.rand(*sh) < s["undef"]] = np.nan
    m.ds = xr.Dataset({k: (d, a) for k, a in v.items()}, coords={"time": t, "lev": np.arange(s["nz"]) + 1., "subcolumn": np.arange(s["ns"])})
    m.ds["Z3"] = (("time", "lev", "ncol"), np.broadcast_to(z, sh[1:]).copy())
    m.ds["Z3"].attrs["units"] = "m"
    return m, rng


def corners(a):
    """Corners of cells centred on the points of a two-dimensional grid (half a spacing to every side)."""
    for ax in (0, 1):
        a = np.moveaxis(a, ax, 0)
        h = np.diff(a, axis=0) / 2
        a = np.concatenate([a[:1] - h[:1], a[:-1] + h, a[-1:] + h[-1:]])
        a = np.moveaxis(a, 0, ax)
    return a


def meshes(n):
    import matplotlib.collections as mc
    import matplotlib.pyplot as plt
    r = []
    for ax in plt.gcf().axes[:n]:
        q = [c for c in ax.collections if isinstance(c, mc.QuadMesh)]
        require(len(q) == 1, "%d coloured meshes in one panel", len(q))
        r.append(q[0])
    return r


def shown(q):
    xy = np.asarray(q.get_coordinates())
    a = np.ma.asarray(q.get_array(), dtype=float)
    return np.ma.filled(np.ma.masked_invalid(a), np.nan).reshape(xy.shape[0] - 1, xy.shape[1] - 1), xy


def panel(q, value, x, y, lim, log, cmap, what):
    got, xy = shown(q)
    require(got.shape == value.shape, "%s: %s cells shown for %s values", what, got.shape, value.shape)
    if log:     # nothing to show at or below zero on a logarithmic scale
        value, got = np.where(value > 0, value, np.nan), np.where(got > 0, got, np.nan)
    close(got, value, what + " shown", rtol=1e-9)
    close(xy[..., 0], corners(x), what + ": horizontal position", rtol=0, atol=1e-6)
    close(xy[..., 1], corners(y), what + ": height", rtol=1e-9, atol=1e-9)
    close([q.norm.vmin, q.norm.vmax], lim, what + ": colour limits", rtol=1e-9)
    if cmap:
        require(q.get_cmap().name == cmap, "%s: colour map %s instead of %s", what, q.get_cmap().name, cmap)


def dress(q, value, y, x):
    """Quantity and unit are named at the colours and axes of a panel."""
    has = lambda t, w: all(k in t for k in w)
    require(q.colorbar is not None, "a panel has no colour bar")
    b = q.colorbar.ax.get_xlabel() + q.colorbar.ax.get_ylabel()
    require(has(b, value), "colours are labelled %s", b)
    require(has(q.axes.get_ylabel(), y), "vertical axis is labelled %s", q.axes.get_ylabel())
    require(x is None or has(q.axes.get_xlabel(), x), "horizontal axis is labelled %s", q.axes.get_xlabel())


@CHECK.sub(outputs(), quick=240, thorough=3600, shards=8)
def subcolumns(s, ctx):
    import matplotlib.pyplot as plt
    import emc2.statistics_LLNL.statistical_plots as P
    m, rng = model(s)
    c = s["c"] % s["nc"]
    keep = m.ds.copy(deep=True)
    a0, b0 = rng.uniform(1e-7, 1e-4, (2, s["ns"], s["nt"], s["nz"], s["nc"]))
    a, b = a0.copy(), b0.copy()
    kw = {}
    if s["cmap"]:
        kw["cmap"] = s["cmap"]
    if s["alpha"]:
        kw["alpha"] = 0.5
    lo, hi = {"sr": (0, 80), "q": (0, .1), "q2": (0, .1)}.get(s["what"], (0, 0))
    rad, lid = (-50, 10), (1e-8, 1e-3 if s["what"] == "att" else 1e-1)
    if s["what"] in ("att", "nonatt"):
        if s["rl"]:
            rad = (-33., 7.)
            kw.update(vmin_radar=-33., vmax_radar=7.)
        if s["ll"]:
            lid = (1e-7, 1e-2)
            kw.update(vmin_lidar=1e-7, vmax_lidar=1e-2)
    else:
        if s["lim"] in ("both", "min"):
            lo = kw["vmin"] = 0.01
        if s["lim"] in ("both", "max"):
            hi = kw["vmax"] = 0.5
    plt.close("all")
    with tempfile.TemporaryDirectory() as d:
        out = ("save", d, "x") if s["save"] else ("", "", "")
        f = {"att": P.plot_every_subcolumn_timeseries_radarlidarsignal, "nonatt": P.plot_every_subcolumn_timeseries_nonatt_radarlidarsignal,
             "q": P.plot_every_subcolumn_timeseries_mixingratio, "q2": P.plot_every_subcolumn_timeseries_mixingratio_cloud_precipitation}
        real = plt.Figure.savefig
        plt.Figure.savefig = lambda self, *x, **k: real(self, *x, **dict(k, dpi=20))     # small pictures
        try:
            if s["what"] == "sr":
                sut(P.plot_every_subcolumn_timeseries_SR, m, a, b, c, *out, **dict(kw))
            else:
                sut(f[s["what"]], m, c, *out, **dict(kw))
        finally:
            plt.Figure.savefig = real
        require(len(os.listdir(d)) == s["save"], "%d pictures were saved", len(os.listdir(d)))
    ns, nt = s["ns"], s["nt"]
    flat = lambda v: np.stack([v[j, i, :, c] for i in range(nt) for j in range(ns)], axis=1)      # time by time, subcolumn by subcolumn
    day = (keep["time"].values - np.datetime64("1970-01-01", "ns")) / np.timedelta64(1, "D")
    before = np.concatenate([[2 * day[0] - day[1]], day[:-1]])
    x = np.array([before[i] + (day[i] - before[i]) * (j + 1) / ns for i in range(nt) for j in range(ns)])
    x = np.tile(x, (s["nz"], 1))
    y = flat(np.tile(keep["Z3"].values / 1e3, (ns, 1, 1, 1)))
    undef = lambda v: np.where(v <= -1e20, np.nan, v)
    q = {n: keep["strat_q_subcolumns_" + n].values for n in ("cl", "ci", "pl", "pi")}
    if s["what"] in ("att", "nonatt"):
        n = ("sub_col_Ze_att_tot", "sub_col_beta_att_tot") if s["what"] == "att" else ("sub_col_Ze_tot", "sub_col_beta_p_tot")
        want = [(flat(undef(keep[n[0]].values)), rad, False, "reflectivity"), (flat(keep[n[1]].values), lid, True, "backscatter")]
    elif s["what"] == "sr":
        want = [(flat(a0 / b0), (lo, hi), False, "scattering ratio")]
    elif s["what"] == "q":
        want = [(flat(np.where(q[k] > 0, q[k], np.nan)) * 1e3, (lo, hi), False, "mixing ratio " + k) for k in ("cl", "ci", "pl", "pi")]
    else:
        want = [(flat(q["cl"] + q["ci"]) * 1e3, (lo, hi), False, "cloud mixing ratio"), (flat(q["pl"] + q["pi"]) * 1e3, (lo, hi), False, "precipitation mixing ratio")]
    for mesh, (v, lim, log, what) in zip(meshes(len(want)), want):
        panel(mesh, v, x, y, lim, log, s["cmap"], what)
        if s["alpha"]:
            require(mesh.get_alpha() == 0.5, "%s: keyword arguments of the mesh were not passed on", what)
    unit = {"reflectivity": ("Z", "dBZ"), "backscatter": ("beta", "m^{-1}"), "scattering ratio": ("SR", "")}
    for k, (mesh, w) in enumerate(zip(meshes(len(want)), want)):
        name = {"reflectivity": "Radar", "backscatter": "Lidar", "scattering ratio": "SR", "cloud mixing ratio": "Cloud",
                "precipitation mixing ratio": "Precipitation"}.get(w[3], w[3][-2:])
        require(name in " ".join(t.get_text() for t in mesh.axes.texts), "the panel of %s is called %s", w[3], [t.get_text() for t in mesh.axes.texts])
        dress(mesh, unit.get(w[3], ("q", "g/kg")), ("Height", "km"), ("Time", "UTC") if k == len(want) - 1 else None)
    require(m.ds.identical(keep), "drawing changed the model dataset")
    close(a, a0, "the total backscatter passed in", rtol=0)
    close(b, b0, "the molecular backscatter passed in", rtol=0)
    plt.close("all")
    ctx.nontriv(True)
    ctx.count(s["what"])
    ctx.count("one subcolumn", ns == 1)


@st.composite
def tables(draw):
    return {"nz": draw(st.integers(2, 40)), "nb": draw(st.integers(2, 16)), "dz": draw(st.sampled_from([0.48, 0.48, 0.24, 1.])), "seed": draw(st.integers(0, 2 ** 31 - 1)),
            "lidar": draw(st.booleans()), "undef": draw(st.sampled_from([0., 0.3])), "cmap": draw(st.sampled_from([None, "viridis"])),
            "lim": draw(st.sampled_from([None, None, "both", "min", "max"])), "alpha": draw(st.booleans()), "save": draw(st.integers(0, 7)) == 0}


@CHECK.sub(tables(), quick=120, thorough=1800, shards=4)
def frequencies(s, ctx):
    import matplotlib.pyplot as plt
    import emc2.statistics_LLNL.statistical_plots as P
    rng = np.random.RandomState(s["seed"])
    v0 = rng.uniform(0, 0.3, (s["nz"], s["nb"]))
    v0[rng.rand(s["nz"]) < s["undef"]] = np.nan
    mid0 = s["dz"] * (np.arange(s["nz"]) + 0.5)
    e0 = np.cumsum(rng.uniform(0.5, 9, s["nb"] + 1)) - (3 if s["lidar"] else 50)
    v, mid, e = v0.copy(), mid0.copy(), e0.copy()
    kw, lim = {}, [0., 0.2]
    if s["lim"] in ("both", "min"):
        lim[0] = kw["vmin"] = 0.05
    if s["lim"] in ("both", "max"):
        lim[1] = kw["vmax"] = 0.7
    if s["cmap"]:
        kw["cmap"] = s["cmap"]
    if s["alpha"]:
        kw["alpha"] = 0.5
    plt.close("all")
    with tempfile.TemporaryDirectory() as d:
        f = P.plot_lidar_SR_CFAD if s["lidar"] else P.plot_radar_CFAD
        real = plt.Figure.savefig
        plt.Figure.savefig = lambda self, *x, **k: real(self, *x, **dict(k, dpi=20))
        try:
            sut(f, e, mid, v, "save" if s["save"] else "", d, "x", **dict(kw))
        finally:
            plt.Figure.savefig = real
        require(len(os.listdir(d)) == s["save"], "%d pictures were saved", len(os.listdir(d)))
    q, = meshes(1)
    got, xy = shown(q)
    close(got, v0, "frequencies shown", rtol=1e-12)
    x = np.arange(s["nb"] + 1.) if s["lidar"] else e0
    close(xy[..., 0], np.tile(x, (s["nz"] + 1, 1)), "bin edges", rtol=1e-9)
    close(xy[..., 1], np.tile(s["dz"] * np.arange(s["nz"] + 1.)[:, None], (1, s["nb"] + 1)), "height edges", rtol=1e-9, atol=1e-9)
    require(q.axes.get_title() == ("Lidar" if s["lidar"] else "Radar"), "title %s", q.axes.get_title())
    dress(q, ("frequency",), ("Height", "km"), ("SR",) if s["lidar"] else ("Ze", "dBZ"))
    if s["lidar"]:              # bins of equal width on the page: the ticks tell their edges
        t, lab = q.axes.get_xticks(), [k.get_text() for k in q.axes.get_xticklabels()]
        require(len(t) == len(lab) > 1, "%d edges are labelled", len(lab))
        for k, w in zip(t, lab):
            require(k == int(k) and 0 <= k <= s["nb"] and abs(float(w) - max(e0[int(k)], 0)) <= 1e-9, "the tick at edge %s (%s) says %s", k, e0[min(int(k), s["nb"])], w)
    close([q.norm.vmin, q.norm.vmax], lim, "colour limits", rtol=1e-9)
    if s["cmap"]:
        require(q.get_cmap().name == s["cmap"], "colour map %s instead of %s", q.get_cmap().name, s["cmap"])
    if s["alpha"]:
        require(q.get_alpha() == 0.5, "keyword arguments of the mesh were not passed on")
    for p, p0, what in ((v, v0, "frequencies"), (mid, mid0, "heights"), (e, e0, "bin edges")):
        close(p, p0, "the %s passed in" % what, rtol=0)
    plt.close("all")
    ctx.nontriv(np.unique(v0[np.isfinite(v0)]).size > 1)
    ctx.count("lidar" if s["lidar"] else "radar")
