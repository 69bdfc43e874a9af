"""C28: what the displays show is the data asked for, and drawing changes nothing."""
import functools

import numpy as np
import xarray as xr
from hypothesis import strategies as st

from vlib.core import Check, require, sut, close
from vlib import synth

CHECK = Check("C28", "A case is a generated model output (subcolumns, times, levels, undefined and zero cells) with generated display options "
              "(coordinates, mask, log scale, time window, kind of mean). Non-trivial: more than one time and level and two different "
              "finite values are shown.")


@st.composite
def outputs(draw):
    return {"nt": draw(synth.size(2, 4, 60)), "ns": draw(synth.size(1, 4, 50)), "nz": draw(synth.size(2, 5, 80)), "seed": draw(st.integers(0, 2 ** 31 - 1)),
            "var": draw(st.sampled_from(["sub_col_Ze_tot", "sub_col_beta_p_tot", "phase_mask", "curtain"])), "pc": draw(st.booleans()),
            "log": draw(st.integers(0, 3)) == 0, "lim": draw(st.sampled_from([None, None, "both", "min", "max"])),
            "mask": draw(st.sampled_from([None, None, "hide", "hatch", "pattern"])), "undef": draw(st.sampled_from([0., 0.3])),
            "order": draw(st.booleans()), "bar": draw(st.booleans()), "num": draw(st.booleans()), "k": draw(st.integers(0, 9)),
            "w": sorted([draw(st.integers(0, 4)), draw(st.integers(0, 4))]), "geom": draw(st.sampled_from([False, True, "auto"])),
            "win": draw(st.sampled_from(["all", "range", "one"])), "sd": draw(st.booleans()), "z2": draw(st.booleans()),
            "neg": draw(st.sampled_from([0., 0.5])), "badmask": draw(st.integers(0, 7)) == 0, "nomask": draw(st.integers(0, 5)) == 0,
            "lab": draw(st.sampled_from([None, "text"])), "ttl": draw(st.sampled_from([None, "my title"])), "xr": draw(st.booleans()), "yr": draw(st.booleans()), "two": draw(st.booleans())}


T0 = np.datetime64("2021-03-01T00:00:00", "ns")


def model(s):
    rng = np.random.RandomState(s["seed"])
    m = synth.base_model()
    m.model_name = "ModelE3"
    nt, ns, nz = s["nt"], s["ns"], s["nz"]
    t = np.arange(nt) * 600. if s["num"] else T0 + np.arange(nt) * np.timedelta64(600, "s")
    p = 1000. - min(50., 900. / nz) * np.arange(nz)
    z = np.tile(100. + 300. * np.arange(nz), (nt, 1)) + (rng.uniform(0, 50, (nt, 1)) if s["z2"] else 0)
    sh = (ns, nt, nz)
    d = ("subcolumn", "time", "height")
    v = {"sub_col_Ze_tot": (d, rng.uniform(-50, 20, sh)), "sub_col_beta_p_tot": (d, 10 ** rng.uniform(-7, -4, sh)),
         "phase_mask": (d, rng.randint(0, 4, sh).astype(float)), "curtain": (("time", "height"), 10 ** rng.uniform(-5, -3, sh[1:]))}
    for a in v.values():
        if s["undef"]:
            a[1][rng.rand(*a[1].shape) < s["undef"]] = np.nan
    m.ds = xr.Dataset(v, coords={"time": t, "height": p, "subcolumn": np.arange(ns)})
    m.ds["z"] = (("time", "height"), z) if s["z2"] else (("height",), z[0])
    m.ds["p_3d"] = (("time", "height"), np.tile(p, (nt, 1)))
    for k, u in (("height", "hPa"), ("z", "m"), ("p_3d", "hPa"), ("curtain", "kg/kg"), ("phase_mask", "1")):
        m.ds[k].attrs["units"] = u
    m.ds["phase_mask"].attrs["legend"] = ["a", "b", "c"]
    if s["order"]:
        m.ds = m.ds.assign_coords(height=p)
    m.ds["subcolumn"] = np.arange(ns)
    return m, rng


def shown(ax):
    import matplotlib.collections as mc
    q = [c for c in ax.collections if isinstance(c, mc.QuadMesh)]
    require(len(q) == 1, "%d coloured meshes were drawn", len(q))
    xy = np.asarray(q[0].get_coordinates())
    a = q[0].get_array()
    sh = (xy.shape[0] - 1, xy.shape[1] - 1)
    return np.ma.filled(np.ma.masked_invalid(np.ma.asarray(a, dtype=float)), np.nan).reshape(sh), xy, q[0]


def middle(xy):
    return (xy[:-1, :-1] + xy[1:, 1:]) / 2.


def day(t):
    return (t - np.datetime64("1970-01-01", "ns")) / np.timedelta64(1, "D") if np.asarray(t).dtype.kind == "M" else np.asarray(t, float)


def limits(s, kw, v):
    if s["lim"] in ("both", "min"):
        kw["vmin"] = 1e-6
    if s["lim"] in ("both", "max"):
        kw["vmax"] = 1e3
    return kw


def panels(s):
    """A display with one panel, or two with the second one used."""
    return {"figsize": (2, 2), **({"subplot_shape": (2,)} if s["two"] else {})}


def where(s, x=None, y=None, force=False):
    """Panel and axis ranges to ask for."""
    kw = {"subplot_index": (1,)} if s["two"] else {}
    if s["xr"] and x is not None:
        kw["x_range"] = tuple(x) if s["k"] % 2 else list(x)
    if s["yr"] and y is not None:
        kw["y_range"] = tuple(y)
    return kw


def panel(s, disp):
    if s["two"]:
        a = disp.axes[0]
        require(not a.lines and not a.collections, "the other panel was drawn on")
        return disp.axes[1]
    return disp.axes[0]


def check_ranges(ax, kw):
    for k, got in (("x_range", ax.get_xlim()), ("y_range", ax.get_ylim())):
        if k in kw:
            e = np.asarray(kw[k])
            close(np.sort(got), np.sort(day(e.astype("datetime64[ns]")) if e.dtype.kind == "M" else e), k + " of the axes", rtol=1e-9)


def times(s, a=0.5, b=2.25):
    return (T0 + np.timedelta64(int(600 * a), "s"), T0 + np.timedelta64(int(600 * b), "s")) if not s["num"] else (600 * a, 600 * b)


def mask_of(s, rng, share, sh):
    """A mask of documented type; only values above zero (however small) mask."""
    on = rng.rand(*sh) < share
    kind = (s["seed"] // 7) % 4
    if kind == 0:
        return on
    v = on * 2 - (rng.rand(*sh) < s["neg"])
    return v.astype("int8") if kind == 1 else v.astype(float) if kind == 2 else v * rng.uniform(0.05, 0.9, sh)


def masking(s, rng, sh):
    if s["mask"] is None:
        return {}
    mk = mask_of(s, rng, 0.4, sh)
    if s["badmask"]:
        mk = np.ones((sh[0] + 1, sh[1]))        # of another shape: ignored, as the message says
    hm = {"hide": False, "hatch": True, "pattern": "///"}[s["mask"]]
    if s["mask"] != "hide" and s["nomask"]:
        return {"hatched_mask": hm}
    return {"Mask_array": mk, "hatched_mask": hm}


def effective(mk, sh):
    """Cells the mask covers."""
    a = mk.get("Mask_array")
    return np.zeros(sh, bool) if a is None or a.shape != sh else a > 0


def check_hatch(ax, mk, x, y, sh):
    import matplotlib.collections as mc
    c = [p for p in ax.collections if not isinstance(p, mc.QuadMesh) and p.get_hatch()]
    want = effective(mk, sh) if mk.get("hatched_mask") else np.zeros(sh, bool)
    if not want.any():
        require(sum(len(p.get_paths()) for p in c) == 0, "cells were hatched without a mask")
        return
    require(len(c) == 1, "the masked cells were not hatched")
    if isinstance(mk["hatched_mask"], str):
        require(c[0].get_hatch() == mk["hatched_mask"], "hatched with %s", c[0].get_hatch())
    xy = np.asarray(c[0].get_coordinates())
    a = np.ma.getmaskarray(np.ma.asarray(c[0].get_array())).reshape(xy.shape[0] - 1, xy.shape[1] - 1)
    require(len(c[0].get_paths()) == want.sum() and np.array_equal(~a, want.T), "the hatched cells are not the masked ones")
    mid = middle(xy)
    close(mid[..., 0], np.broadcast_to(x[None, :], a.shape), "horizontal position of the hatching", rtol=1e-9)
    close(mid[..., 1], np.broadcast_to(y[:, None], a.shape), "vertical position of the hatching", rtol=1e-6, atol=1e-6)


def ready(s, v):
    """Log scales need something positive to show."""
    if s["log"] and not (np.isfinite(v) & (v > 0)).sum() > 1:
        s["log"] = False
    return s["log"]


def dress(s, name, t0=None):
    """Title and colour bar label to ask for."""
    kw = {"title": "x"} if s["num"] else {} if s["ttl"] is None else {"title": s["ttl"]}
    if s["lab"]:
        kw["cbar_label"] = s["lab"]
    return kw


def check_dress(s, ax, r, kw, name, t0, label=None):
    want = kw["title"] if "title" in kw else "%s %s" % (name, np.datetime_as_string(t0))
    require(ax.get_title() == want, "title %s, expected %s", ax.get_title(), want)
    if s["bar"] and kw.get("cbar_label", label) is not None:
        require(r[1].ax.get_ylabel() == kw.get("cbar_label", label), "colour bar label %s, expected %s", r[1].ax.get_ylabel(), kw.get("cbar_label", label))
    require(ax.get_xlabel() == "Time [UTC]", "time axis label %s", ax.get_xlabel())


LABEL = {"sub_col_Ze_tot": r"$Z_{e, tot}$ [dBZ]", "sub_col_beta_p_tot": r"$\beta_{tot}$ [$m^{-1} sr^{-1}$]", "phase_mask": "[1]", "curtain": "[kg/kg]"}


def finish(s, disp, ctx, v):
    import matplotlib.pyplot as plt
    plt.close("all")
    ctx.nontriv(np.unique(v[np.isfinite(v)]).size > 1)


def check_mesh(s, r, ax0, v, mk, x, y, kw):
    ax = r[0] if s["bar"] else r
    require(ax is ax0, "the axes returned are not those asked for")
    got, xy, q = shown(ax)
    e = v.T.copy()
    if mk and not mk["hatched_mask"]:
        e[effective(mk, v.shape).T] = np.nan
    if s["log"]:
        ok = ~(e <= 0)
        close(got[ok], e[ok], "values shown", rtol=1e-9)
    else:
        close(got, e, "values shown", rtol=1e-9)
    mid = middle(xy)
    close(mid[..., 0], np.broadcast_to(x[None, :], e.shape), "horizontal position", rtol=1e-9)
    close(mid[..., 1], np.broadcast_to(y[:, None], e.shape), "vertical position", rtol=1e-6, atol=1e-6)
    check_hatch(ax, mk, x, y, v.shape)
    f = e[np.isfinite(e)]
    if f.size == 0 or "vmin" in kw and "vmax" not in kw and f.max() <= kw["vmin"] or "vmax" in kw and "vmin" not in kw and f.min() >= kw["vmax"]:
        return      # a single limit on the wrong side of all data: matplotlib swaps the pair when it draws a colour bar
    if "vmin" in kw:
        close(q.norm.vmin, kw["vmin"], "lower colour limit", rtol=1e-9)
    if "vmax" in kw:
        close(q.norm.vmax, kw["vmax"], "upper colour limit", rtol=1e-9)


@CHECK.sub(outputs(), quick=160, thorough=2400, shards=4)
def timeseries(s, ctx):
    from emc2.plotting import SubcolumnDisplay
    m, rng = model(s)
    keep = m.ds.copy(deep=True)
    disp = sut(SubcolumnDisplay, m, **panels(s))
    k = s["k"] % s["ns"]
    v = keep[s["var"]].values
    v = v[k] if v.ndim == 3 else v
    mk = masking(s, rng, v.shape)
    s["log"] = ready(s, v if not mk or mk["hatched_mask"] else np.where(effective(mk, v.shape), np.nan, v))
    kw = limits(s, {}, v)
    kt = dress(s, "ModelE3")
    ka = where(s, times(s), (600., 990.) if s["pc"] else (120., 700.))
    r = sut(disp.plot_subcolumn_timeseries, s["var"], k, **kt, **ka, pressure_coords=s["pc"], log_plot=s["log"], colorbar=s["bar"], **mk, **dict(kw))
    y = keep["height"].values if s["pc"] else (keep["z"].values.mean(axis=0) if s["z2"] else keep["z"].values)
    check_mesh(s, r, panel(s, disp), v, mk, day(keep["time"].values), y, kw)
    check_ranges(panel(s, disp), ka)
    check_dress(s, panel(s, disp), r, kt, "ModelE3", keep["time"].values[0], LABEL[s["var"]])
    require(panel(s, disp).get_ylabel() == (("height" if s["order"] else "[hPa]") if s["pc"] else "[m]"), "vertical axis label %s", panel(s, disp).get_ylabel())
    if s["pc"]:
        require(panel(s, disp).yaxis_inverted(), "pressure must decrease upward")
    require(m.ds.identical(keep), "drawing changed the model dataset")
    if s["bar"] and s["var"] == "phase_mask" and mk == {} and kw == {} and not s["log"]:
        cb = sut(disp.change_plot_to_class_mask, r[1], variable="phase_mask", convert_zeros_to_nan=bool(s["k"] % 2))
        lab = [x.get_text() for x in cb.ax.get_yticklabels()]
        require(lab == ([] if s["k"] % 2 else ["clear"]) + ["a", "b", "c"], "class labels %s", lab)
        n0 = 1 if s["k"] % 2 else 0
        col = [tuple(cb.mappable.to_rgba(float(c))) for c in range(n0, 4)]
        require(len(set(col)) == len(col), "two classes share a colour")
        require(cb.mappable.norm.vmin < n0 and cb.mappable.norm.vmax > 3, "a class lies outside the colour range")
        require(list(cb.get_ticks()) == list(range(1 if s["k"] % 2 else 0, 4)), "class ticks %s", cb.get_ticks())
    finish(s, disp, ctx, v)


@CHECK.sub(outputs(), quick=60, thorough=900, shards=2)
def mixing_ratio(s, ctx):
    """Input mixing ratios of a grid column, in g/kg against height (or level) in thousands."""
    from emc2.plotting import SubcolumnDisplay
    m, rng = model(s)
    keep = m.ds.copy(deep=True)
    disp = sut(SubcolumnDisplay, m, **panels(s))
    ka = where(s, times(s), (0.6, 0.99) if s["pc"] else (0.12, 0.7))
    var = "curtain" if s["bar"] else "sub_col_beta_p_tot"
    k = s["k"] % s["ns"]
    v = keep[var].values * 1e3
    v = v[k] if v.ndim == 3 else v
    mk = masking(s, rng, v.shape)
    s["log"] = ready(s, v if not mk or mk["hatched_mask"] else np.where(effective(mk, v.shape), np.nan, v))
    kw = limits(s, {}, v)
    kt = {"title": "x"} if s["num"] else {}
    from emc2.statistics_LLNL.statistical_plots import plot_column_input_q_timeseries
    f = disp.plot_column_input_q_timeseries if s["seed"] % 2 else functools.partial(plot_column_input_q_timeseries, disp)
    if s["lab"]:
        kt["cbar_label"] = s["lab"]
    r = sut(f, var, **kt, **ka, pressure_coords=s["pc"], log_plot=s["log"], colorbar=s["bar"], column_no=k, **mk, **dict(kw))
    y = keep["height"].values if s["pc"] else (keep["z"].values.mean(axis=0) if s["z2"] else keep["z"].values)
    check_mesh(s, r, panel(s, disp), v, mk, day(keep["time"].values), y / 1e3, kw)
    check_dress(s, panel(s, disp), r, kt, "ModelE3", T0)
    require(s["pc"] or panel(s, disp).get_ylabel() == "Height [km]", "vertical axis label %s", panel(s, disp).get_ylabel())
    check_ranges(panel(s, disp), ka)
    require(m.ds.identical(keep), "drawing changed the model dataset")
    finish(s, disp, ctx, v)


@CHECK.sub(outputs(), quick=120, thorough=1800, shards=4)
def profile_of_subcolumns(s, ctx):
    from emc2.plotting import SubcolumnDisplay
    if s["var"] == "curtain" or s["ns"] < 2:
        return
    m, rng = model(s)
    m.num_subcolumns = s["ns"]
    keep = m.ds.copy(deep=True)
    disp = sut(SubcolumnDisplay, m, **panels(s))
    ka = where(s, (-0.5, 1.5), (600., 990.) if s["pc"] else (120., 700.))
    i = s["k"] % s["nt"]
    t = keep["time"].values[i]
    near = t + (80. if s["num"] else np.timedelta64(80, "s"))
    v = keep[s["var"]].values[:, i]
    mk = masking(s, rng, v.shape)
    s["log"] = ready(s, v if not mk or mk["hatched_mask"] else np.where(effective(mk, v.shape), np.nan, v))
    kw = limits(s, {}, v)
    when = near if s["num"] or s["k"] % 2 else np.datetime_as_string(near)
    kt = {**({} if s["ttl"] is None else {"title": s["ttl"]}), **({"cbar_label": s["lab"]} if s["lab"] else {})}
    r = sut(disp.plot_single_profile, s["var"], when, pressure_coords=s["pc"],
            log_plot=s["log"], colorbar=s["bar"], **mk, **ka, **kt, **dict(kw))
    ax = panel(s, disp)
    check_axes(s, ax, "Subcolumn #", Y_LABEL(s), s["pc"])
    require(ax.get_title().strip() == kt.get("title", ("ModelE3 " + str(np.datetime_as_string(near) if not s["num"] else "")).strip()), "title %s", ax.get_title())
    if s["bar"]:
        require(r[1].ax.get_ylabel() == kt.get("cbar_label", LABEL[s["var"]]), "colour bar label %s", r[1].ax.get_ylabel())
    y = keep["height"].values if s["pc"] else (keep["z"].values[i] if s["z2"] else keep["z"].values)
    check_mesh(s, r, panel(s, disp), v, mk, np.arange(s["ns"]) * 1., y, kw)
    check_ranges(panel(s, disp), ka)
    require(m.ds.identical(keep), "drawing changed the model dataset")
    finish(s, disp, ctx, v)


def Y_LABEL(s):
    return ("height" if s["order"] else "[hPa]") if s["pc"] else "[m]"


def check_axes(s, ax, x, y, down):
    """Labels of both axes; pressure decreases upwards."""
    require(ax.get_xlabel() == x, "horizontal axis label %s, expected %s", ax.get_xlabel(), x)
    require(ax.get_ylabel() == y, "vertical axis label %s, expected %s", ax.get_ylabel(), y)
    if down is not None:
        require((ax.get_ylim()[0] > ax.get_ylim()[1]) == down, "vertical axis runs the wrong way: %s", ax.get_ylim())


class Inst:
    instrument_str = "HSRL"


@CHECK.sub(outputs(), quick=120, thorough=1800, shards=4)
def observations(s, ctx):
    from emc2.plotting import SubcolumnDisplay
    m, rng = model(s)
    s["num"] = False
    i = Inst()
    name = ("range", "altitude", "height")[s["k"] % 3]
    t = T0 + np.arange(s["nt"]) * np.timedelta64(600, "s")
    v = 10 ** rng.uniform(-7, -4, (s["nt"], s["nz"]))
    v[rng.rand(*v.shape) < s["undef"]] = np.nan
    i.ds = xr.Dataset({"beta": (("time", name), v)}, coords={"time": t, name: 30. * np.arange(s["nz"])})
    keep = i.ds.copy(deep=True)
    disp = sut(SubcolumnDisplay, m, **panels(s))
    mk = masking(s, rng, v.shape)
    s["log"] = ready(s, v if not mk or mk["hatched_mask"] else np.where(effective(mk, v.shape), np.nan, v))
    kw = limits(s, {}, v)
    ka = where(s, times(s), (15., 75.))
    kt = dress(s, "HSRL")
    r = sut(disp.plot_instrument_timeseries, i, "beta", **kt, **ka, log_plot=s["log"], colorbar=s["bar"], **mk, **dict(kw))
    check_mesh(s, r, panel(s, disp), keep["beta"].values, mk, day(t), keep[name].values, kw)
    check_dress(s, panel(s, disp), r, kt, "HSRL", t[0])
    check_ranges(panel(s, disp), ka)
    disp2 = sut(SubcolumnDisplay, m, **panels(s))
    a, b = s["w"]
    rngt = None if s["win"] == "all" or a == b or a >= s["nt"] else (T0 + a * np.timedelta64(600, "s"), T0 + b * np.timedelta64(600, "s"))
    var = "Ze" if s["k"] % 2 else "beta"
    if var == "Ze":
        i.ds["Ze"] = 10 * np.log10(i.ds["beta"]) + 50.
        keep = i.ds.copy(deep=True)
    sel = keep[var].values if rngt is None else keep[var].values[a:b]
    km = {}
    if s["mask"]:
        km = {"Mask_array": masking(s, rng, sel.shape).get("Mask_array", np.zeros(sel.shape))}
        sel = np.where(effective(km, sel.shape), np.nan, sel)
    if np.isfinite(sel).any(axis=0).all():
        ka = where(s, (1., 2.), (15., 75.))
        if s["lab"]:
            km["Xlabel"] = s["lab"]
        if s["seed"] % 3:
            km["pressure_coords"] = False           # observations have heights
        r = sut(disp2.plot_instrument_mean_profile, i, var, **ka, time_range=rngt, use_geom_mean=s["geom"], plot_SD=s["sd"], title="x",
            log_plot=bool(s["seed"] % 2), **km)
        ax = panel(s, disp2)
        require(r is ax, "the axes handed back are not those drawn on")
        check_ranges(ax, ka)
        check_profile(s, ax, sel[None], var, keep[name].values, s["geom"] in (True, "auto"))
        q = ax.get_xlabel()
        require(q == s["lab"] if s["lab"] else {"Ze": "Z_{e", "beta": "beta"}[var] in q, "horizontal axis label %s", q)
        check_axes(s, ax, q, "Height [m]", False if s["seed"] % 3 else None)
        check_scale(ax, ka, s["seed"] % 2 and var != "Ze")
        require(ax.get_title() == "x", "title %s", ax.get_title())
    require(i.ds.identical(keep), "drawing changed the observations")
    finish(s, disp, ctx, v)


def check_profile(s, ax, v, var, y, geom):
    """v: subcolumn x time x level. The line is the mean, the shading one standard deviation about it."""
    x = v.reshape(-1, v.shape[-1])
    x = 10 ** (x / 10) if "Ze" in var else x
    if geom:
        x = np.where(x > 0, x, np.nan)
        mean, sd = np.exp(np.nanmean(np.log(x), axis=0)), np.exp(np.nanstd(np.log(x), axis=0))
        lo, hi = mean / sd, mean * sd
    else:
        mean, sd = np.nanmean(x, axis=0), np.nanstd(x, axis=0)
        lo, hi = mean - sd, mean + sd
    f = (lambda a: 10 * np.log10(np.maximum(a, np.finfo(float).eps))) if "Ze" in var else (lambda a: a)
    require(len(ax.lines) == 1, "%d lines were drawn", len(ax.lines))
    xd, yd = ax.lines[0].get_data()
    close(np.ma.filled(np.ma.asarray(xd, dtype=float), np.nan), f(mean), "mean profile", rtol=1e-6, atol=1e-12 if "Ze" not in var else 1e-6)
    close(yd, y, "vertical position of the profile", rtol=1e-6)
    if s["sd"] and np.all(np.isfinite(mean)):
        require(len(ax.collections) == 1, "no shading was drawn")
        pts = ax.collections[0].get_paths()[0].vertices
        for k, h in enumerate(y):
            at = pts[np.isclose(pts[:, 1], h, rtol=1e-9)][:, 0]
            require(at.size >= 2, "the shading skips a level")
            ends = np.array([at.min(), at.max()])
            ok = lo[k] > 1e-9 * mean[k] if "Ze" in var else True
            close(ends[1], f(hi)[k], "upper end of the shading (mean plus one deviation)", rtol=1e-5, atol=1e-12 if "Ze" not in var else 1e-5)
            if ok:
                close(ends[0], f(lo)[k], "lower end of the shading", rtol=1e-4, atol=1e-12 if "Ze" not in var else 1e-3)


def check_scale(ax, ka, log):
    """Reflectivity in dBZ on a linear axis; unless asked otherwise the limits leave nothing of the profile out."""
    require(ax.get_xscale() == ("log" if log else "linear"), "horizontal scale %s", ax.get_xscale())
    if "x_range" not in ka:
        x = np.ma.masked_invalid(np.ma.asarray(ax.lines[0].get_data()[0], dtype=float)).compressed()
        lo, hi = sorted(ax.get_xlim())
        x = x[x > 0] if log else x
        require(np.all((x >= lo - 1e-9 * abs(lo)) & (x <= hi + 1e-9 * abs(hi))), "part of the profile (%s to %s) lies outside the axis (%s to %s)",
                x.min() if x.size else 0, x.max() if x.size else 0, lo, hi)


QUANT = {"Ze": r"$Z_{e, %s}$ [dBZ]", "Ze_att": r"$Z_{e, %s}$ [dBZ]", "Vd": r"$V_{d, %s}$ [m/s]", "sigma_d": r"$\sigma_{d, %s}$ [m/s]",
         "OD": r"$\tau_{%s}$", "beta_p": r"$\beta_{%s}$ [$m^{-1} sr^{-1}$]", "beta_att": r"$\beta_{%s}$ [$m^{-1} sr^{-1}$]",
         "alpha_p": r"$\alpha_{%s}$ [$m^{-1}$]"}


@CHECK.sub(st.fixed_dictionaries({"q": st.sampled_from(sorted(QUANT) + ["LDR", "other"]), "h": st.sampled_from(["cl", "ci", "pl", "pi", "tot"]),
                                  "c": st.sampled_from(["", "_strat", "_conv"]), "units": st.sampled_from([None, "K", "kg/kg"]),
                                  "long": st.sampled_from([None, "short", "x" * 20, "x" * 21, "a rather long name of a field"]),
                                  "pre": st.booleans(), "maxl": st.sampled_from([None, 5, 29])}), quick=200, thorough=2000)
def axis_labels(s, ctx):
    """Simulated quantities are labelled by quantity and hydrometeor class; other fields by name (when short enough) and unit."""
    from emc2.plotting import SubcolumnDisplay
    name = {"LDR": "sub_col_LDR" + s["c"], "other": "temperature"}.get(s["q"], "sub_col_%s_%s%s" % (s["q"], s["h"], s["c"]))
    ds = xr.Dataset({name: (("x",), np.zeros(2))})
    if s["units"]:
        ds[name].attrs["units"] = s["units"]
    if s["long"]:
        ds[name].attrs["long_name"] = s["long"]
    kw = {} if s["maxl"] is None else {"max_long_name": s["maxl"]}
    if not s["pre"]:
        kw["use_prespec"] = False
    got = sut(SubcolumnDisplay.set_axis_label, ds, name, **kw)
    if s["pre"] and s["q"] == "LDR":
        want = "LDR"
    elif s["pre"] and s["q"] != "other":
        want = QUANT[s["q"]] % s["h"]
    elif s["units"] is None:
        want = name
    else:
        want = "[%s]" % s["units"]
        if s["long"] and len(s["long"]) <= (s["maxl"] or 20):
            want = s["long"] + " " + want
    require(got == want, "label of %s is %s, expected %s", name, got, want)
    ctx.nontriv(s["q"] != "other" or s["units"] is not None)


@CHECK.sub(outputs(), quick=160, thorough=2400, shards=4)
def mean_profile(s, ctx):
    from emc2.plotting import SubcolumnDisplay
    if s["var"] in ("curtain",):
        return
    m, rng = model(s)
    if s["var"] == "phase_mask":
        m.ds["phase_mask"] = m.ds["phase_mask"].fillna(0.)
    if s["neg"]:                                 # noise-like values: only positive ones count in a geometric mean
        m.ds["sub_col_beta_p_tot"] = m.ds["sub_col_beta_p_tot"] * np.where(rng.rand(s["ns"], s["nt"], s["nz"]) < 0.2, -1., 1.)
    keep = m.ds.copy(deep=True)
    disp = sut(SubcolumnDisplay, m, **panels(s))
    v = keep[s["var"]].values
    kw = {}
    ka = where(s, (1., 2.), (600., 990.) if s["pc"] else (120., 700.))
    i = s["k"] % s["nt"]
    a, b = s["w"]
    if s["win"] == "one" and not s["num"]:
        t = keep["time"].values[i] + np.timedelta64(80, "s")
        kw["time"] = np.datetime_as_string(t) if s["k"] % 2 else np.array(t)
        v = v[:, i:i + 1]
    elif s["win"] == "range" and a < b and a < s["nt"] and not s["num"]:
        w = [T0 + np.timedelta64(600, "s") * j for j in (a, b)]
        kw["time"] = tuple(np.datetime_as_string(x) for x in w) if s["k"] % 2 else (tuple(w) if s["k"] % 4 else np.array(w))
        v = v[:, a:b]
    mk = None
    if s["mask"]:
        mk = mask_of(s, rng, 0.3, v.shape)
        if s["badmask"]:
            mk = np.ones(v.shape[:2] + (v.shape[2] + 1,))
        kw["Mask_array"] = mk.copy()
        if not s["badmask"]:
            v = np.where(mk > 0, np.nan, v)
    geom = s["geom"] is True or s["geom"] == "auto" and s["var"] != "phase_mask"
    f = np.isfinite(v) & ((v > 0) | (not geom) | ("Ze" in s["var"]))
    if not f.any(axis=(0, 1)).all():
        return
    kt = {"title": s["ttl"]} if s["ttl"] or "time" not in kw or not isinstance(kw["time"], str) else {}
    kx = {"Xlabel": s["lab"]} if s["lab"] else {}
    log = bool(s["seed"] % 2)
    r = sut(disp.plot_subcolumn_mean_profile, s["var"], pressure_coords=s["pc"], use_geom_mean=s["geom"], plot_SD=s["sd"], log_plot=log, **kt, **kx, **kw, **ka)
    y = keep["height"].values if s["pc"] else keep["z"].values
    if y.ndim == 2:
        tt = slice(i, i + 1) if s["win"] == "one" and "time" in kw else slice(a, b) if "time" in kw else slice(None)
        y = y[tt].mean(axis=0)
    ax = panel(s, disp)
    require(r is ax, "the axes handed back are not those drawn on")
    check_profile(s, ax, v, s["var"], y, geom)
    check_ranges(ax, ka)
    check_axes(s, ax, kx.get("Xlabel", LABEL[s["var"]]), "Pressure [hPa]" if s["pc"] else "Height [m]", s["pc"] if "y_range" not in ka else None)
    check_scale(ax, ka, log and "Ze" not in s["var"])
    if s["ttl"] or "time" in kw and isinstance(kw["time"], str):
        require(ax.get_title() == (s["ttl"] or kw["time"]), "title %s", ax.get_title())
    require(m.ds.identical(keep), "drawing changed the model dataset")
    finish(s, disp, ctx, v)
    ctx.count("time " + s["win"], "time" in kw)


@CHECK.sub(outputs(), quick=80, thorough=1200, shards=2)
def regridded(s, ctx):
    """Cloud fraction and scattering ratio on the common grid; the arrays handed over stay as they are."""
    from emc2.plotting import SubcolumnDisplay
    m, rng = model(s)
    keep = m.ds.copy(deep=True)
    nc = 1 + s["k"] % 3
    mid = 0.24 + 0.48 * np.arange(s["nz"])
    cf = np.round(rng.rand(s["nt"], s["nz"], nc), s["k"] % 3 + 1) * rng.choice([1., 0.05]) * (rng.rand(s["nt"], s["nz"], nc) < 0.7)
    sr = np.round(rng.uniform(0, 9, (s["ns"], s["nt"], s["nz"], nc))) * 1.
    cf0, sr0 = cf.copy(), sr.copy()
    c, j = s["k"] % nc, s["k"] % s["ns"]
    s["log"], s["mask"] = False, None
    kt = {"title": "x"} if s["num"] else {"title": s["ttl"]}
    if s["lab"]:
        kt["cbar_label"] = s["lab"]
    for what in (0, 1):
        disp = sut(SubcolumnDisplay, m, **panels(s))
        ka = where(s, times(s), (0.2, 0.8) if what == 0 else (200., 800.))
        if what == 0:
            r = sut(disp.plot_regridded_CF_timeseries, cf, mid, c, **kt, colorbar=s["bar"], **ka)
            v, y = np.where(cf0[:, :, c] <= 0, np.nan, cf0[:, :, c]), mid
        else:
            r = sut(disp.plot_regridded_SR_timeseries, sr, mid, c, j, **kt, colorbar=s["bar"], **ka)
            v, y = np.where(sr0[j, :, :, c] == 0, np.nan, sr0[j, :, :, c]), mid * 1e3
        ax = panel(s, disp)
        check_mesh(s, r, ax, v, {}, day(keep["time"].values), y, {})
        check_ranges(ax, ka)
        check_dress(s, ax, r, kt if kt["title"] else {k: x for k, x in kt.items() if k != "title"}, "ModelE3", T0)
        require(ax.get_ylabel() == ("Height [m]" if what else "Height [km]"), "vertical axis label %s", ax.get_ylabel())
    close(cf, cf0, "the cloud fraction passed in", rtol=0)
    close(sr, sr0, "the scattering ratio passed in", rtol=0)
    require(m.ds.identical(keep), "drawing changed the model dataset")
    finish(s, disp, ctx, cf)


@CHECK.sub(outputs(), quick=60, thorough=900, shards=2)
def regional(s, ctx):
    """A display of regional output shows the grid cell asked for (index or nearest coordinate) and leaves the model whole."""
    from emc2.plotting import SubcolumnDisplay
    m, rng = model(s)
    m.lat_dim, m.lon_dim = "lat", "lon"
    nla, nlo = 2 + s["k"] % 2, 3
    lat, lon = 70. + np.arange(nla), 200. + 2. * np.arange(nlo)
    v0 = rng.uniform(1, 2, (s["ns"], s["nt"], s["nz"], nla, nlo))
    m.ds["reg"] = (("subcolumn", "time", "height", "lat", "lon"), v0)
    m.ds = m.ds.assign_coords(lat=lat, lon=lon)
    m.ds["reg"].attrs["units"] = "1"
    keep = m.ds.copy(deep=True)
    a, b = s["k"] % nla, s["seed"] % nlo
    kw, (ea, eb) = {}, (0, 0)
    if s["pc"]:
        kw["lat_sel"], ea = (a, a) if s["log"] else (float(lat[a] + (0.3 if s["seed"] % 2 else -0.3)), a)
    if s["order"]:
        kw["lon_sel"], eb = (b, b) if s["bar"] else (float(lon[b] + (0.6 if s["seed"] % 3 else -0.6)), b)
    if s["seed"] % 4 == 1:                       # the results of a search in numpy
        kw = {n: (np.int64(v) if isinstance(v, int) else np.float32(v)) for n, v in kw.items()}
    disp = sut(SubcolumnDisplay, m, figsize=(2, 2), **kw)
    k = s["k"] % s["ns"]
    s["log"], s["mask"] = False, None
    r = sut(disp.plot_subcolumn_timeseries, "reg", k, title="x" if s["num"] else None, pressure_coords=True, colorbar=s["bar"])
    check_mesh(s, r, disp.axes[0], v0[k][:, :, ea, eb], {}, day(keep["time"].values), keep["height"].values, {})
    require(m.ds.identical(keep), "the display changed the model")
    finish(s, disp, ctx, v0)


@CHECK.sub(st.fixed_dictionaries({"shape": st.sampled_from([[1], [2], [2, 2], [3, 1]]), "k": st.integers(0, 11), "seed": st.integers(0, 2 ** 31 - 1),
                                  "v": st.lists(st.lists(st.integers(-900, 900), min_size=2, max_size=2, unique=True), min_size=2, max_size=2)}),
           quick=40, thorough=400)
def axis_limits(s, ctx):
    """Axis limits set on a panel are those of this panel, for the asked axis only."""
    from emc2.plotting import SubcolumnDisplay
    m, rng = model({"seed": s["seed"], "nt": 2, "ns": 1, "nz": 2, "num": True, "z2": False, "undef": 0., "order": False})
    disp = sut(SubcolumnDisplay, m, subplot_shape=tuple(s["shape"]), figsize=(2, 2))
    every = list(np.ndindex(*disp.axes.shape))
    ix = every[s["k"] % len(every)]
    exp = {j: [disp.axes[j].get_xlim(), disp.axes[j].get_ylim()] for j in every}
    for axis, (f, v) in enumerate(zip((disp.set_xrng, disp.set_yrng), s["v"])):
        sut(f, ix, tuple(v))
        exp[ix][axis] = tuple(v)
        for j in every:
            close(np.array([disp.axes[j].get_xlim(), disp.axes[j].get_ylim()]), np.array(exp[j], float), "limits of panel %s" % (j,), rtol=1e-12)
    ctx.nontriv(len(every) > 1)
    import matplotlib.pyplot as plt
    plt.close("all")
