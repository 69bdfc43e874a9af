"""C21: time and region selection, and merging of post-processed sub-domains."""
import numpy as np
import xarray as xr
from hypothesis import strategies as st

from vlib.core import Check, require, sut, equal
from vlib import synth

CHECK = Check("C21", "A case is a generated dataset and a selection: a half-open time range on the time dimension or on an alternative "
              "coordinate, a latitude-longitude or x-y box on a regular or distorted grid, or one to three sub-domains with "
              "suffixed names to merge. Non-trivial: the selection keeps some but not all points, or several sub-domains.")


def private(m, name, ctx):
    """The selection helpers of the loaders; C22 and C23 see them through files, should they be renamed."""
    f = getattr(m, name, None)
    ctx.count("no_" + name, f is None)
    return f


@st.composite
def times(draw):
    n = draw(st.integers(1, 8))
    t = sorted(draw(st.lists(st.integers(0, 40), min_size=n, max_size=n, unique=True)))
    a, b = draw(st.integers(-3, 43)), draw(st.integers(-3, 43))
    return {"t": t if draw(st.booleans()) else draw(st.permutations(t)), "a": min(a, b), "b": max(a, b), "alter": draw(st.booleans()),
            "form": draw(st.sampled_from(["array", "tuple", "list"])), "nz": draw(synth.size(1, 3, 40)), "name": draw(st.sampled_from(["time", "Time", "ncol"]))}


def t64(x):
    return np.datetime64("2021-03-01T00:00") + np.asarray(x) * np.timedelta64(600, "s")


@CHECK.sub(times(), quick=600, thorough=10000, shards=2)
def time_range(s, ctx):
    m = synth.base_model()
    m.time_dim = s["name"]
    n = len(s["t"])
    t = t64(s["t"]).astype("datetime64[ns]")
    v = np.arange(n * s["nz"]).reshape(n, s["nz"]) * 1.
    ds = xr.Dataset({"x": ((s["name"], "height"), v), "y": (("height",), np.arange(s["nz"]) * 1.), "w": ((s["name"],), np.arange(n) * 2.)})
    kw = {}
    if s["alter"]:
        ds = ds.assign_coords(stamp=(s["name"], t))
        kw["alter_coord"] = "stamp"
    else:
        ds = ds.assign_coords({s["name"]: (s["name"], t)})
    m.ds = ds
    r = t64([s["a"], s["b"]])
    r = {"array": r, "tuple": (r[0], r[1]), "list": [r[0], r[1]]}[s["form"]]
    crop = private(m, "_crop_time_range", ctx)
    if crop is None:
        return
    sut(crop, r, **kw)
    keep = np.array([s["a"] <= x < s["b"] for x in s["t"]])
    if not keep.any():
        keep[:] = True     # out of range: the request is ignored
    equal(m.ds["x"].values, v[keep], "x in the time range")
    equal(m.ds["w"].values, (np.arange(n) * 2.)[keep], "w in the time range")
    equal(m.ds["y"].values, np.arange(s["nz"]) * 1., "y (no time)")
    equal(m.ds["stamp" if s["alter"] else s["name"]].values, t[keep], "times kept")
    ctx.nontriv(bool(keep.any() and not keep.all()))
    ctx.count("on_edge", bool(set(s["t"]) & {s["a"], s["b"]}))


@st.composite
def boxes(draw):
    ny, nx = draw(synth.size(3, 8, 60)), draw(synth.size(3, 8, 60))
    y0, x0 = draw(st.integers(-60, 60)), draw(st.integers(-170, 170))
    a, b = sorted(draw(st.lists(st.integers(-2, 10 * (ny - 1) + 2), min_size=2, max_size=2, unique=True)))
    c, d = sorted(draw(st.lists(st.integers(-2, 10 * (nx - 1) + 2), min_size=2, max_size=2, unique=True)))
    return {"ny": ny, "nx": nx, "y0": y0, "x0": x0, "box": [a, c, b, d], "nt": draw(synth.size(1, 2, 30)), "warp": draw(st.sampled_from([0., 0., 0.002])),
            "dy": draw(st.sampled_from([1., 0.1])), "dx": draw(st.sampled_from([1., 0.05]))}


@CHECK.sub(boxes(), quick=500, thorough=10000, shards=2)
def latitude_longitude_box(s, ctx):
    """Everything at least a cell inside the box is kept, nothing more than half a cell outside is."""
    m = synth.base_model()
    m.lat_dim, m.lon_dim, m.lat_name, m.lon_name = "south_north", "west_east", "XLAT", "XLONG"
    j, i = np.meshgrid(np.arange(s["ny"]), np.arange(s["nx"]), indexing="ij")
    lat = s["y0"] + s["dy"] * (j + s["warp"] * i)
    lon = s["x0"] + s["dx"] * (i + s["warp"] * j)
    rep = lambda a: np.stack([a] * s["nt"])
    d3 = ("Time", "south_north", "west_east")
    m.ds = xr.Dataset({"XLAT": (d3, rep(lat)), "XLONG": (d3, rep(lon)), "j": (d3, rep(j)), "i": (d3, rep(i)),
                       "lev": (("bottom_top",), np.arange(3.))})
    a, c, b, d = (v / 10. for v in s["box"])
    crop = private(m, "_crop_bounding_box", ctx)
    if crop is None:
        return
    sut(crop, (s["y0"] + s["dy"] * a, s["x0"] + s["dx"] * c, s["y0"] + s["dy"] * b, s["x0"] + s["dx"] * d))
    gj, gi = m.ds["j"].values, m.ds["i"].values
    rows, cols = (np.unique(gj), np.unique(gi)) if gj.size else (np.array([]), np.array([]))
    for got, lo, hi, n, what in ((rows, a, b, s["ny"], "row"), (cols, c, d, s["nx"], "column")):
        w = s["warp"] * max(s["ny"], s["nx"]) + 1e-9
        if gj.size:
            require(np.array_equal(got, np.arange(got[0], got[-1] + 1)), "%ss kept are not contiguous: %s", what, got)
        for k in range(n):
            kin = min(k - lo, hi - k)          # cells inside the box
            other_empty = gj.size == 0
            if kin > 1 + w and not other_empty:
                require(k in got, "%s %d lies %.2f cells inside the box but was dropped (kept %s)", what, k, kin, got)
            if kin < -0.5 - w and k not in (0, n - 1):
                require(k not in got, "%s %d lies %.2f cells outside the box but was kept", what, k, -kin)
    if b - a > 2 + 4 * s["warp"] * 8 and d - c > 2 + 4 * s["warp"] * 8:
        require(gj.size > 0, "nothing was kept of a box more than two cells wide")
    if gj.size:
        equal(gj[0], np.repeat(rows[:, None], len(cols), 1), "rows of the cropped grid")
        equal(gi[0], np.repeat(cols[None, :], len(rows), 0), "columns of the cropped grid")
        equal(m.ds["XLAT"].values[0], lat[np.ix_(rows, cols)], "latitudes of the cropped grid")
    equal(m.ds["lev"].values, np.arange(3.), "field without horizontal dimensions")
    ctx.nontriv(0 < gj[:1].size < s["ny"] * s["nx"])


@CHECK.sub(boxes(), quick=300, thorough=6000)
def x_y_box(s, ctx):
    m = synth.base_model()
    x, y = s["x0"] + np.arange(s["nx"]) * 1., s["y0"] + np.arange(s["ny"]) * 1.
    v = np.arange(s["ny"] * s["nx"]).reshape(s["ny"], s["nx"])
    m.ds = xr.Dataset({"v": (("y", "x"), v)}, coords={"x": x, "y": y})
    a, c, b, d = (k / 10. for k in s["box"])
    crop = private(m, "_crop_bounding_box_x_y", ctx)
    if crop is None:
        return
    sut(crop, (s["x0"] + c, s["y0"] + a, s["x0"] + d, s["y0"] + b))
    kx = (x >= s["x0"] + c) & (x <= s["x0"] + d)
    ky = (y >= s["y0"] + a) & (y <= s["y0"] + b)
    equal(m.ds["v"].values, v[np.ix_(ky, kx)], "field in the box")
    ctx.nontriv(bool(0 < kx.sum() * ky.sum() < v.size))


@st.composite
def domains(draw):
    nd = draw(st.integers(1, 3))
    pool = ["204e_to_205e_71n_to_72n", "262e_to_263e_36n_to_37n", "331e_to_332e_39n_to_40n", "1", "10", "sgp"]
    return {"dom": draw(st.permutations(pool))[:nd], "n": [draw(st.integers(1, 3)) for _ in range(nd)], "nt": draw(st.integers(1, 3)),
            "nz": draw(st.integers(1, 3)), "single": draw(st.booleans()), "vars": draw(st.permutations(["T", "Q", "CLDLIQ", "lat", "lon", "PS", "mu_cloud"]))}


@CHECK.sub(domains(), quick=400, thorough=8000, shards=2)
def sub_domains(s, ctx):
    m = synth.base_model()
    rng = np.random.RandomState(len(s["dom"]) * 10 + s["nz"])
    ds = xr.Dataset({"hyam": (("lev",), np.arange(s["nz"]) * 1.)}, coords={"time": ("time", np.arange(s["nt"])), "lev": np.arange(s["nz"]) * 1.})
    data = {}
    full = {"T": ("time", "lev"), "Q": ("time", "lev"), "CLDLIQ": ("time", "lev"), "mu_cloud": ("time", "lev"), "PS": ("time",), "lat": (), "lon": ()}
    size = {"time": s["nt"], "lev": s["nz"]}
    if s["single"]:      # separate latitude and longitude dimensions, one sub-domain
        ny, nx = s["n"][0], s["n"][-1]
        la, lo = "_71n_to_72n", "_204e_to_205e"
        m.lat_dim, m.lon_dim = "lat", "lon"
        ds = ds.assign_coords({"lat" + la: 71. + np.arange(ny), "lon" + lo: 204. + np.arange(nx)})
        for v in s["vars"]:
            if v in ("lat", "lon"):
                continue
            data[v] = rng.rand(*[size[d] for d in full[v]], ny, nx)
            ds[v + lo + la] = (full[v] + ("lat" + la, "lon" + lo), data[v], {"units": "u" + v})
        m.ds = ds
        sut(m.remove_appended_str)
        for v, a in data.items():
            require(v in m.ds, "%s is missing", v)
            require(m.ds[v].dims == full[v] + ("lat", "lon"), "%s has dims %s", v, m.ds[v].dims)
            equal(m.ds[v].values, a, v)
            require(m.ds[v].attrs.get("units") == "u" + v, "units of %s were lost", v)
        equal(m.ds["lat"].values, 71. + np.arange(ny), "lat")
        equal(m.ds["lon"].values, 204. + np.arange(nx), "lon")
        require(not [v for v in m.ds.variables if la in v or lo in v], "suffixed names are left")
        ctx.nontriv(ny > 1 and nx > 1)
        return
    m.lat_dim = "ncol"
    for d, n in zip(s["dom"], s["n"]):
        for v in s["vars"]:
            a = rng.rand(*[size[k] for k in full[v]], n)
            data.setdefault(v, []).append((d, a))
            ds[v + "_" + d] = (full[v] + ("ncol_" + d,), a, {"units": "u" + v})
    m.ds = ds
    where = {d: k for k, d in enumerate(x[5:] for x in ds.dims if x.startswith("ncol_"))}
    sut(m.remove_appended_str, True)
    order = None
    for v, parts in data.items():
        require(v in m.ds, "%s is missing", v)
        require(m.ds[v].dims == full[v] + ("ncol",), "%s has dims %s", v, m.ds[v].dims)
        got = m.ds[v].values
        require(got.shape[-1] == sum(s["n"]), "%s has %d columns, expected %d", v, got.shape[-1], sum(s["n"]))
        equal(got, np.concatenate([a for d, a in sorted(parts, key=lambda p: where[p[0]])], axis=-1), "merged " + v)
        require(m.ds[v].attrs.get("units") == "u" + v, "units of %s were lost", v)
    require(not [v for v in m.ds.data_vars if any(v.endswith("_" + d) for d in s["dom"])], "suffixed fields are left")
    equal(m.ds["hyam"].values, np.arange(s["nz"]) * 1., "hyam")
    ctx.nontriv(len(s["dom"]) > 1)
