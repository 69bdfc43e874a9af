"""C20: regional output is processed column by column and returned to its own grid."""
import numpy as np
import xarray as xr
from hypothesis import strategies as st

from vlib.core import Check, require, sut, close, equal
from vlib import synth
from checks import c08, c18

CHECK = Check("C20", "A case is a generated regional dataset (1-3 latitudes, 0-3 longitudes or none, 1-3 times, 2-4 levels, every variable in "
              "its own dimension order, variables with fewer dimensions, own dimension names), stacked, simulated or extended with "
              "subcolumn fields, and unstacked. Non-trivial: at least two of the stacked dimensions are longer than one.")


@st.composite
def shapes(draw, max_cols=27):
    nlat, nlon, nt = draw(st.integers(1, 3)), draw(st.integers(1, 3)), draw(st.integers(1, 3))
    s = {"nlat": nlat, "nlon": nlon, "ntm": nt, "has_lon": draw(st.booleans()), "has_lat": draw(st.integers(0, 5)) > 0,
         "names": draw(st.sampled_from([["lat", "lon", "time", "height"], ["ncol", "lon", "time", "lev"], ["south_north", "west_east", "Time", "bottom_top"]])),
         "perm": [draw(st.integers(0, 23)) for _ in range(8)], "outname": draw(st.sampled_from([None, "cols"])),
         "timeless": draw(st.booleans())}
    if not s["has_lat"]:
        s["has_lon"] = False
    if not s["has_lat"]:
        s["nlat"] = 1
    if not s["has_lon"]:
        s["nlon"] = 1
    if s["timeless"]:
        s["ntm"] = 1
    return s


def dims_of(s):
    la, lo, ti, he = s["names"]
    return ([la] if s["has_lat"] else []) + ([lo] if s["has_lon"] else []) + ([] if s["timeless"] else [ti])


def order(s, dims, k):
    import itertools
    p = list(itertools.permutations(dims))
    return p[s["perm"][k % 8] % len(p)]


def coords(s):
    la, lo, ti, he = s["names"]
    c = {la: 30. + 0.5 * np.arange(s["nlat"]), lo: -100. + 0.25 * np.arange(s["nlon"]),
         ti: np.datetime64("2020-06-01T00:00", "ns") + np.arange(s["ntm"]) * np.timedelta64(1800, "s")}
    return {k: v for k, v in c.items() if k in dims_of(s) or k == ti}


def regional(m, s, fields):
    """Replace m.ds by the regional dataset; fields: name -> (columns [, level]) arrays, columns in (lat, lon, time) order."""
    la, lo, ti, he = s["names"]
    m.lat_dim, m.lon_dim, m.time_dim, m.height_dim = la, lo, ti, he
    ds = xr.Dataset()
    full = [(la, s["nlat"]), (lo, s["nlon"]), (ti, s["ntm"])]
    for j, (n, (a, units)) in enumerate(sorted(fields.items())):
        a = np.asarray(a)
        lev = a.shape[1:]
        x = xr.DataArray(a.reshape([k for _, k in full] + list(lev)), dims=[d for d, _ in full] + ([he] if lev else []))
        x = x.squeeze([d for d, _ in full if d not in dims_of(s)])
        x = x.transpose(*order(s, x.dims, j))
        if units:
            x.attrs["units"] = units
        ds[n] = x
    for d, v in coords(s).items():
        if d in dims_of(s):
            ds[d] = (d, v)
    nz = ds.sizes[he]
    ds[he] = (he, np.arange(nz) * 1.)
    ds["level_only"] = (he, np.arange(nz) * 10.)
    ds["scalar"] = 7.
    m.ds = ds
    return m


def columns_of(m, s, stacked):
    """Flat column number ((lat, lon, time) order) of each entry of the processing dimension."""
    if not stacked:
        return np.arange(s["ntm"])
    la, lo, ti, he = s["names"]
    idx = m.ds.indexes[m.time_dim]
    c = coords(s)
    out = []
    for tup in idx:
        d = dict(zip(idx.names, tup))
        i = [0 if x not in d or (x == ti and s["timeless"]) else
             int(np.where(c[x] == (np.datetime64(d[x]) if x == ti else d[x]))[0][0]) for x in (la, lo, ti) if x in c]
        sh = [len(c[x]) for x in (la, lo, ti) if x in c]
        out.append(int(np.ravel_multi_index(i, sh)))
    return np.array(out)


def nontriv(s):
    return sum(v > 1 for v in (s["nlat"], s["nlon"], s["ntm"])) > 1


def expect_stack(s):
    return s["has_lat"] and s["nlat"] * s["nlon"] > 1


@st.composite
def stacks(draw):
    s = draw(shapes())
    s["nz"] = draw(synth.size(1, 4, 60))
    s["nsub"] = draw(synth.size(1, 3, 30))
    for k, on in (("nlat", s["has_lat"]), ("nlon", s["has_lon"]), ("ntm", not s["timeless"])):
        if on:
            s[k] = draw(synth.size(s[k], s[k], 24))
    s["squeeze"] = draw(st.booleans())
    return s


@CHECK.sub(stacks(), quick=1400, thorough=20000, shards=4)
def stack_and_unstack(s, ctx):
    la, lo, ti, he = s["names"]
    m = synth.base_model()
    n = s["nlat"] * s["nlon"] * s["ntm"]
    rng = np.random.RandomState(n * 100 + s["nz"])
    F = {"a": (rng.rand(n, s["nz"]), "K"), "b": (rng.rand(n, s["nz"]), None), "surf": (rng.rand(n), "Pa")}
    if not (s["has_lat"] or not s["timeless"]):
        F.pop("surf")
    m = regional(m, s, F)
    kw = {} if s["outname"] is None else {"out_coord_name": s["outname"]}
    sut(m.check_and_stack_time_lat_lon, **kw)
    stacked = expect_stack(s)
    require((m.stacked_time_dim == ti and m.time_dim == (s["outname"] or "time_lat_lon")) if stacked else
            (m.stacked_time_dim is None and m.time_dim == ti), "time dimension is %s, stacked %s", m.time_dim, m.stacked_time_dim)
    for v in ("a", "b"):
        require(m.ds[v].dims == (m.time_dim, he), "%s has dims %s", v, m.ds[v].dims)
    for d in (la, lo):
        require(d not in m.ds.dims, "dimension %s is still there", d)
    col = columns_of(m, s, stacked)
    require(sorted(col) == list(range(n)), "columns are lost or repeated: %s", list(col))
    for v, (a, u) in F.items():
        equal(np.atleast_1d(m.ds[v].values), a[col], "stacked %s" % v)
        require(m.ds[v].attrs.get("units") == u, "units of %s were lost", v)
    equal(m.ds["level_only"].values.ravel()[:s["nz"]], np.arange(s["nz"]) * 10., "level_only")
    ctx.nontriv(nontriv(s))
    ctx.count("stacked", stacked)
    if not stacked:
        try:
            m.unstack_time_lat_lon()
        except TypeError:
            return
        require(False, "unstacking an unstacked dataset was not refused")
    # subcolumn fields made on the stacked grid, and other fields
    sub = rng.rand(s["nsub"], n, s["nz"])
    m.num_subcolumns = s["nsub"]
    m.ds["sub_col_x"] = xr.DataArray(sub[:, col], dims=("subcolumn", m.time_dim, he), attrs={"units": "dBZ"})
    m.ds["flag"] = xr.DataArray(col, dims=(m.time_dim,))
    sut(m.unstack_time_lat_lon, squeeze_single_dims=s["squeeze"])
    require(m.time_dim == ti and m.stacked_time_dim is None, "time dimension is %s, stacked %s", m.time_dim, m.stacked_time_dim)
    F = dict(F, flag=(np.arange(n), None))
    sq = s["squeeze"]
    grid = [d for d in [la] + ([lo] if s["has_lon"] else []) + [ti] if not (sq and d == ti and s["ntm"] == 1)]
    shape = {la: s["nlat"], lo: s["nlon"], ti: s["ntm"], he: s["nz"], "subcolumn": s["nsub"]}
    for v, (a, u) in list(F.items()) + [("sub_col_x", (np.moveaxis(sub, 0, 1), "dBZ"))]:
        d = grid + (["subcolumn"] if v == "sub_col_x" and not (sq and s["nsub"] == 1) else []) + ([he] if a.ndim > 1 else [])
        require(set(m.ds[v].dims) == set(d), "%s has dims %s, expected %s", v, m.ds[v].dims, d)
        equal(m.ds[v].transpose(*d).values, a.reshape([shape[x] for x in d]), "unstacked %s" % v)
        require(m.ds[v].attrs.get("units") == u, "units of %s were lost", v)
    c = coords(s)
    for d in grid:
        if d == ti and s["timeless"]:
            continue
        equal(m.ds[d].values, c[d], "coordinate %s" % d)
    base = [x for x in (["subcolumn"] if "subcolumn" in m.ds.dims else []) + [ti, he] if x in m.ds["sub_col_x"].dims]
    if len(base) > 1 and ti in base:
        require(list(m.ds["sub_col_x"].dims[:len(base)]) == base, "dims are %s, not subcolumn x time x height first", m.ds["sub_col_x"].dims)
    require(np.all(m.ds["scalar"].values == 7.), "scalar field changed")


@st.composite
def sims(draw):
    g = draw(shapes())
    n = g["nlat"] * g["nlon"] * g["ntm"]
    while n > 6:
        g["nlon"], g["nlat"], g["ntm"] = max(1, g["nlon"] - 1), g["nlat"], g["ntm"] if g["nlon"] > 1 else max(1, g["ntm"] - 1)
        n = g["nlat"] * g["nlon"] * g["ntm"]
    g["has_lat"] = True
    col = draw(c18.specs((1, 1), 2, 3, n))
    k = col["nt"]
    # every column of the region is one of the generated columns
    pick = [draw(st.integers(0, k - 1)) for _ in range(n)]
    for key in ("z", "p", "T", "qv"):
        col[key] = [col[key][j] for j in pick]
    for cls in col["sc"].values():
        for d in cls.values():
            for key in d:
                d[key] = [d[key][j] for j in pick]
    col["nt"] = n
    return {"g": g, "col": col, "generate": draw(st.booleans())}


@CHECK.sub(sims(), quick=260, thorough=4000, shards=6)
def regional_simulation(s, ctx):
    """Each column of a region is simulated as if it were alone (with one subcolumn also its generation)."""
    g, col = s["g"], s["col"]
    c = col["calls"][0]
    gen = s["generate"]
    if gen:
        col["nsub"] = 1
    flat = c08.build(col, synth.instrument(c["inst"]))
    skip = [v for v in flat.ds.variables if "subcol" in v]
    extra = {}
    if gen:
        for cls in (["conv", "strat"] if col["conv"] else ["strat"]):
            for h in col["hyd"]:
                d = col["sc"][cls][h]
                on = (np.array(d["m"], dtype=object) & 1) > 0
                for name, val in ((cls[0] + "q_", np.where(on, d["q"], 0.)), (cls[0] + "f_", on * 1.), (cls[0] + "fr_", on * 1.),
                                  ("n_" if cls == "strat" else None, np.array(d["n"]) * 1.)):
                    if name:
                        extra[name + h] = val
        for k, v in extra.items():
            flat.ds[k] = synth.to_arr(v, "1")
        flat.ds = flat.ds.drop_vars([v for v in skip])
    m = c08.build(col, synth.instrument(c["inst"]))
    F = {v: (flat.ds[v].values, flat.ds[v].attrs.get("units")) for v in flat.ds.data_vars if v not in skip}
    m = regional(m, g, F)
    sut(m.check_and_stack_time_lat_lon)
    stacked = expect_stack(g)
    cols = columns_of(m, g, stacked)
    if not gen:
        m.num_subcolumns = col["nsub"]
        for v in skip:
            if v != "subcolumn":
                a = flat.ds[v].transpose("subcolumn", "time", "height").values
                m.ds[v] = xr.DataArray(a[:, cols], dims=("subcolumn", m.time_dim, m.height_dim), attrs=flat.ds[v].attrs)
    flat = c18.whole(flat, c, col["nsub"], skip_subcol_gen=not gen)
    m = c18.whole(m, c, col["nsub"], skip_subcol_gen=not gen, unstack_dims=True)
    require(m.stacked_time_dim is None, "still stacked")
    la, lo, ti, he = g["names"]
    c2 = coords(g)
    dims = ([la] if stacked else []) + ([lo] if stacked and g["has_lon"] else []) + [ti]
    for v in flat.ds.data_vars:
        require(v in m.ds.variables, "%s is missing from the regional result", v)
        a = flat.ds[v]
        if not set(a.dims) & {"time"}:
            continue
        rest = [d for d in a.dims if d != "time"]
        a = a.transpose("time", *rest).values
        e = a.reshape([len(c2[d]) for d in dims] + list(a.shape[1:]))
        x = m.ds[v]
        for d in dims + ["subcolumn"]:
            if d not in x.dims and (d != "subcolumn" or d in rest):
                x = x.expand_dims(d)
        x = x.transpose(*(dims + [he if d == "height" else d for d in rest])).values
        close(x, e, "%s in the region" % v, rtol=1e-6, atol=1e-290)
    ctx.nontriv(nontriv(g))
    ctx.count("generated", gen)
    ctx.count("stacked", stacked)
