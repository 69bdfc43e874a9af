"""C26: statistics: putting simulated signals on a common vertical grid, scattering ratio."""
import numpy as np
import xarray as xr
from hypothesis import strategies as st

from vlib.core import Check, require, sut, close
from vlib import synth

CHECK = Check("C26", "A case is generated model levels (per time and column), a generated target grid (coarser or finer, starting below or above "
              "the lowest level, reaching above the top) and generated signals with undefined cells. Non-trivial: at least one target "
              "bin overlaps two model levels.")
UNDEF, GROUND = -1e30, -1e20


@st.composite
def grids(draw):
    return {"nt": draw(synth.size(1, 3, 40)), "ns": draw(synth.size(1, 3, 60)), "nz": draw(synth.size(1, 9, 90)), "nc": draw(synth.size(1, 3, 20)),
            "ng": draw(synth.size(1, 9, 60)), "dz": draw(st.sampled_from([0.05, 0.2, 0.48, 1.5])), "step": draw(st.sampled_from([0.1, 0.24, 0.48, 2.])),
            "z0": draw(st.sampled_from([0., 0.02, 0.3, 1.1])), "g0": draw(st.sampled_from([0., 0., 0.5, 1.3])),
            "even": draw(st.booleans()), "hills": draw(st.sampled_from([0., 0.3, 2.])), "undef": draw(st.sampled_from([0., 0.2, 0.6, 1.])), "low": draw(st.sampled_from([-60., -60., -160.])),
            "seed": draw(st.integers(0, 2 ** 31 - 1))}


def edges(s, rng):
    """Bottoms and levels (km) of every time and column: nt x nz x nc."""
    d = s["dz"] * (np.ones((s["nt"], s["nz"] + 1, s["nc"])) if s["even"] else rng.uniform(0.3, 2., (s["nt"], s["nz"] + 1, s["nc"])))
    e = s["z0"] + np.cumsum(d, axis=1) - d[:, :1]
    if s["hills"]:                               # the ground differs between times and columns
        e = e + rng.uniform(0., s["hills"], (s["nt"], 1, s["nc"]))
    half, up = e[:, :-1], e[:, 1:]
    full = half + (up - half) * (0.5 if s["even"] else rng.uniform(0.3, 0.7))
    return full, half


def target(s, rng):
    d = s["step"] * (np.ones(s["ng"]) if s["even"] else rng.uniform(0.5, 1.5, s["ng"]))
    bot = s["g0"] + np.concatenate([[0.], np.cumsum(d)[:-1]])
    return bot, bot + d


def weights(full, half, bot, top):
    """Overlap (km) of each target bin with each model layer; the top layer is symmetric about its level."""
    up = np.append(half[1:], 2 * full[-1] - half[-1])
    return np.minimum(up[None], top[:, None]) - np.maximum(half[None], bot[:, None])


def oracle(full, half, y, bot, top, dB):
    """y: nz x ... ; NaN where undefined. Result: bins x ..., NaN where nothing is known, 'part' marks bins with an undefined layer."""
    w = weights(full, half, bot, top)
    maybe = (w > -1e-9) & (w < 1e-9)         # merely touching, up to rounding
    w = np.where(w < 1e-9, 0., w)
    ground = top <= half[0]
    tot = w.sum(axis=1)
    skip = (abs(top - half[0]) < 1e-9)[:, None] | (not dB) & ((maybe.astype(float) @ np.isnan(y).astype(float)) > 0)
    lin = np.where(np.isnan(y), 0., 10 ** (y / 10.)) if dB else np.where(np.isnan(y), 0., y)
    part = (w > 0).astype(float) @ np.isnan(y).astype(float) > 0
    with np.errstate(all="ignore"):
        v = (w @ lin) / tot[:, None]
        v = np.where(v > 0, 10 * np.log10(v), np.nan) if dB else np.where(part, np.nan, v)
    v[tot == 0] = np.nan
    skip = skip | maybe.any(axis=1)[:, None] & np.isnan(v)
    v[ground] = np.nan
    return v, ground, part, skip, int(np.sum((w > 0).sum(axis=1) > 1))


@CHECK.sub(grids(), quick=700, thorough=15000, shards=2)
def regrid(s, ctx):
    """Each target bin holds the mean of the model layers weighted by their overlap with it; flags elsewhere."""
    from emc2.statistics_LLNL.statistical_aggregation import COSP_CHANGE_VERTICAL_GRID as f
    rng = np.random.RandomState(s["seed"])
    full, half = edges(s, rng)
    full, half = full[:, :, 0], half[:, :, 0]
    bot, top = target(s, rng)
    y = rng.uniform(s["low"], 20, (s["nt"], s["ns"], s["nz"]))
    for dB in (False, True):
        und = rng.rand(*y.shape) < (s["undef"] if dB else 0.)
        yy = np.where(und, UNDEF, y)
        keep = yy.copy()
        r = sut(f, s["nt"], s["ns"], s["nz"], full, half, yy, s["ng"], bot, top, lunits=dB)
        close(yy, keep, "the profile passed in", rtol=0)
        require(r.shape == (s["nt"], s["ns"], s["ng"]), "shape %s", r.shape)
        for i in range(s["nt"]):
            e, ground, part, skip, multi = oracle(full[i], half[i], np.where(und, np.nan, y)[i].T, bot, top, dB)
            got = r[i].T
            gr = ground[:, None] & ~skip
            close(got[gr], GROUND, "bins below the lowest level", rtol=1e-9)
            e, got = e[~skip & ~gr], got[~skip & ~gr]
            close(got[np.isnan(e)], UNDEF, "bins without any value", rtol=1e-9)
            close(got[~np.isnan(e)], e[~np.isnan(e)], "overlap-weighted mean (dB units: %s)" % dB, rtol=1e-5, atol=1e-6)
            ctx.nontriv(multi > 0)
            ctx.count("below_ground", bool(ground.any()))
            ctx.count("above_top", bool(np.isnan(e).any()) and not dB)


@CHECK.sub(grids(), quick=400, thorough=8000, shards=2)
def signals(s, ctx):
    """Scattering ratio and reflectivity on the target grid, undefined wherever a layer of the bin is undefined or under ground."""
    from emc2.statistics_LLNL.statistical_aggregation import calculate_SR, get_regridded_ze_att_tot
    rng = np.random.RandomState(s["seed"])
    full, half = edges(s, rng)
    bot, top = target(s, rng)
    sh = (s["ns"], s["nt"], s["nz"], s["nc"])
    tot, mol, ze = 10 ** rng.uniform(-8, -4, sh), 10 ** rng.uniform(-8, -5, sh), rng.uniform(s["low"], 20, sh)
    if rng.rand() < 0.5:
        mol[:] = mol[:1]
    for a in (tot, ze):
        a[rng.rand(*sh) < s["undef"] * 0.5] = np.nan
    if rng.rand() < 0.3:
        mol[:, :, rng.randint(s["nz"])] = np.nan
    keep = [a.copy() for a in (tot, mol, ze)]
    sr = sut(calculate_SR, tot, mol, s["ns"], s["nt"], full, half, s["ns"], s["nt"], s["nz"], s["ng"], s["nc"], bot, top)
    zr = sut(get_regridded_ze_att_tot, ze, full, half, s["ns"], s["nt"], s["ng"], s["nc"], bot, top, s["ns"], s["nt"], s["nz"])
    for a, b in zip((tot, mol, ze), keep):
        close(a, b, "a signal passed in", rtol=0)
    multi = 0
    for t in range(s["nt"]):
        for c in range(s["nc"]):
            o = [oracle(full[t, :, c], half[t, :, c], a[:, t, :, c].T, bot, top, False) for a in (tot, mol, ze)]
            k = ~(o[0][3] | o[1][3])
            close(sr[:, t, :, c].T[k], (o[0][0] / o[1][0])[k], "scattering ratio at time %d column %d" % (t, c), rtol=1e-5)
            k = ~o[2][3]
            close(zr[:, t, :, c].T[k], o[2][0][k], "regridded reflectivity at time %d column %d" % (t, c), rtol=1e-5, atol=1e-6)
            multi += o[0][4]
            ctx.count("partly_undefined", bool(o[0][2].any()))
    ctx.nontriv(multi > 0)


class Model:
    pass


@CHECK.sub(grids(), quick=250, thorough=4000)
def from_model(s, ctx):
    """Signals are read per subcolumn, time, level and column; each layer encloses its own level."""
    from emc2.statistics_LLNL.statistical_aggregation import get_radar_lidar_signals
    if s["nz"] < 2:
        return
    rng = np.random.RandomState(s["seed"])
    full, _ = edges(s, rng)
    sh = (s["ns"], s["nt"], s["nz"], s["nc"])
    d4, d3 = ("subcolumn", "time", "lev", "ncol"), ("time", "lev", "ncol")
    m = Model()
    v = {"sub_col_beta_att_tot": (d4, 10 ** rng.uniform(-8, -4, sh)), "sub_col_Ze_att_tot": (d4, rng.uniform(-60, 20, sh)),
         "sigma_180_vol": (d3, 10 ** rng.uniform(-7, -5, sh[1:])), "tau": (d3, rng.uniform(0, 1, sh[1:])), "Z3": (d3, full * 1e3)}
    m.ds = xr.Dataset(v, coords={"time": np.arange(s["nt"]), "lev": np.arange(s["nz"]), "ncol": np.arange(s["nc"]), "subcolumn": np.arange(s["ns"])})
    keep = m.ds.copy(deep=True)
    tot, mol, z, zh, ze = sut(get_radar_lidar_signals, m)
    require(m.ds.identical(keep), "the model dataset was changed")
    close(tot, v["sub_col_beta_att_tot"][1], "total attenuated backscatter", rtol=1e-9)
    close(mol, np.broadcast_to(v["sigma_180_vol"][1] * v["tau"][1], sh), "attenuated molecular backscatter", rtol=1e-9)
    close(ze, v["sub_col_Ze_att_tot"][1], "attenuated reflectivity", rtol=1e-9)
    close(z, full, "height (km)", rtol=1e-9)
    require(np.all(zh <= z + 1e-9), "a layer's bottom is above its level")
    close(zh[:, 1:], (full[:, 1:] + full[:, :-1]) / 2., "interfaces are midway between levels", rtol=1e-9, atol=1e-12)
    close(zh[:, 0] + zh[:, 1], 2 * full[:, 0], "the lowest layer is symmetric about its level", rtol=1e-9, atol=1e-9)
    ctx.count("lowest_bottom_below_zero", bool((zh[:, 0] < 0).any()))
    ctx.nontriv()


@CHECK.sub(grids(), quick=100, thorough=2000)
def identity(s, ctx):
    """The model's own layers as target grid give the profile back; splitting a bin in two keeps its mean."""
    from emc2.statistics_LLNL.statistical_aggregation import COSP_CHANGE_VERTICAL_GRID as f
    rng = np.random.RandomState(s["seed"])
    full, half = edges(dict(s, nt=1, nc=1), rng)
    full, half = full[:, :, 0], half[:, :, 0]
    up = np.append(half[0, 1:], 2 * full[0, -1] - half[0, -1])
    y = rng.uniform(-60, 20, (1, s["ns"], s["nz"]))
    r = sut(f, 1, s["ns"], s["nz"], full, half, y, s["nz"], half[0], up)
    close(r, y, "a profile on its own grid", rtol=1e-6, atol=1e-6)
    bot, top = target(s, rng)
    mid = (bot + top) / 2
    a = sut(f, 1, s["ns"], s["nz"], full, half, y, s["ng"], bot, top)
    b = sut(f, 1, s["ns"], s["nz"], full, half, y, 2 * s["ng"], np.sort(np.append(bot, mid)), np.sort(np.append(top, mid)))
    inside = (bot >= half[0, 0]) & (top <= up[-1])
    close((b[0, :, 0::2] + b[0, :, 1::2])[:, inside] / 2, a[0][:, inside], "mean of the two halves of a bin", rtol=1e-5, atol=1e-6)
    ctx.nontriv(bool(inside.any()))
