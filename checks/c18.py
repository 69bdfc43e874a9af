"""C18: the whole simulation call equals its documented stages, whatever was simulated before."""
import copy
import zlib

import numpy as np
from hypothesis import strategies as st

from vlib.core import Check, require, sut, close, same_dataset
from vlib import synth, lidar
from checks import c08
from checks.c02 import count_ok

CHECK = Check("C18", "A case is a generated model (explicit subcolumns, or grid-scale fields for the generator), one to three whole simulation "
              "calls with a stock radar or lidar and options (logic, direction, multiple scattering, extinction limit, reference range, "
              "class list, ice tables, spectral width, classification, zeros/NaN, serial/parallel/chunk). Non-trivial: two classes "
              "overlap in a subcolumn and some cell is empty (stages), or partial fills (generation).")
RAD, LID = ["NEXRAD", "KAZR-nsa", "WACR-sgp", "XSACR", "BASTA-micre", "CSAPR"], ["HSRL", "RL", "CEIL", "Ten64nm", "CALIOP", "MPL"]


@st.composite
def calls(draw, kind=None):
    radar = draw(st.booleans()) if kind is None else kind
    c = {"inst": draw(st.sampled_from(RAD if radar else LID)), "logic": draw(st.sampled_from(["rad", "mic", "emp", None])),
         "sfc": draw(st.sampled_from([None, True, False])), "mie": draw(st.sampled_from([None, True, False])),
         "order": draw(st.sampled_from([None, None, ["pi", "pl", "ci", "cl"], ["ci", "cl"], ["cl", "pl"], ["ci"], ["pl", "pi"]])),
         "par": draw(st.sampled_from([[False, None], [True, None], [True, 1], None])), "nan": draw(st.sampled_from([None, True, False])),
         "classify": draw(st.booleans()), "fin": draw(st.booleans())}
    if radar:
        c["ref"] = draw(st.sampled_from([None, None, 500., 2000.]))
        c["width"] = draw(st.sampled_from([None, True, False]))
        c["rng"] = draw(st.sampled_from([None, [200., 1500.]]))
    else:
        c["eta"] = draw(st.sampled_from([None, None, 0.7, 0.5]))
        c["ext"] = draw(st.sampled_from([None, None, 0.5, 2.]))
        c["classify"] &= c["inst"] in ("HSRL", "CALIOP", "MPL")
    return c


@st.composite
def specs(draw, ncalls=(1, 1), max_sub=3, max_nz=4, max_nt=2):
    s = draw(synth.moment_specs(max_sub=max_sub, max_nz=max_nz, max_nt=max_nt))
    s["fluffy"] = draw(st.sampled_from([None, 0.5]))
    s["vardens"] = False
    s["calls"] = draw(st.lists(calls(), min_size=ncalls[0], max_size=ncalls[1]))
    return synth.blown(draw, s)


def kwargs(c):
    """The keyword arguments of the whole call."""
    k = {}
    if c["logic"]:
        k["use_rad_logic"] = c["logic"] == "rad"
        k["use_empiric_calc"] = c["logic"] == "emp"
    for a, b in (("sfc", "OD_from_sfc"), ("mie", "mie_for_ice"), ("order", "hyd_types"), ("nan", "convert_zeros_to_nan"), ("ref", "ref_rng"),
                 ("width", "calc_spectral_width"), ("rng", "mask_height_rng"), ("eta", "eta"), ("ext", "ext_OD")):
        if c.get(a) is not None:
            k[b] = c[a]
    if c["par"]:
        k["parallel"], k["chunk"] = c["par"]
    return k


def whole(m, c, n, **k):
    from emc2.simulator.main import make_simulated_data
    i = synth.instrument(c["inst"])
    return sut(make_simulated_data, m, i, n, do_classify=c["classify"], finalize_fields=c["fin"], **dict(kwargs(c), **k))


def stages(m, c):
    """The documented sequence of stages, called one by one."""
    from emc2.simulator import radar_moments as R, lidar_moments as L, classification as C, attenuation as A
    i = synth.instrument(c["inst"])
    rad, emp = c["logic"] in (None, "rad"), c["logic"] == "emp"
    sfc = i.OD_from_sfc if c["sfc"] is None else c["sfc"]
    nan = bool(c["nan"])
    base = {"OD_from_sfc": sfc, "hyd_types": c["order"], "use_rad_logic": rad, "use_empiric_calc": emp, "parallel": False}
    for is_conv in ([True, False] if m.process_conv else [False]):
        mie = c["mie"] if c["mie"] is not None else (not rad and not is_conv and m.mcphys_scheme != "P3")
        if i.instrument_class == "radar":
            m = R.calc_radar_moments(i, m, is_conv, mie_for_ice=mie, calc_spectral_width=c["width"] is not False, **base)
        else:
            eta = i.eta if c["eta"] is None else c["eta"]
            m = L.calc_lidar_moments(i, m, is_conv, mie_for_ice=mie, eta=eta, **base)
    if i.instrument_class == "radar":
        m = A.calc_radar_Ze_min(i, m, c["ref"] or 1000)
        m = R.calc_total_reflectivity(m, detect_mask=True)
        if c["classify"]:
            m = C.radar_classify_phase(i, m, mask_height_rng=c["rng"], convert_zeros_to_nan=nan)
    else:
        m = L.calc_total_alpha_beta(m, OD_from_sfc=sfc, eta=eta)
        m = L.calc_LDR_and_ext(m, ext_OD=c["ext"] or i.ext_OD, OD_from_sfc=sfc, hyd_types=c["order"])
        if c["classify"]:
            m = C.lidar_classify_phase(i, m, convert_zeros_to_nan=nan)
            m = C.lidar_emulate_cosp_phase(i, m, eta=eta, OD_from_sfc=sfc, convert_zeros_to_nan=nan, hyd_types=c["order"])
    if c["fin"]:
        for v in list(m.ds.keys()):
            if "sub_col" in v:
                a = m.ds[v].values.astype(float)
                m.ds[v] = (m.ds[v].dims, np.where(a == 0, np.nan, a))
    return m


def fingerprint(i):
    """Checksum of an instrument's tables and settings."""
    out = {}
    for k, v in sorted(vars(i).items()):
        if isinstance(v, dict):
            for n, d in v.items():
                if hasattr(d, "variables"):
                    out[k, n] = tuple((str(x), zlib.crc32(np.ascontiguousarray(d[x].values).tobytes()), str(d[x].attrs)) for x in sorted(d.variables))
                else:
                    out[k, n] = str(d)
        else:
            out[k] = str(v)
    return out


def settings(m):
    return {k: str(v) for k, v in vars(m).items() if k != "ds"}


def overlap(s):
    ms = [synth.mask(s, "strat", h) for h in s["hyd"]]
    return bool((sum(ms) > 1).any() and min(x.min() for x in ms) == 0)


UNITS = {"Ze": "dbz", "Vd": "ms-1", "sigma": "ms-1", "alpha": "m-1", "beta": "m-1sr-1", "OD": "1", "LDR": "1"}


def labels(m, s, c):
    """Outputs carry the unit of their quantity, and those of a class or cloud type are not labelled as another's."""
    for v in m.ds.data_vars:
        if not v.startswith("sub_col_"):
            continue
        a, part = m.ds[v].attrs, v[8:].split("_")
        u = "".join(x for x in str(a.get("units")).lower().replace("\\", " ") if x not in "${}^ ")
        require(u == UNITS[part[0]], "%s is labelled with unit %s", v, a.get("units"))
        n = str(a.get("long_name")).lower()
        for x, y in (("strat", "conv"), ("conv", "strat")):
            require(part[-1] != x or x in n and y not in n, "%s is called %s", v, n)
        for h in s["hyd"]:
            require(h not in part or h in n.replace(",", " ").split(), "%s is called %s", v, n)


@CHECK.sub(specs(), quick=280, thorough=8000, shards=7)
def whole_call_is_its_stages(s, ctx):
    c = s["calls"][0]
    i = synth.instrument(c["inst"])
    m = c08.build(s, i)
    before, par, tab = m.ds.copy(deep=True), settings(m), fingerprint(i)
    m = whole(m, c, s["nsub"], skip_subcol_gen=True)
    labels(m, s, c)
    exp = sut(stages, c08.build(s, synth.instrument(c["inst"])), c)
    same_dataset(m.ds, exp.ds, "whole call vs stages", rtol=1e-9, atol=1e-290)
    lidar.unchanged(before, m)
    require(settings(m) == par, "model settings changed: %s", {k: (par.get(k), v) for k, v in settings(m).items() if par.get(k) != v})
    require(fingerprint(i) == tab, "the instrument's tables or settings changed")
    ctx.nontriv(overlap(s))
    ctx.count("radar" if c["inst"] in RAD else "lidar")
    ctx.count("logic_%s" % c["logic"])
    ctx.count("classify", c["classify"])
    ctx.count("finalize", c["fin"])
    ctx.count("conv", s["conv"])


@st.composite
def histories(draw):
    s = draw(specs((2, 3), 2, 3, 2))
    s["edits"] = draw(st.one_of(st.just([]), st.lists(st.sampled_from(["t", "p_3d", "q", "z", "rho_a", "sub_q", "sub_n", "re"]), min_size=1, max_size=3, unique=True)))
    return s


def edit(m, what):
    """The user changes inputs of the model before the last call."""
    for v in list(m.ds.data_vars):
        for e in what:
            if v == e or e == "sub_q" and "_q_subcolumns_" in v or e == "sub_n" and "_n_subcolumns_" in v or e == "re" and v[1:4] == "re_":
                a = m.ds[v].values
                m.ds[v] = (m.ds[v].dims, a - 7. if v == "t" else a * (0.8 if v == "Fr" else 1.25), m.ds[v].attrs)
    return m


@CHECK.sub(histories(), quick=96, thorough=2500, shards=4)
def history_does_not_matter(s, ctx):
    """Simulating other instruments, options or inputs first leaves the results of the last call as on a fresh model."""
    m = c08.build(s, synth.instrument(s["calls"][0]["inst"]))
    for k, c in enumerate(s["calls"]):
        m = whole(edit(m, s["edits"] if k == len(s["calls"]) - 1 else []), c, s["nsub"], skip_subcol_gen=True)
    last = s["calls"][-1]
    f = whole(edit(c08.build(s, synth.instrument(s["calls"][0]["inst"])), s["edits"]), last, s["nsub"], skip_subcol_gen=True)
    for v in f.ds.variables:
        require(v in m.ds.variables, "%s is missing", v)
        require(m.ds[v].dims == f.ds[v].dims, "%s: dims %s after other calls, else %s", v, m.ds[v].dims, f.ds[v].dims)
        close(m.ds[v].values, f.ds[v].values, "%s after earlier calls" % v, rtol=1e-9, atol=1e-290)
    ctx.nontriv(overlap(s))
    kinds = [c["inst"] in RAD for c in s["calls"]]
    ctx.count("inputs_changed", bool(s["edits"]))
    ctx.count("mixed_instruments", len(set(kinds)) > 1)
    ctx.count("same_instrument_again", len({c["inst"] for c in s["calls"]}) < len(kinds))


@st.composite
def perms(draw):
    s = draw(specs((1, 1), 4, 3, 4))
    s["tp"] = draw(st.lists(st.integers(0, s["nt"] - 1), min_size=1, max_size=5))
    s["sp"] = draw(st.permutations(range(s["nsub"])))
    return s


@CHECK.sub(perms(), quick=96, thorough=2500, shards=4)
def columns_are_independent(s, ctx):
    """Selecting, repeating or reordering time columns and reordering subcolumns does the same to the results."""
    c = s["calls"][0]
    i = synth.instrument(c["inst"])
    m = whole(c08.build(s, i), c, s["nsub"], skip_subcol_gen=True)
    g = c08.build(s, i)
    g.ds = g.ds.isel(time=s["tp"], subcolumn=list(s["sp"]))
    g.ds["time"] = ("time", np.arange(len(s["tp"])) * 600.)
    g.ds["subcolumn"] = ("subcolumn", np.arange(s["nsub"]))
    g = whole(g, c, s["nsub"], skip_subcol_gen=True)
    e = m.ds.isel(time=s["tp"], subcolumn=list(s["sp"]))
    for v in e.data_vars:
        d = e[v].dims
        close(g.ds[v].transpose(*d).values, e[v].values, "%s with columns selected" % v, rtol=1e-6, atol=1e-290)
    ctx.nontriv(overlap(s) and (s["tp"] != list(range(s["nt"])) or list(s["sp"]) != sorted(s["sp"])))


@st.composite
def full(draw):
    s = draw(synth.model_specs(min_nz=2, max_nz=5, max_nt=3, max_sub=8, min_sub=1, family=("ModelE",), rad=True, relvar=True,
                               conv=draw(st.booleans()), consistent=True))
    s["call"] = draw(calls())
    s["later"] = draw(calls())
    s["pre"] = draw(st.booleans())
    if s["nsub"] == 1:      # no sub-grid fractions: one set of fractions, zero together with the mixing ratio
        for d in s["f"].values():
            for f, q in (("sfrac", "sq"), ("cfrac", "cq")):
                d.pop(f + "_rad", None)
                d[q] = [[v if w > 0 else 0. for v, w in zip(x, y)] for x, y in zip(d[q], d[f])]
    return s


def totals_ok(s, m, rad):
    """Subcolumn counts and contents of the generated subcolumns."""
    n = s["nsub"]
    get = lambda v: m.ds[v].transpose("subcolumn", "time", "height").values
    C = np.zeros((n, s["nt"], s["nz"]), bool)
    partial = False
    for cls in (["conv", "strat"] if s["conv"] else ["strat"]):
        for h in s["hyd"]:
            d = s["f"][h]
            fk, qk = cls[0] + "frac", cls[0] + "q"
            q = np.array(d[qk])
            fr = np.array(d.get(fk + "_rad", d[fk]) if rad else d[fk])
            use = np.where(q > 1e-18, fr, 0) if rad else fr
            flag = get("%s_frac_subcolumns_%s" % (cls, h)) > 0
            if cls == "conv" and h in ("cl", "ci"):
                C |= flag
            cnt = flag.sum(axis=0)
            partial |= bool(((cnt > 0) & (cnt < n)).any())
            if n == 1:
                require(np.array_equal(flag[0], q > 1e-18), "%s %s: single-subcolumn flag differs from q > threshold", cls, h)
            else:
                for t in range(s["nt"]):
                    for k in range(s["nz"] - 1):
                        free = int((~C[:, t, k]).sum()) if cls == "strat" and h in ("cl", "ci") else n
                        require(count_ok(cnt[t, k], use[t, k], n, free), "%s %s time %d level %d: %d of %d subcolumns, fraction %g",
                                cls, h, t, k, int(cnt[t, k]), n, use[t, k])
            inc = np.where(q > 1e-18, q / np.where(fr > 0, fr, 1), 0)
            qs = get("%s_q_subcolumns_%s" % (cls, h))
            spread = np.where(flag, qs, -np.inf).max(axis=0) - np.where(flag, qs, np.inf).min(axis=0) > 1e-12 * inc
            vary = (cnt > 1) & (inc > 0) & (n > 1)
            if cls == "strat" and h == "cl" and not rad:
                # a first draw beyond the cell's total leaves the cell uniform: P < exp(-count)
                require(cnt[vary].sum() < 30 or spread[vary].any(), "cloud water has no sub-grid variability")
            else:
                require(not spread[vary].any(), "%s %s: mixing ratio varies between the subcolumns of a cell", cls, h)
            close(qs.sum(axis=0), inc * cnt, "%s %s: total mixing ratio" % (cls, h), rtol=1e-9, atol=1e-300)
            if cls == "strat":
                N = np.array(d["N"]) / np.where(fr > 0, fr, 1)
                close(get("strat_n_subcolumns_" + h), np.where(flag, N, 0), "%s number" % h, rtol=1e-9)
    if n > 1:      # which class is convective-taken is only known once both clouds are read
        both = [get("strat_frac_subcolumns_" + h) > 0 for h in ("cl", "ci")]
        require(not ((both[0] | both[1]) & C)[..., :-1].any() or any(
            (np.round(np.array(s["f"][h].get("sfrac_rad", s["f"][h]["sfrac"])) * n) == n).any() for h in ("cl", "ci")) or not rad,
            "stratiform cloud in a convective subcolumn")
    return partial


@CHECK.sub(full(), quick=120, thorough=3000, shards=5)
def generation_and_reuse(s, ctx):
    """Subcolumns obey the model's fractions; generating alone then simulating equals doing both at once; a second run reuses them."""
    c = s["call"]
    i = synth.instrument(c["inst"])
    n = s["nsub"]

    def fresh():
        m = synth.build(s)
        if s["pre"]:
            m.num_subcolumns = n
        synth.seed_np(s)
        return m
    m = fresh()
    before, par = m.ds.copy(deep=True), settings(m)
    m = whole(m, c, None if s["pre"] else n)
    g = whole(fresh(), dict(c, fin=False), n, subcol_gen_only=True)
    require(not [v for v in g.ds if str(v).startswith("sub_col")], "subcolumn generation alone made simulated fields")
    require(g.num_subcolumns == n, "%d subcolumns, asked for %d", g.num_subcolumns, n)
    only = g.ds.copy(deep=True)
    partial = totals_ok(s, g, c["logic"] in (None, "rad"))
    g = whole(g, c, n, skip_subcol_gen=True)
    same_dataset(g.ds, m.ds, "generation then simulation vs both at once", rtol=1e-9, atol=1e-290)
    lidar.unchanged(before, m)
    require(settings(m) == par, "model settings changed")
    m = whole(m, s["later"], n, skip_subcol_gen=True)
    lidar.unchanged(only, m)
    ctx.nontriv(partial)
    ctx.count("single_subcolumn", n == 1)
    ctx.count("conv", s["conv"])
