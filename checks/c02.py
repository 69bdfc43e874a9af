"""C02: stratiform cloud subcolumn allocation."""
import copy

import numpy as np
from hypothesis import strategies as st

from vlib.core import Check, require, sut
from vlib import synth

CHECK = Check("C02", "A case is one generated model (1-4 times, 2-7 levels, 2-40 subcolumns) with convective and "
              "stratiform liquid/ice fractions, run through the public stratiform allocation. Non-trivial: two "
              "vertically adjacent cloudy levels with different partial fractions (so that overlap and leftover "
              "placement both happen). The randomness subtest repeats one two-layer profile over 200-400 columns "
              "and compares the mean overlap of separated layers (and of the layers of neighbouring columns and of two "
              "calls) with the hypergeometric expectation (6 sigma).")


@st.composite
def specs(draw, rad=True):
    conv = draw(st.booleans())
    s = draw(synth.model_specs(lean=True, max_nt=4, max_nz=9, max_sub=30, consistent=False, rad=rad, conv=conv))
    s["rad_logic"] = draw(st.booleans())
    s["thresh"] = synth.threshold(draw, s)
    s["mode"] = draw(st.sampled_from(["serial", "parallel", "chunk1", "chunk2", "chunk9"]))
    s["ncol_arg"] = draw(st.booleans())
    return s


def mode_kw(mode):
    if mode == "serial":
        return {"parallel": False}
    return {"parallel": True, "chunk": None if mode == "parallel" else int(mode[5:])}


def run(s):
    from emc2.simulator import subcolumn as sc
    m = synth.build(s)
    kw = {} if s["thresh"] is None else {"q_trunc_thresh": s["thresh"]}
    synth.seed_np(s)
    if s["conv"]:
        for h in ("cl", "ci"):
            m = sut(sc.set_convective_sub_col_frac, m, h, N_columns=s["nsub"],
                    use_rad_logic=s["rad_logic"], **kw)
    nc = s["nsub"] if (s["ncol_arg"] or not s["conv"]) else None
    m = sut(sc.set_stratiform_sub_col_frac, m, N_columns=nc, use_rad_logic=s["rad_logic"],
            **dict(kw, **mode_kw(s["mode"])))
    return m


def want(s, h):
    d = s["f"][h]
    frac = np.array(d.get("sfrac_rad", d["sfrac"]) if s["rad_logic"] else d["sfrac"])
    if s["rad_logic"]:
        frac = np.where(np.array(d["sq"]) > (s["thresh"] or 1e-18), frac, 0.)
    return frac


def get(m, name):
    a = m.ds[name].transpose("subcolumn", "time", "height").values
    require(np.all((a == 0) | (a == 1)), "%s: flags are not 0/1", name)
    return a.astype(bool)


def count_ok(cnt, frac, n, free):
    lo, hi = np.ceil(frac * n - 0.5 - 1e-9), np.floor(frac * n + 0.5 + 1e-9)
    return lo <= cnt <= hi or (free < hi and cnt == free)


@CHECK.sub(specs(), quick=1600, thorough=40000, shards=7)
def allocation(s, ctx):
    m = run(s)
    n, nz = s["nsub"], s["nz"]
    S = {h: get(m, "strat_frac_subcolumns_" + h) for h in ("cl", "ci")}
    C = np.zeros((n, s["nt"], nz), dtype=bool)
    if s["conv"]:
        C = get(m, "conv_frac_subcolumns_cl") | get(m, "conv_frac_subcolumns_ci")
    fr = {h: want(s, h) for h in S}
    nontriv = False
    for t in range(s["nt"]):
        for k in range(nz - 1):   # the model-top level has no level above it and is not filled
            c = {h: int(S[h][:, t, k].sum()) for h in S}
            free = int((~C[:, t, k]).sum())
            over = all(np.round(fr[h][t, k] * n) == n for h in S)
            for h in S:
                require(count_ok(c[h], fr[h][t, k], n, n if over else free),
                        "%s time %d level %d: %d of %d subcolumns cloudy, fraction %g, %d not convective",
                        h, t, k, c[h], n, fr[h][t, k], free)
                require(over or not np.any(S[h][:, t, k] & C[:, t, k]),
                        "%s time %d level %d: stratiform cloud in a convective subcolumn", h, t, k)
            a, b = sorted(S, key=lambda h: c[h])
            require(not np.any(S[a][:, t, k] & ~S[b][:, t, k]),
                    "time %d level %d: liquid and ice are not maximally overlapped", t, k)
            above = (S["cl"][:, t, k + 1] | S["ci"][:, t, k + 1]) & ~C[:, t, k]
            here = S[b][:, t, k]
            if not over:
                exp = min(int(above.sum()), c[b])
                got = int((above & here).sum())
                require(got == exp, "time %d level %d: %d subcolumns continue the cloud above, %d could",
                        t, k, got, exp)
                lo_above = min(S["cl"][:, t, k + 1].sum(), S["ci"][:, t, k + 1].sum())
                nontriv |= bool(0 < above.sum() < n and 0 < c[b] < n and above.sum() != c[b])
                ctx.count("differing_upper_classes", lo_above != above.sum() and above.sum() > 0)
    ctx.nontriv(nontriv)
    ctx.count(s["mode"])
    ctx.count("conv", s["conv"])
    ctx.count("rad", s["rad_logic"])


@st.composite
def rnd(draw):
    n = draw(st.integers(6, 20))
    return {"n": n, "a": draw(st.integers(2, n - 2)), "b": draw(st.integers(2, n - 2)),
            "np_seed": draw(st.integers(0, 2 ** 31 - 1)), "nt": draw(st.integers(200, 400)),
            "ice": draw(st.booleans()), "parallel": draw(st.booleans())}


@CHECK.sub(rnd(), quick=16, thorough=150, shards=2)
def random_overlap_of_separated_layers(s, ctx):
    """Layers separated by clear air overlap at random; no subcolumn is preferred."""
    n, nt = s["n"], s["nt"]
    col = {"nz": 4, "nt": nt, "z": [[100., 600., 1100., 1600.]] * nt, "p": [[950., 900., 850., 800.]] * nt,
           "T": [[270.] * 4] * nt, "qv": [[1e-3] * 4] * nt}
    prof = [s["a"] / n, 0., s["b"] / n, 0.]
    on, off = [prof] * nt, [[0.] * 4] * nt
    spec = dict(col, nsub=n, hyd=["cl", "ci"], family="ModelE", mcphys="MG2", np_seed=s["np_seed"], conv=False,
                f={h: {"sfrac": on if (h == "ci") == s["ice"] else off, "cfrac": off,
                       "sq": [[1e-5] * 4] * nt, "cq": off, "N": off, "re": off, "cre": off} for h in ("cl", "ci")},
                rad_logic=True, thresh=None, mode="parallel" if s["parallel"] else "serial", ncol_arg=True)
    m = run(spec)
    S = get(m, "strat_frac_subcolumns_" + ("ci" if s["ice"] else "cl"))
    synth.random_overlap(S[:, :, 0], S[:, :, 2], "separated layers")
    # neither the neighbouring column nor another call repeats the placement
    again = get(run(dict(spec, np_seed=s["np_seed"] + 1)), "strat_frac_subcolumns_" + ("ci" if s["ice"] else "cl"))
    for what, x, y in (("neighbouring columns", S[:, 1:, 2], S[:, :-1, 2]), ("two calls", S[:, :, 2], again[:, :, 2])):
        synth.random_overlap(x, y, "one layer in " + what)
    for k in (0, 2):
        synth.no_preference(S[:, :, k], "level %d" % k)
    ctx.nontriv()


def repeated(draw, types, nt):
    """One profile without convection, the same in each of nt columns."""
    n, nz = draw(st.integers(5, 12)), draw(st.integers(3, 7))
    off = [[0.] * nz] * nt
    row = lambda: [[draw(st.sampled_from([0., 1. / n, 2. / n, 0.4, 0.6, 1 - 1. / n, 1.])) for _ in range(nz)]] * nt
    f = {h: {"sfrac": row(), "cfrac": off, "sq": [[1e-5] * nz] * nt, "cq": off, "N": off, "re": off, "cre": off}
         for h in types}
    return {"nz": nz, "nt": nt, "z": [[100. + 500. * k for k in range(nz)]] * nt, "qv": [[1e-3] * nz] * nt,
            "p": [[950. - 50. * k for k in range(nz)]] * nt, "T": [[270.] * nz] * nt, "nsub": n, "hyd": types,
            "family": "ModelE", "mcphys": "MG2", "np_seed": draw(st.integers(0, 2 ** 31 - 1)), "conv": False, "f": f,
            "rad_logic": draw(st.booleans()), "thresh": None, "ncol_arg": True,
            "mode": draw(st.sampled_from(["serial", "parallel", "chunk9"]))}


@CHECK.sub(st.composite(lambda draw: repeated(draw, ["cl", "ci"], draw(st.integers(200, 300))))(), quick=64,
           thorough=800, shards=2)
def no_subcolumn_is_preferred(s, ctx):
    """Among the eligible subcolumns the choice is random, in every branch of the allocation."""
    m = run(s)
    for h in ("cl", "ci"):
        S = get(m, "strat_frac_subcolumns_" + h)
        for k in range(s["nz"] - 1):
            synth.no_preference(S[:, :, k], "%s level %d" % (h, k))
            ctx.nontriv(bool(0 < S[:, 0, k].sum() < s["nsub"]))


@st.composite
def one_col(draw):
    s = draw(synth.model_specs(lean=True, min_sub=1, max_sub=1, consistent=False, conv=draw(st.booleans())))
    s["rad_logic"] = draw(st.booleans())
    s["thresh"] = synth.threshold(draw, s)
    s["mode"], s["ncol_arg"] = "serial", draw(st.booleans())
    return s


@CHECK.sub(one_col(), quick=40, thorough=500)
def single_subcolumn(s, ctx):
    m = run(s)
    for h in ("cl", "ci"):
        exp = np.array(s["f"][h]["sq"]) > (s["thresh"] or 1e-18)
        got = get(m, "strat_frac_subcolumns_" + h)
        require(got.shape == (1,) + exp.shape and np.array_equal(got[0], exp),
                "%s: single-subcolumn flag differs from q > threshold", h)
        ctx.nontriv(bool(exp.any() and not exp.all()))


@CHECK.sub(specs(), quick=40, thorough=400, shards=2)
def preset_subcolumns_and_inputs(s, ctx):
    """A previously set subcolumn count is used when none is passed; inputs are left alone."""
    from emc2.simulator import subcolumn as sc
    s = copy.deepcopy(s)
    m = synth.build(s)
    m.num_subcolumns = s["nsub"]
    if s["conv"]:
        for h in ("cl", "ci"):
            m = sut(sc.set_convective_sub_col_frac, m, h, use_rad_logic=s["rad_logic"])
    before = m.ds.copy(deep=True)
    synth.seed_np(s)
    m = sut(sc.set_stratiform_sub_col_frac, m, use_rad_logic=s["rad_logic"], **mode_kw(s["mode"]))
    require(m.num_subcolumns == s["nsub"], "subcolumn count changed to %s", m.num_subcolumns)
    for v in before.variables:
        require(np.array_equal(before[v].values, m.ds[v].values, equal_nan=True), "field %s was modified", v)
    ctx.nontriv(s["nsub"] > 2)
