"""C03: precipitation subcolumn allocation."""
import numpy as np
from hypothesis import strategies as st

from vlib.core import Check, require, sut
from vlib import synth
from checks.c02 import mode_kw, get, repeated

CHECK = Check("C03", "A case is one generated model (1-3 times, 2-8 levels, 2-30 subcolumns, 1-4 precipitation classes, "
              "convective or stratiform, radiation or microphysics fractions) whose cloud flags come from the real cloud "
              "allocation. Non-trivial: some level has precipitation above in part of the subcolumns, a different amount of "
              "precipitation itself, and partial cloud.")


@st.composite
def specs(draw, **kw):
    types = draw(st.sampled_from([["pl", "pi"], ["pl", "pi"], ["pi", "pl"], ["pl"], ["pi"],
                                  ["pl", "pi", "gr"], ["pl", "pi", "gr", "ha"]]))
    hyd = ["cl", "ci"] + types
    is_conv = draw(st.booleans())
    a = dict(lean=True, max_sub=30, max_nz=8, consistent=False, rad=True, hyd=hyd,
             conv=is_conv or draw(st.booleans()))
    a.update(kw)
    s = draw(synth.model_specs(**a))
    s.update(types=types, is_conv=is_conv, rad_logic=draw(st.booleans()),
             thresh=synth.threshold(draw, s, "cq" if is_conv else "sq"),
             mode=draw(st.sampled_from(["serial", "parallel", "chunk1", "chunk2"])))
    return s


def prepare(s):
    from emc2.simulator import subcolumn as sc
    m = synth.build(s)
    synth.seed_np(s)
    if s["conv"]:
        for h in ("cl", "ci"):
            m = sut(sc.set_convective_sub_col_frac, m, h, N_columns=s["nsub"], use_rad_logic=s["rad_logic"])
    m = sut(sc.set_stratiform_sub_col_frac, m, N_columns=s["nsub"], use_rad_logic=s["rad_logic"], parallel=False)
    return m


@CHECK.sub(specs(), quick=1400, thorough=30000, shards=8)
def allocation(s, ctx):
    from emc2.simulator import subcolumn as sc
    m = prepare(s)
    before = m.ds.copy(deep=True)
    kw = {} if s["thresh"] is None else {"q_trunc_thresh": s["thresh"]}
    m = sut(sc.set_precip_sub_col_frac, m, is_conv=s["is_conv"], use_rad_logic=s["rad_logic"],
            precip_types=list(s["types"]), **dict(kw, **mode_kw(s["mode"])))
    for v in before.variables:
        require(np.array_equal(before[v].values, m.ds[v].values, equal_nan=True), "field %s was modified", v)
    pre = "conv" if s["is_conv"] else "strat"
    n = s["nsub"]
    cloud = get(m, pre + "_frac_subcolumns_cl") | get(m, pre + "_frac_subcolumns_ci")
    P = {h: get(m, "%s_frac_subcolumns_%s" % (pre, h)) for h in s["types"]}
    anyp = np.any(np.stack(list(P.values())), axis=0)
    key, qk = ("cfrac", "cq") if s["is_conv"] else ("sfrac", "sq")
    nontriv = False
    for t in range(s["nt"]):
        for k in range(s["nz"] - 1):
            above = anyp[:, t, k + 1]
            incloud = cloud[:, t, k] & ~above
            cnts = {}
            for h in s["types"]:
                d = s["f"][h]
                fr = np.array(d.get(key + "_rad", d[key]) if s["rad_logic"] else d[key])[t][k]
                if s["rad_logic"] and not d[qk][t][k] > (s["thresh"] or 1e-18):
                    fr = 0.
                x = P[h][:, t, k]
                c = cnts[h] = int(x.sum())
                require(abs(c - fr * n) <= 0.5 + 1e-9,
                        "%s time %d level %d: %d of %d subcolumns precipitate, fraction %g", h, t, k, c, n, fr)
                got, exp = int((x & above).sum()), min(c, int(above.sum()))
                require(got == exp, "%s time %d level %d: %d subcolumns lie under precipitation, %d could",
                        h, t, k, got, exp)
                got, exp = int((x & incloud).sum()), min(c - exp, int(incloud.sum()))
                require(got == exp, "%s time %d level %d: %d new precipitating subcolumns are in cloud, %d could be",
                        h, t, k, got, exp)
            o = sorted(s["types"], key=lambda h: cnts[h])
            for a, b in zip(o, o[1:]):
                require(not np.any(P[a][:, t, k] & ~P[b][:, t, k]),
                        "time %d level %d: %s and %s are not maximally overlapped", t, k, a, b)
            mx = cnts[o[-1]]
            nontriv |= bool(0 < above.sum() < n and 0 < mx < n and mx != above.sum() and 0 < incloud.sum() < n)
    ctx.nontriv(nontriv)
    ctx.count("conv", s["is_conv"])
    ctx.count(s["mode"])


@CHECK.sub(specs(min_sub=1, max_sub=1), quick=60, thorough=500)
def single_subcolumn(s, ctx):
    from emc2.simulator import subcolumn as sc
    m = prepare(s)
    kw = {} if s["thresh"] is None else {"q_trunc_thresh": s["thresh"]}
    m = sut(sc.set_precip_sub_col_frac, m, is_conv=s["is_conv"], use_rad_logic=s["rad_logic"],
            precip_types=list(s["types"]), **dict(kw, **mode_kw(s["mode"])))
    for h in s["types"]:
        exp = np.array(s["f"][h]["cq" if s["is_conv"] else "sq"]) > (s["thresh"] or 1e-18)
        got = get(m, "%s_frac_subcolumns_%s" % ("conv" if s["is_conv"] else "strat", h))
        require(got.shape == (1,) + exp.shape and np.array_equal(got[0], exp),
                "%s: single-subcolumn flag differs from q > threshold", h)
        ctx.nontriv(bool(exp.any() and not exp.all()))


@st.composite
def rnd(draw):
    n = draw(st.integers(6, 16))
    return {"n": n, "c": draw(st.integers(2, n - 2)), "p": draw(st.integers(2, n - 2)),
            "np_seed": draw(st.integers(0, 2 ** 31 - 1)), "nt": draw(st.integers(200, 300)),
            "type": draw(st.sampled_from(["pl", "pi"]))}


@CHECK.sub(rnd(), quick=10, thorough=100, shards=1)
def random_placement(s, ctx):
    """Within the eligible subcolumns no one is preferred (hypergeometric counts, 6.5 sigma)."""
    from emc2.simulator import subcolumn as sc
    n, nt = s["n"], s["nt"]
    on = [[s["p"] / n, 0., s["p"] / n, 0.]] * nt
    cl = [[s["c"] / n, 0., 0., 0.]] * nt
    off = [[0.] * 4] * nt
    spec = {"nz": 4, "nt": nt, "z": [[100., 600., 1100., 1600.]] * nt, "p": [[950., 900., 850., 800.]] * nt,
            "T": [[270.] * 4] * nt, "qv": [[1e-3] * 4] * nt, "nsub": n, "hyd": synth.HYD4, "family": "ModelE",
            "mcphys": "MG2", "np_seed": s["np_seed"], "conv": False, "rad_logic": True,
            "f": {h: {"sfrac": cl if h == "cl" else on if h == s["type"] else off, "cfrac": off,
                      "sq": [[1e-5] * 4] * nt, "cq": off, "N": off, "re": off, "cre": off} for h in synth.HYD4}}
    def once(seed):
        m = prepare(dict(spec, np_seed=seed))
        m = sut(sc.set_precip_sub_col_frac, m, is_conv=False, use_rad_logic=True, parallel=False)
        return get(m, "strat_frac_subcolumns_" + s["type"]), get(m, "strat_frac_subcolumns_cl")
    P, C = once(s["np_seed"])
    P2, _ = once(s["np_seed"] + 1)
    for what, x, y in (("precipitation of neighbouring columns", P[:, 1:, 2], P[:, :-1, 2]),
                       ("precipitation of two calls", P[:, :, 2], P2[:, :, 2]),
                       ("clear-air precipitation and separated cloud", P[:, :, 2], C[:, :, 0])):
        synth.random_overlap(x, y, what)
    synth.no_preference(P[:, :, 2], "clear-air precipitation")
    ctx.nontriv()


@st.composite
def many(draw):
    types = draw(st.sampled_from([["pl", "pi"], ["pi", "pl"], ["pl"], ["pl", "pi", "gr", "ha"]]))
    s = repeated(draw, ["cl", "ci"] + types, draw(st.integers(200, 300)))
    return dict(s, types=types)


@CHECK.sub(many(), quick=64, thorough=800, shards=2)
def no_subcolumn_is_preferred(s, ctx):
    """Among the eligible subcolumns the choice is random, in every branch of the allocation."""
    from emc2.simulator import subcolumn as sc
    m = prepare(s)
    m = sut(sc.set_precip_sub_col_frac, m, is_conv=False, use_rad_logic=s["rad_logic"], precip_types=list(s["types"]),
            **mode_kw(s["mode"]))
    for h in s["types"]:
        P = get(m, "strat_frac_subcolumns_" + h)
        for k in range(s["nz"] - 1):
            synth.no_preference(P[:, :, k], "%s level %d" % (h, k))
            ctx.nontriv(bool(0 < P[:, 0, k].sum() < s["nsub"]))
