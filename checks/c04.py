"""C04: mixing ratio and number conservation across subcolumns."""
import numpy as np
from hypothesis import strategies as st

from vlib.core import Check, require, sut, close, timeout
from vlib import synth
from checks.c02 import mode_kw, get

CHECK = Check("C04", "A case is one generated model taken through the real fraction allocation and then the q/N distribution "
              "(all classes, convective and stratiform, uniform or gamma-distributed cloud water, given or in-dataset "
              "relative variance, serial / parallel / chunked). Non-trivial: some class fills a cell only partly. The "
              "distribution subtest pools >=1000 subcolumn values and bounds the KS distance to the stated gamma law by 0.12.")


@st.composite
def specs(draw, **kw):
    a = dict(lean=True, max_sub=25, max_nt=4, consistent=draw(st.booleans()), rad=True, relvar=True,
             conv=draw(st.booleans()))
    a.update(kw)
    s = draw(synth.model_specs(**a))
    s.update(rad_logic=draw(st.booleans()), thresh=synth.threshold(draw, s),
             mode=draw(st.sampled_from(["serial", "parallel", "chunk1", "chunk2", "chunk3"])),
             qc=draw(st.booleans()), inv=draw(st.sampled_from([None, 0.5, 1., 3.])))
    return s


def distribute(s, m, h, is_conv, qc):
    from emc2.simulator import subcolumn as sc
    kw = {} if s["thresh"] is None else {"q_trunc_thresh": s["thresh"]}
    with timeout(60, "distributing q and N of %s" % h):
        inv = s["inv"] if s["inv"] is None or np.ndim(s["inv"]) else {0: float, 1: np.float32, 2: np.float64, 3: lambda v: np.array(v)}[s["np_seed"] % 4](s["inv"])
        return sut(sc.set_q_n, m, h, is_conv=is_conv, qc_flag=qc, inv_rel_var=inv,
                   use_rad_logic=s["rad_logic"], **dict(kw, **mode_kw(s["mode"])))


def prepare(s):
    m = synth.build(s)
    synth.seed_np(s)
    return sut(synth.subcolumns, m, s, s["rad_logic"], qn=False)


def fracs(s, h, is_conv):
    d = s["f"][h]
    k = "cfrac" if is_conv else "sfrac"
    fr = np.array(d.get(k + "_rad", d[k]) if s["rad_logic"] else d[k])
    q = np.array(d["cq" if is_conv else "sq"])
    return fr, q, np.array(d["N"])


@CHECK.sub(specs(), quick=400, thorough=8000, shards=8)
def conservation(s, ctx):
    m = prepare(s)
    thr = s["thresh"] or 1e-18
    before = m.ds.copy(deep=True)
    partial = False
    for h in s["hyd"]:
        for is_conv in ([True, False] if s["conv"] else [False]):
            qc = s["qc"] and h == "cl"
            m = distribute(s, m, h, is_conv, qc)
            pre = "conv" if is_conv else "strat"
            flag = get(m, "%s_frac_subcolumns_%s" % (pre, h))
            partial |= bool(np.any((flag.sum(axis=0) > 0) & (flag.sum(axis=0) < s["nsub"])))
            q = m.ds["%s_q_subcolumns_%s" % (pre, h)].transpose("subcolumn", "time", "height").values
            fr, qg, Ng = fracs(s, h, is_conv)
            require(np.all(np.isfinite(q)), "%s %s: mixing ratio not finite", pre, h)
            require(np.all(q >= 0), "%s %s: negative mixing ratio", pre, h)
            require(np.all(q[~flag] == 0), "%s %s: mixing ratio outside the class's subcolumns", pre, h)
            live = (qg > thr) & (flag.any(axis=0))
            inc = np.where(live, qg / np.where(fr > 0, fr, 1.), 0.)
            cnt = flag.sum(axis=0)
            close(q.sum(axis=0), inc * cnt, "%s %s: sum of q over subcolumns vs in-cloud mean x count" % (pre, h),
                  rtol=1e-9, atol=1e-300)
            if not (qc and not is_conv and not s["rad_logic"]):
                close(q, np.where(flag, inc, 0.), "%s %s: in-cloud mixing ratio" % (pre, h), rtol=1e-12)
            else:
                ctx.count("gamma")
                ctx.count("gamma_zero_q", bool(np.any((cnt > 1) & (inc == 0))))
            if not is_conv:
                N = m.ds["strat_n_subcolumns_" + h].transpose("subcolumn", "time", "height").values
                close(N, np.where(flag, Ng / np.where(fr > 0, fr, 1.), 0.), "strat %s: in-cloud number" % h, rtol=1e-12)
    for v in before.variables:
        require(np.array_equal(before[v].values, m.ds[v].values, equal_nan=True), "field %s was modified", v)
    ctx.nontriv(partial)
    ctx.count(s["mode"])


@CHECK.sub(specs(min_sub=1, max_sub=1, consistent=True, rad=False), quick=60, thorough=600, shards=2)
def single_subcolumn(s, ctx):
    m = prepare(s)
    thr = s["thresh"] or 1e-18
    for h in s["hyd"]:
        for is_conv in ([True, False] if s["conv"] else [False]):
            m = distribute(s, m, h, is_conv, False)
            pre = "conv" if is_conv else "strat"
            fr, qg, Ng = fracs(s, h, is_conv)
            q = m.ds["%s_q_subcolumns_%s" % (pre, h)].transpose("subcolumn", "time", "height").values[0]
            close(q, np.where(qg > thr, qg / np.where(fr > 0, fr, 1), 0), "%s %s: in-cloud q" % (pre, h), rtol=1e-12)
            if not is_conv:
                flag = qg > thr
                N = m.ds["strat_n_subcolumns_" + h].transpose("subcolumn", "time", "height").values[0]
                close(N, np.where(flag, Ng / np.where(fr > 0, fr, 1), 0), "strat %s: in-cloud N" % h, rtol=1e-12)
            ctx.nontriv(bool((qg > 0).any() and (qg == 0).any()))


@st.composite
def gam(draw):
    cells = [[draw(st.sampled_from([0.25, 1., 4.])) for _ in range(3)] for _ in range(5)]
    return {"a": draw(st.sampled_from([0.25, 1., 4.])), "use_field": draw(st.booleans()), "cells": cells,
            "nsub": draw(st.integers(250, 400)), "np_seed": draw(st.integers(0, 2 ** 31 - 1)),
            "fr": draw(st.sampled_from([0.5, 0.8, 1.])), "q": draw(synth.logfloat(1e-7, 1e-3)),
            "mode": draw(st.sampled_from(["serial", "parallel", "chunk2"])), "other": draw(st.sampled_from([0.1, 10.]))}


@CHECK.sub(gam(), quick=16, thorough=200, shards=4)
def gamma_law(s, ctx):
    """In-cloud water follows the gamma law with the given inverse relative variance."""
    from scipy.stats import gamma, kstest
    nt, nz = 5, 3
    full = [[s["fr"], s["fr"], 0.]] * nt
    off = [[0.] * nz] * nt
    f = {h: {"sfrac": full if h == "cl" else off, "cfrac": off, "sq": [[s["q"]] * nz] * nt if h == "cl" else off,
             "cq": off, "N": [[50.] * nz] * nt, "re": off, "cre": off} for h in synth.HYD4}
    # a relative-variance field in the dataset wins over the argument; it may differ from cell to cell
    a = np.array(s["cells"] if s["use_field"] else [[s["a"]] * nz] * nt)
    spec = {"nz": nz, "nt": nt, "z": [[100., 600., 1100.]] * nt, "p": [[950., 900., 850.]] * nt,
            "T": [[270.] * nz] * nt, "qv": off, "nsub": s["nsub"], "hyd": synth.HYD4, "family": "ModelE",
            "mcphys": "MG2", "np_seed": s["np_seed"], "conv": False, "f": f, "rad_logic": False, "thresh": None,
            "mode": s["mode"], "inv": s["other"] if s["use_field"] else s["a"],
            "relvar": (1. / a).tolist() if s["use_field"] else None}
    m = distribute(spec, prepare(spec), "cl", False, True)
    flag = get(m, "strat_frac_subcolumns_cl")
    q = m.ds["strat_q_subcolumns_cl"].transpose("subcolumn", "time", "height").values
    a = np.broadcast_to(a, flag.shape)[flag]
    v = q[flag] / (s["q"] / s["fr"])
    require(v.size >= 1000, "too few cloudy subcolumns")
    d = kstest(gamma.cdf(v, a, scale=1. / a), "uniform").statistic
    require(d < 0.12, "in-cloud water is not gamma distributed with the inverse relative variance of its cell "
            "(%s; KS distance %.3f)", s["cells"] if s["use_field"] else s["a"], d)
    perm = [np.corrcoef(np.arange(flag[:, t, 0].sum()), q[flag[:, t, 0], t, 0])[0, 1] for t in range(nt)]
    require(abs(np.mean(perm)) < 6 / np.sqrt(nt * s["nsub"] * s["fr"]),
            "sub-grid cloud water depends on the subcolumn index (mean correlation %.3f)", np.mean(perm))
    ctx.nontriv()


@st.composite
def few(draw):
    n, nt, nz = draw(st.integers(4, 9)), draw(st.integers(250, 400)), 3
    c = draw(st.integers(3, n))
    full, off = [[c / n] * nz] * nt, [[0.] * nz] * nt
    f = {h: {"sfrac": full if h == "cl" else off, "cfrac": off, "sq": [[1e-4] * nz] * nt if h == "cl" else off,
             "cq": off, "N": off, "re": off, "cre": off} for h in synth.HYD4}
    return {"nz": nz, "nt": nt, "z": [[100., 600., 1100.]] * nt, "p": [[950., 900., 850.]] * nt,
            "T": [[270.] * nz] * nt, "qv": off, "nsub": n, "hyd": synth.HYD4, "family": "ModelE", "mcphys": "MG2",
            "np_seed": draw(st.integers(0, 2 ** 31 - 1)), "conv": False, "f": f, "rad_logic": False, "thresh": None,
            "mode": draw(st.sampled_from(["serial", "parallel", "chunk99"])), "inv": draw(st.sampled_from([0.25, 1., 4.])),
            "full": c == n}


@CHECK.sub(few(), quick=16, thorough=200, shards=2)
def no_subcolumn_is_preferred(s, ctx):
    """Cloud water is exchangeable between subcolumns and independent between columns, levels and calls."""
    from scipy.stats import rankdata

    def once(seed):
        sp = dict(s, np_seed=seed)
        m = distribute(sp, prepare(sp), "cl", False, True)
        flag = get(m, "strat_frac_subcolumns_cl")
        q = m.ds["strat_q_subcolumns_cl"].transpose("subcolumn", "time", "height").values
        out = np.zeros(q.shape)     # rank among the cloudy subcolumns of its cell, scaled to zero mean and unit variance
        for t in range(s["nt"]):
            for k in range(s["nz"] - 1):
                r = rankdata(q[flag[:, t, k], t, k])
                out[flag[:, t, k], t, k] = (r - r.mean()) / np.sqrt((r.size ** 2 - 1) / 12.)
        return out
    r, r2 = once(s["np_seed"]), once(s["np_seed"] + 1)
    for k in range(s["nz"] - 1):
        z = r[:, :, k].sum(axis=1) / np.sqrt((r[:, :, k] != 0).sum(axis=1).clip(min=1))
        require(np.abs(z).max() < 6.5, "cloud water of level %d depends on the subcolumn (subcolumn %d: %.1f sigma)",
                k, int(np.abs(z).argmax()), np.abs(z).max())
    if s["full"]:
        for what, x, y in (("neighbouring columns", r[:, 1:, 0], r[:, :-1, 0]), ("two levels", r[:, :, 0], r[:, :, 1]),
                           ("two calls", r[:, :, 0], r2[:, :, 0])):
            c = np.sum(x * y, axis=0)           # zero mean, variance n^2/(n-1) at most
            z = c.sum() / np.sqrt(c.size * s["nsub"] ** 2 / (s["nsub"] - 1.))
            require(abs(z) < 6.5, "cloud water is repeated between %s (%.1f sigma)", what, z)
    ctx.nontriv()
