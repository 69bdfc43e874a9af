"""C01: convective subcolumn fractions."""
import numpy as np
from hypothesis import strategies as st

from vlib.core import Check, require, sut
from vlib import synth

CHECK = Check("C01", "A case is one generated model (1-3 times, 2-6 levels, 1-40 subcolumns, every class "
              "with its own convective fraction and mixing ratio, different fractions for radiation and "
              "microphysics). Non-trivial: some class needs a partial fill (0 < count < number of subcolumns).")


def expected_ok(cnt, frac, n):
    return abs(cnt - frac * n) <= 0.5 + 1e-9


@st.composite
def specs(draw):
    s = draw(synth.model_specs(lean=True, max_nz=8, max_sub=40, consistent=False, rad=True))
    s["rad_logic"] = draw(st.booleans())
    s["thresh"] = synth.threshold(draw, s, "cq")
    s["order"] = draw(st.permutations(synth.HYD4))
    s["later_none"] = draw(st.booleans())
    return s


@CHECK.sub(specs(), quick=600, thorough=10000, shards=6)
def counts_and_overlap(s, ctx):
    from emc2.simulator.subcolumn import set_convective_sub_col_frac
    m = synth.build(s)
    n = s["nsub"]
    kw = {} if s["thresh"] is None else {"q_trunc_thresh": s["thresh"]}
    thr = s["thresh"] or 1e-18
    before = m.ds.copy(deep=True)
    for i, h in enumerate(s["order"]):
        nc = None if (i and s["later_none"]) else n
        m = sut(set_convective_sub_col_frac, m, h, N_columns=nc, use_rad_logic=s["rad_logic"], **kw)
    require(m.num_subcolumns == n, "number of subcolumns is %s, asked for %s", m.num_subcolumns, n)
    prof = {}
    partial = False
    for h in s["order"]:
        d = s["f"][h]
        frac = np.array(d.get("cfrac_rad", d["cfrac"]) if s["rad_logic"] else d["cfrac"])
        if s["rad_logic"]:
            frac = np.where(np.array(d["cq"]) > thr, frac, 0.)
        v = m.ds["conv_frac_subcolumns_" + h]
        require(set(v.dims) == {"subcolumn", "time", "height"}, "dims %s", v.dims)
        a = v.transpose("subcolumn", "time", "height").values
        require(np.all((a == 0) | (a == 1)), "flags are not 0/1")
        prof[h] = a.astype(bool)
        cnt = prof[h].sum(axis=0)
        for t in range(s["nt"]):
            for k in range(s["nz"]):
                require(expected_ok(cnt[t, k], frac[t, k], n),
                        "%s time %d level %d: %d of %d subcolumns are convective, fraction is %g",
                        h, t, k, int(cnt[t, k]), n, frac[t, k])
        partial |= bool(np.any((cnt > 0) & (cnt < n)))
    # maximum overlap: any two (class, level) convective sets of one column are nested
    for t in range(s["nt"]):
        sets = [frozenset(np.where(prof[h][:, t, k])[0]) for h in s["order"] for k in range(s["nz"])]
        sets.sort(key=len)
        for x, y in zip(sets, sets[1:]):
            require(x <= y, "time %d: convective subcolumns %s and %s do not overlap maximally",
                    t, sorted(map(int, x)), sorted(map(int, y)))
    for v in before.variables:
        require(np.array_equal(before[v].values, m.ds[v].values, equal_nan=True),
                "input field %s was modified", v)
    ctx.nontriv(partial)
    ctx.count("rad_logic", s["rad_logic"])
    ctx.count("one_time", s["nt"] == 1)


@st.composite
def one_col(draw):
    s = draw(synth.model_specs(lean=True, min_sub=1, max_sub=1, consistent=False))
    s["rad_logic"] = draw(st.booleans())
    s["thresh"] = synth.threshold(draw, s, "cq")
    s["preset"] = draw(st.booleans())
    return s


@CHECK.sub(one_col(), quick=40, thorough=500)
def single_subcolumn(s, ctx):
    """With one subcolumn the generator is off: flagged exactly where q exceeds the threshold."""
    from emc2.simulator.subcolumn import set_convective_sub_col_frac
    m = synth.build(s)
    kw = {} if s["thresh"] is None else {"q_trunc_thresh": s["thresh"]}
    if s["preset"]:
        m.num_subcolumns = 1
    for h in synth.HYD4:
        m = sut(set_convective_sub_col_frac, m, h, N_columns=None if s["preset"] else 1, use_rad_logic=s["rad_logic"], **kw)
        a = m.ds["conv_frac_subcolumns_" + h].transpose("subcolumn", "time", "height").values
        exp = np.array(s["f"][h]["cq"]) > (s["thresh"] or 1e-18)
        require(a.shape == (1,) + exp.shape, "shape %s", a.shape)
        require(np.array_equal(a[0].astype(bool), exp), "%s: single-subcolumn flag differs from q > threshold", h)
        ctx.nontriv(bool(exp.any() and not exp.all()))


@CHECK.sub(synth.model_specs(lean=True, max_sub=10).flatmap(lambda s: st.integers(1, 2 * s["nsub"]).map(
    lambda n: dict(s, other=n + (n >= s["nsub"])))), quick=30, thorough=200)
def resize_rejected(s, ctx):
    """Asking for another number of subcolumns than already set is refused and changes nothing."""
    from emc2.simulator.subcolumn import set_convective_sub_col_frac
    m = synth.build(s)
    m = sut(set_convective_sub_col_frac, m, "cl", N_columns=s["nsub"])
    before = m.ds.copy(deep=True)
    try:
        set_convective_sub_col_frac(m, "ci", N_columns=s["other"])
    except ValueError:
        pass
    else:
        require(False, "a different number of subcolumns was silently accepted")
    require(set(before.variables) == set(m.ds.variables) and m.num_subcolumns == s["nsub"],
            "refused call changed the model")
    ctx.nontriv()
