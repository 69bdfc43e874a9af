"""C13: lidar microphysics-logic backscatter and extinction are integrals over the size distribution."""
import numpy as np
from hypothesis import strategies as st

from vlib.core import Check, require, sut, close
from vlib import synth, micro, lidar
from checks import c09
from checks.c12 import marks

CHECK = Check("C13", "A case is a generated column set with explicit subcolumn contents, scheme (MG2, NSSL, Morrison), fixed or variable "
              "density, family, ice tables, class order/subset, direction, multiple-scattering factor, serial/parallel/chunked. "
              "Non-trivial: at least two classes overlap in a subcolumn and some cell of some class is empty.")


@st.composite
def specs(draw, **k):
    s = draw(c09.specs(**k))
    s["inst"] = draw(st.sampled_from(synth.LIDAR_POOL))
    s["eta"] = draw(st.sampled_from([None, 1., 0.7]))
    return s


def run(s, i, m, **k):
    from emc2.simulator.lidar_moments import calc_lidar_moments
    kw = {} if s["eta"] is None else {"eta": s["eta"]}
    return sut(calc_lidar_moments, i, m, False, OD_from_sfc=s["sfc"], hyd_types=s["order"], mie_for_ice=s["mie"],
               use_rad_logic=False, parallel=s["par"][0], chunk=s["par"][1], calc_dispersion=s["disp"], **kw, **k)


@CHECK.sub(specs(), quick=420, thorough=10000, shards=7)
def scattering(s, ctx):
    i = synth.instrument(s["inst"])
    m = c09.build(s)
    hyds = s["order"] or s["hyd"]
    before = m.ds.copy(deep=True)
    m = run(s, i, m)
    al, be = {}, {}
    for h in hyds:
        D, bn, an, _ = c09.class_integrals(s, m, i, h)
        al[h], be[h] = micro.integrate(an, D), micro.integrate(bn, D)
    parts = [lidar.check_class_totals(m, s, "strat", hyds, i, al, be, s["eta"] or 1.)]
    lidar.check_grand_total(m, s, i, parts, s["eta"] or 1.)
    lidar.unchanged(before, m)
    marks(s, ctx, hyds)
    for k in ("mcphys", "family"):
        ctx.count("%s_%s" % (k, s[k]))
    ctx.count("parallel", s["par"][0])


@CHECK.sub(specs(max_sub=3, max_nz=3), quick=80, thorough=1500, shards=1)
def repeat(s, ctx):
    """A second identical call changes nothing; another lidar afterwards gives what it gives alone."""
    i = synth.instrument(s["inst"])
    hyds = s["order"] or s["hyd"]
    m = run(s, i, c09.build(s))
    first = m.ds.copy(deep=True)
    m = run(s, i, m)
    names = [v for v in first.variables if str(v).startswith("sub_col_")]
    for v in names:
        close(m.ds[v].values, first[v].values, "%s after a second call" % v, rtol=1e-9, atol=1e-300)
    j = synth.instrument("RL" if s["inst"] != "RL" else "HSRL")
    run(s, j, m)
    alone = run(s, j, c09.build(s))
    for v in names:
        close(m.ds[v].values, alone.ds[v].values, "%s of a second lidar" % v, rtol=1e-9, atol=1e-300)
    ctx.nontriv(len(hyds) > 1)
