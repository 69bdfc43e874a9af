"""C31: requests that cannot be fulfilled are refused and change nothing."""
from hypothesis import strategies as st

from vlib.core import Check, require, sut
from vlib import synth

CHECK = Check("C31", "A case is a generated model and a request it cannot fulfil: a stage before the one it builds on, for an instrument of another kind, with another "
              "number of subcolumns, under an unknown radiation scheme, or a time range that is no pair of dates. Non-trivial: the same request is accepted once "
              "its condition is met.")
RADARS, LIDARS = ["KAZR-nsa", "WACR-sgp", "XSACR", "CSAPR", "NEXRAD", "MWACR-awr"], ["HSRL", "RL", "CEIL", "Ten64nm", "CALIOP", "MPL"]


def refused(m, what, f, *a, errors=(ValueError, KeyError, RuntimeError), extra=False, **k):
    """The call raises an error meant for its caller and leaves the model's fields alone."""
    before, n, names = m.ds.copy(deep=True), m.num_subcolumns, list(m.hyd_types)
    try:
        f(*a, **k)
    except errors as e:
        if isinstance(e, RuntimeError) and "attempt has been made" in str(e):
            raise
    else:
        require(False, "%s was accepted", what)
    if extra:                    # helper fields of the clear air may have been stored, signals may not
        new = [v for v in m.ds.variables if v not in before.variables]
        require(not [v for v in new if v.startswith("sub_col")], "refused (%s), but signals were stored: %s", what, new)
        m.ds = m.ds.drop_vars(new)
    require(m.ds.identical(before), "%s was refused but changed the model", what)
    require(m.num_subcolumns == n and list(m.hyd_types) == names, "%s was refused but changed the model's settings", what)


@st.composite
def states(draw):
    s = draw(synth.model_specs(lean=True, max_sub=8, max_nz=4, max_nt=2, min_nz=3, conv=draw(st.booleans())))
    s["rad"], s["is_conv"] = draw(st.booleans()), draw(st.booleans()) and s["conv"]
    s["h"] = draw(st.sampled_from(synth.HYD4))
    s["only"] = draw(st.sampled_from([None, "cl", "ci"]))
    s["other"] = draw(st.integers(1, 12).filter(lambda n: n != s["nsub"]))
    s["types"] = draw(st.sampled_from([["pl"], ["pi"], ["pl", "pi"], ["pi", "pl"]]))
    return s


@CHECK.sub(states(), quick=120, thorough=2000, shards=2)
def stages_in_order(s, ctx):
    from emc2.simulator import subcolumn as S
    kw = {"use_rad_logic": s["rad"]}
    pk = dict(kw, parallel=False)
    n, h, c = s["nsub"], s["h"], s["is_conv"]
    m = synth.build(s)
    refused(m, "condensate of %s before the number of subcolumns is known" % h, S.set_q_n, m, h, is_conv=c, **pk)
    refused(m, "precipitation before the number of subcolumns is known", S.set_precip_sub_col_frac, m, is_conv=c, precip_types=s["types"], **pk)
    refused(m, "convection before the number of subcolumns is known", S.set_convective_sub_col_frac, m, h, **kw)
    if s["conv"]:
        if s["only"]:
            S.set_convective_sub_col_frac(m, s["only"], N_columns=n, **kw)
        refused(m, "stratiform cloud before convection", S.set_stratiform_sub_col_frac, m, N_columns=n, **pk)
    m = synth.build(s)
    m.num_subcolumns = n
    refused(m, "precipitation before cloud", S.set_precip_sub_col_frac, m, is_conv=c, precip_types=s["types"], **pk) if n > 1 else None
    refused(m, "condensate of %s before its cloud" % h, S.set_q_n, m, h, is_conv=c, **pk)
    if n > 1 and not c:
        half = synth.build(s)
        if s["conv"]:
            S.set_convective_sub_col_frac(half, "cl", N_columns=n, **kw)
            S.set_convective_sub_col_frac(half, "ci", **kw)
        S.set_stratiform_sub_col_frac(half, N_columns=n, **pk)
        refused(half, "another number of subcolumns for precipitation on cloud", S.set_precip_sub_col_frac, half, is_conv=c, N_columns=s["other"],
                precip_types=s["types"], **pk)
        half.ds = half.ds.drop_vars("strat_frac_subcolumns_%s" % (s["only"] or "cl"))
        refused(half, "precipitation with one cloud phase missing", S.set_precip_sub_col_frac, half, is_conv=c, precip_types=s["types"], **pk)
    refused(m, "another number of subcolumns for convection", S.set_convective_sub_col_frac, m, h, N_columns=s["other"], **kw)
    refused(m, "another number of subcolumns for precipitation", S.set_precip_sub_col_frac, m, is_conv=c, N_columns=s["other"], precip_types=s["types"], **pk)
    synth.seed_np(s)
    sut(synth.subcolumns, synth.build(s), s, s["rad"])
    ctx.nontriv()


@st.composite
def signals(draw):
    s = draw(synth.moment_specs(max_sub=3, max_nz=4))
    s["right"], s["wrong"] = draw(st.permutations([draw(st.sampled_from(RADARS)), draw(st.sampled_from(LIDARS))]))
    s["logic"] = draw(st.sampled_from([{}, {"use_rad_logic": True}, {"use_rad_logic": False}, {"use_empiric_calc": True}]))
    s["mie"] = draw(st.sampled_from([None, True, False]))
    s["class"] = draw(st.sampled_from(["sonar", "", "radiometer", "rada"]))
    s["fam"] = draw(st.sampled_from(["RRTMG", "", "E3", "modele"]))
    return s


@CHECK.sub(signals(), quick=160, thorough=2500, shards=4)
def signals_need_their_instrument(s, ctx):
    from emc2.simulator.radar_moments import calc_radar_moments
    from emc2.simulator.lidar_moments import calc_lidar_moments
    from emc2.simulator.main import make_simulated_data
    right, wrong = synth.instrument(s["right"]), synth.instrument(s["wrong"])
    f = calc_radar_moments if s["right"] in RADARS else calc_lidar_moments
    kw = dict(s["logic"], parallel=False, **({} if s["mie"] is None else {"mie_for_ice": s["mie"]}))
    emp = "use_empiric_calc" in s["logic"]
    cls = sorted(s["sc"])
    c = cls[0]
    m = synth.moment_model(s)
    refused(m, "%s for a %s" % (f.__name__, s["wrong"]), f, wrong, m, c == "conv", **kw)
    strange = synth.instrument(s["right"])
    strange.instrument_class = s["class"]
    refused(m, "%s for a '%s'" % (f.__name__, s["class"]), f, strange, m, c == "conv", **kw)
    m = synth.moment_model(s)
    m.ds = m.ds.drop_vars([v for v in m.ds.variables if "_q_subcolumns_" in v])
    refused(m, "%s without subcolumns" % f.__name__, f, right, m, c == "conv", **kw)
    m = synth.moment_model(s)
    if not emp and (s["logic"].get("use_rad_logic", True) or c == "conv"):
        m.rad_scheme_family = s["fam"]
        refused(m, "radiation scheme family '%s'" % s["fam"], f, right, m, c == "conv", extra=True, **kw)
    from emc2.simulator import classification as C
    from emc2.simulator.attenuation import calc_radar_atm_attenuation
    m = synth.moment_model(s)
    lidar, radar = (right, wrong) if s["right"] in LIDARS else (wrong, right)
    refused(m, "lidar phases for a radar", C.lidar_classify_phase, radar, m)
    refused(m, "radar classes for a lidar", C.radar_classify_phase, lidar, m)
    refused(m, "classes for a '%s'" % s["class"], C.radar_classify_phase if s["right"] in RADARS else C.lidar_classify_phase, strange, m)
    if lidar.instrument_str != "HSRL":
        refused(m, "COSP phases for %s" % s["wrong"], C.lidar_emulate_cosp_phase, lidar, m)
    refused(m, "COSP phases for a radar", C.lidar_emulate_cosp_phase, radar, m)
    refused(m, "attenuation without an instrument", calc_radar_atm_attenuation, s["class"], m)
    refused(m, "unstacking a model that was never stacked", m.unstack_time_lat_lon, errors=(TypeError, ValueError, RuntimeError))
    m = synth.moment_model(s)
    m.hyd_types = []
    refused(m, "a model without classes", m.set_hyd_types, None)
    m = synth.moment_model(s)
    refused(m, "another number of subcolumns than the model has", make_simulated_data, m, right, m.num_subcolumns + 1, parallel=False,
            errors=(ValueError, KeyError, RuntimeError)) if m.num_subcolumns and m.process_conv else None
    ctx.nontriv()
    ctx.count(f.__name__)


@CHECK.sub(st.fixed_dictionaries({"name": st.sampled_from(["KAZR", "WACR"]), "site": st.text(st.characters(codec="ascii", categories=["L", "N"]), max_size=6)}),
           quick=12, thorough=100)
def instruments_of_known_sites(s, ctx):
    """An instrument is built for its known sites, in any case of letters, and for no other; a generic one needs its wavelength or frequency."""
    from emc2.core import instruments, Instrument
    make = getattr(instruments, s["name"])
    for site in SITES[s["name"]]:
        for w in (site, site.upper(), site.title()):
            sut(make, w)
    if s["site"].lower() not in SITES[s["name"]]:
        try:
            make(s["site"])
        except ValueError:
            pass
        else:
            require(False, "%s was built for a site '%s'", s["name"], s["site"])
        ctx.nontriv()
    try:
        Instrument()
    except ValueError:
        pass
    else:
        require(False, "an instrument without wavelength and frequency was built")


SITES = {"KAZR": ["sgp", "nsa", "awr", "ena", "mos"], "WACR": ["sgp", "awr", "mos", "micre"]}
NOT_DATES = [("2010-01-01", "2010-01-02"), (0, 10), (0., 1e9), ("a", "b"), ([2010, 1], [2010, 2])]


@CHECK.sub(st.fixed_dictionaries({"kind": st.sampled_from(["ModelE", "E3SM", "DHARMA"]), "seed": st.integers(0, 10 ** 6), "k": st.integers(0, len(NOT_DATES) - 1)}),
           quick=30, thorough=300, shards=2)
def time_ranges_are_dates(s, ctx):
    from checks import c30
    spec = dict(SPEC[s["kind"]], seed=s["seed"])
    d = c30.document(spec)
    m = c30.load(spec, d)
    require(m.ds is not None, "the file was not read")
    spec["range"] = NOT_DATES[s["k"]]
    try:
        c30.load(spec, d)
    except (RuntimeError, ValueError, TypeError):
        pass
    except AssertionError as e:          # the harness reports any error of the loader
        require("RuntimeError" in str(e), "time range %s: %s", spec["range"], e)
    else:
        require(False, "%s: the time range %s was accepted", s["kind"], spec["range"])
    ctx.nontriv()
    ctx.count(s["kind"])


BASE = {"nt": 2, "nz": 3, "cells": [1, 1], "f32": False, "clear": 0.3, "nsub": 2, "radar": True, "np_seed": 0, "logic": "mic", "mie": None, "warm": False,
        "par": False, "range": None, "inst": "KAZR-nsa"}
SPEC = {"ModelE": dict(BASE, kind="ModelE", lev="p"), "DHARMA": dict(BASE, kind="DHARMA", two=False, named="time"),
        "E3SM": dict(BASE, kind="E3SM", loader="E3SMv1", rain=False, single=False, cal="standard", p3=False)}
