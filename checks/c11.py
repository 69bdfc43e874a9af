"""C11: predicted-particle-property (P3) ice in both radar and lidar, bulk and microphysics logic."""
import numpy as np
from hypothesis import strategies as st
from scipy.special import gamma

from vlib.core import Check, require, sut, close
from vlib import synth, bulk, micro, lidar
from checks import c07, c09, c18

CHECK = Check("C11", "A case is a generated column set with explicit subcolumn contents for a P3 model (rime fraction, rime density and "
              "normalized ice content inside the P3 table, NaN in ice-free cells; droplet mu/lambda on table nodes), a stock radar or "
              "lidar, scattering mode (full, pure radiation, equal-volume), solid-sphere option, class subset, direction. "
              "Non-trivial: some but not all subcolumns of some cell hold ice.")


@st.composite
def specs(draw, insts=("KAZR-nsa", "WACR-sgp", "NEXRAD", "HSRL", "CEIL", "RL", "XSACR", "CSAPR", "Ten64nm", "CALIOP"), **k):
    s = draw(synth.moment_specs(hyd=draw(st.sampled_from([["cl", "ci"], ["cl", "ci", "pl"]])), family=("P3",), mcphys=("P3",),
                                conv=False, **k))
    nt, nz = s["nt"], s["nz"]
    unit = st.integers(0, 1000).map(lambda v: v / 1000.)
    s["Fr"] = draw(synth.grid(nt, nz, st.one_of(unit, st.sampled_from([0., 1., 0.33]))))
    s["rr"] = draw(synth.grid(nt, nz, st.integers(50, 900).map(float)))
    s["qn"] = draw(synth.grid(nt, nz, unit))          # position on the log of the table's q_norm axis
    s["Ni"] = draw(synth.grid(nt, nz, synth.logfloat(1., 1e6)))
    s["hybrid"] = draw(st.sampled_from([0, 1, 2, False, True]))
    s["mie"] = draw(st.booleans())
    s["fluffy"] = draw(st.sampled_from([None, 1.]))
    s["ref"] = {"cl": None, "ci": draw(st.sampled_from([None, 0.8254])), "pl": 1.1}
    s["order"] = draw(st.sampled_from([None, None, ["ci", "cl"], ["ci"]]))
    s["inst"] = draw(st.sampled_from(list(insts)))
    s["disp"] = s["vardens"] = False
    s["eta"] = None
    s["par"] = draw(st.sampled_from([[False, None], [True, 1]]))
    return synth.blown(draw, s)


def tri(t, v, *xyz):
    """Trilinear interpolation of table variable v on (Fr, rho_r, last axis)."""
    axes = [t["Fr"].values, t["rho_r"].values, t["q_norm" if t[v].dims[-1] == "q_norm" else "p_diam"].values]
    f = t[v].values
    out = 0.
    idx, w = [], []
    for a, x in zip(axes, xyz):
        j = np.clip(np.searchsorted(a, x, side="right") - 1, 0, len(a) - 2)
        idx.append(j)
        w.append((x - a[j]) / (a[j + 1] - a[j]))
    for c in np.ndindex(2, 2, 2):
        ww = np.ones(np.shape(idx[0]))
        for k in range(3):
            ww = ww * (w[k] if c[k] else 1 - w[k])
        out = out + np.where(ww != 0, ww * f[idx[0] + c[0], idx[1] + c[1], idx[2] + c[2]], 0.)
    return out


def build(s, i):
    from scipy.interpolate import RegularGridInterpolator as RGI
    from emc2.core.instrument import ureg
    m = synth.moment_model(s)
    t = i.scat_table["p3_ice"]
    q = t["q_norm"].values
    qn = q[0] * (q[-1] / q[0]) ** np.array(s["qn"])
    qn = np.clip(qn, q[0], q[-1])
    ice = synth.mask(s, "strat", "ci").max(axis=0) > 0
    bulk.set_mu_lambda(s, m, i)
    m.mu_field["ci"], m.lambda_field["ci"] = "mu_ice", "lambda_ice"
    m.fluffy = None if s["fluffy"] is None else {"ci": s["fluffy"] * ureg.dimensionless}
    Fr, rr, Ni = (np.array(s[k]) for k in ("Fr", "rr", "Ni"))
    s["_"] = (Fr, rr, qn, Ni)
    lam = tri(t, "lambda", Fr, rr, qn)
    mu = np.clip(0.076 * (lam / 100) ** 0.8 - 2, 0, 6)
    for name, val, u in (("Fr", Fr, "1"), ("rho_r", rr, "kg/m^3"), ("qi_norm", qn, "m^3"), ("in_cld_Ni", Ni, "m-3"),
                         ("lambda_ice", lam, "m-1"), ("mu_ice", mu, "1"), ("N0_norm_ice", lam ** (mu + 1) / gamma(mu + 1), "1")):
        m.ds[name] = synth.to_arr(np.where(ice, val, np.nan), u)
    m.p3_kws = {"in_cld_Ni_name": "in_cld_Ni", "N0_ice_name": "N0_norm_ice", "use_hybrid_scat": s["hybrid"],
                "q_rim_name": "CLDRIM", "rim_vol_name": "BVRIM"}
    ax = (t["Fr"].values, t["rho_r"].values)
    m.interpobj = {"bulk": {k: RGI(ax + (q,), t[k].values, bounds_error=False) for k in
                            ("A_tot_norm", "A_tot_eq_V_norm", "A_tot_Mie_norm", "ri_eff", "rho_m_weight", "vt_m_weight")},
                   "single": {k: RGI(ax + (t["p_diam"].values,), t[k].values, bounds_error=False) for k in ("vt", "A", "V")}}
    m.Vd_rhoa_scaling_ref = dict(s["ref"])
    m.vel_param_a["ci"] = m.vel_param_b["ci"] = None
    return m


def ice_bulk(s, i):
    """(area, Q_back, Q_ext) of ice (subcolumn, time, height)."""
    t = i.scat_table["p3_ice"]
    Fr, rr, qn, Ni = s["_"]
    on = synth.mask(s, "strat", "ci")
    qb, qe = (tri(t, v, Fr, rr, qn) for v in (("Q_back_Mie_bulk", "Q_ext_Mie_bulk") if s["mie"] else ("Q_back_bulk", "Q_ext_bulk")))
    if s["hybrid"] == 1:
        re = tri(t, "ri_eff", Fr, rr, qn) * 1e6
        if s["fluffy"] is not None:
            re = re * tri(t, "rho_m_weight", Fr, rr, qn) / 917.
        p, z = np.array(s["p"]) * 100., np.array(s["z"])
        dp, dz = np.abs(np.diff(p, axis=1)), np.diff(z, axis=1)
        dp, dz = (np.concatenate([x, x[:, -1:]], axis=1) for x in (dp, dz))
        A = 3 * synth.sub_q(s, "strat", "ci") * dp / 9.80665 / (2 * 917. * re * 1e-6) / (2 * dz)
    else:
        v = "A_tot_norm" if s["hybrid"] == 0 else "A_tot_Mie_norm" if s["mie"] else "A_tot_eq_V_norm"
        A = on * tri(t, v, Fr, rr, qn) * Ni
    return A * on, qb, qe


def ice_integrals(s, m, i):
    """(D, backscatter, extinction, velocity) integrands of ice (subcolumn, time, height, D)."""
    t = i.scat_table["p3_ice"]
    Fr, rr, qn, Ni = s["_"]
    lam = tri(t, "lambda", Fr, rr, qn)
    mu = np.clip(0.076 * (lam / 100) ** 0.8 - 2, 0, 6)
    N0 = Ni * lam ** (mu + 1) / gamma(mu + 1)
    if s["mie"]:
        D, be, al = micro.tables(i, "ci", "P3", True)
        be, al = (np.broadcast_to(x, Fr.shape + D.shape) for x in (be, al))
    else:
        D = t["p_diam"].values
        sh = Fr.shape + D.shape
        suffix = "_eq_V" if s["hybrid"] else ""
        be, al = (tri(t, v + suffix, np.broadcast_to(Fr[..., None], sh), np.broadcast_to(rr[..., None], sh), np.broadcast_to(D, sh))
                  for v in ("beta_p", "alpha_p"))
    sh = Fr.shape + D.shape
    v = tri(t, "vt", np.broadcast_to(Fr[..., None], sh), np.broadcast_to(rr[..., None], sh), np.broadcast_to(D, sh))
    lo, hi = t["p_diam"].values[[0, -1]]
    v = np.where((D < lo) | (D > hi), np.nan, v)
    rho_a = np.array(s["p"]) * 100 / (287.058 * np.array(s["T"]))
    if s["ref"]["ci"] is not None:
        v = v * ((s["ref"]["ci"] / rho_a) ** 0.54)[..., None]
    n = micro.nd(D, N0, lam, mu) * synth.mask(s, "strat", "ci")[..., None]
    return D, be * n, al * n, np.broadcast_to(-v, n.shape)


def marks(s, ctx):
    x = synth.mask(s, "strat", "ci")
    ctx.nontriv(bool(((x.max(axis=0) == 1) & (x.min(axis=0) == 0)).any()))
    ctx.count("hybrid_%d" % int(s["hybrid"]))
    ctx.count("mie", s["mie"])
    ctx.count("inst_" + s["inst"])


def is_radar(s):
    return s["inst"] in synth.RADARS


@CHECK.sub(specs(), quick=400, thorough=8000, shards=5)
def p3_bulk(s, ctx):
    from emc2.simulator.radar_moments import calc_radar_moments
    from emc2.simulator.lidar_moments import calc_lidar_moments
    i = synth.instrument(s["inst"])
    m = build(s, i)
    hyds = s["order"] or s["hyd"]
    before = m.ds.copy(deep=True)
    f = calc_radar_moments if is_radar(s) else calc_lidar_moments
    for rep in range(2):      # the second call on the same model uses cached interpolators
        m = sut(f, i, m, False, OD_from_sfc=s["sfc"], hyd_types=s["order"], mie_for_ice=s["mie"], use_rad_logic=True, parallel=False)
        back, ext = {}, {}
        for h in hyds:
            if h == "ci":
                A, qb, qe = ice_bulk(s, i)
            else:
                A = bulk.area(s, m, "strat", h)
                qb, qe = bulk.efficiencies(dict(s, family="CESM"), m, i, "strat", h, s["mie"])
            back[h], ext[h] = A * qb, A * qe
        if is_radar(s):
            k = i.wavelength ** 4 / (i.K_w * np.pi ** 5) * 1e-6
            ht = np.exp(-2 * synth.two_way(np.array(s["z"]), sum(ext[h] for h in hyds), s["sfc"]))
            c07.check_totals(m, s, "strat", hyds, i, s["sfc"], {h: back[h] * k for h in hyds}, ht)
        else:
            lidar.check_class_totals(m, s, "strat", hyds, i, ext, back)
    lidar.unchanged(before, m)
    marks(s, ctx)


@CHECK.sub(specs(max_sub=3, max_nz=4), quick=300, thorough=6000, shards=5)
def p3_micro(s, ctx):
    from emc2.simulator.radar_moments import calc_radar_moments
    from emc2.simulator.lidar_moments import calc_lidar_moments
    i = synth.instrument(s["inst"])
    m = build(s, i)
    hyds = s["order"] or s["hyd"]
    before = m.ds.copy(deep=True)
    f = calc_radar_moments if is_radar(s) else calc_lidar_moments
    m = sut(f, i, m, False, OD_from_sfc=s["sfc"], hyd_types=s["order"], mie_for_ice=s["mie"], use_rad_logic=False,
            parallel=s["par"][0], chunk=s["par"][1], calc_dispersion=False)
    parts = {}
    for h in hyds:
        parts[h] = ice_integrals(s, m, i) if h == "ci" else c09.class_integrals(s, build(s, i), i, h)
    ext = {h: micro.integrate(parts[h][2], parts[h][0]) for h in hyds}
    if is_radar(s):
        den = c09.check_doppler(m, hyds, parts)
        Ze = {h: den[h] * i.wavelength ** 4 / (i.K_w * np.pi ** 5) * 1e-6 for h in hyds}
        ht = np.exp(-2 * synth.two_way(np.array(s["z"]), sum(ext[h] for h in hyds), s["sfc"]))
        c07.check_totals(m, s, "strat", hyds, i, s["sfc"], Ze, ht)
    else:
        lidar.check_class_totals(m, s, "strat", hyds, i, ext, {h: micro.integrate(parts[h][1], parts[h][0]) for h in hyds})
    lidar.unchanged(before, m)
    marks(s, ctx)


@st.composite
def calls(draw):
    s = draw(specs(max_sub=3, max_nz=4))
    s["calls"] = draw(st.lists(c18.calls(), min_size=1, max_size=3))
    if draw(st.booleans()):      # one logic with several instruments of one kind: look-up tables remembered from one serve no other
        kind, logic = draw(st.booleans()), draw(st.sampled_from(["rad", "mic"]))
        s["calls"] = draw(st.lists(c18.calls(kind), min_size=2, max_size=2, unique_by=lambda c: c["inst"]))
        for c in s["calls"]:
            c["logic"] = logic
    for c in s["calls"]:
        c["order"] = draw(st.sampled_from([None, None, ["ci", "cl"], ["ci"], ["cl"]]))
    s["edits"] = draw(st.one_of(st.just([]), st.lists(st.sampled_from(["Fr", "in_cld_Ni", "sub_n", "sub_q", "t"]), min_size=1, max_size=3, unique=True)))
    return s


@CHECK.sub(calls(), quick=100, thorough=2500, shards=4)
def p3_calls(s, ctx):
    """Whole simulations of a P3 model equal their stages, whatever instruments and options were simulated before."""
    first = synth.instrument(s["calls"][0]["inst"])
    m = build(s, first)
    for c in s["calls"][:-1]:
        m = c18.whole(m, c, s["nsub"], skip_subcol_gen=True)
    m = c18.edit(m, s["edits"])                  # the user changes inputs before the last call
    before = c18.edit(build(s, first), s["edits"]).ds
    last = s["calls"][-1]
    m = c18.whole(m, last, s["nsub"], skip_subcol_gen=True)
    e = sut(c18.stages, c18.edit(build(s, first), s["edits"]), last)
    for v in e.ds.variables:
        require(v in m.ds.variables, "%s is missing", v)
        require(m.ds[v].dims == e.ds[v].dims, "%s: dims %s, the stages give %s", v, m.ds[v].dims, e.ds[v].dims)
        close(m.ds[v].values, e.ds[v].values, "%s of the whole call" % v, rtol=1e-9, atol=1e-290)
    lidar.unchanged(before, m)
    marks(s, ctx)
    ctx.count("calls_%d" % len(s["calls"]))
