"""C09: microphysics-logic radar moments (reflectivity, mean Doppler velocity, spectral width, extinction)."""
import numpy as np
from hypothesis import strategies as st

from vlib.core import Check, require, sut, close
from vlib import synth, micro
from checks.c07 import check_totals, check_grand_total, dbz

CHECK = Check("C09", "A case is a generated column set with explicit subcolumn contents, scheme (MG2 power laws or NSSL, fixed or variable "
              "density; P3 in its own subtest), family, ice tables, fall-speed air density references, class order/subset, "
              "direction, serial/parallel/chunked. Non-trivial: at least two classes overlap in a subcolumn and some cell of some "
              "class is empty.")


@st.composite
def specs(draw, max_sub=4, max_nz=4):
    s = draw(synth.moment_specs(hyd=draw(st.sampled_from([synth.HYD4, synth.HYD4 + ["gr", "sn"], synth.HYD4 + ["ha"]])),
                                max_sub=max_sub, max_nz=max_nz, conv=False, mcphys=("MG2", "NSSL", "Morrison"), vary=True))
    s["inst"] = draw(st.sampled_from(synth.RADAR_POOL))
    s["order"] = draw(synth.orders(s["hyd"]))
    s["mie"] = draw(st.booleans())
    s["vardens"] = draw(st.booleans())
    s["ref"] = {h: draw(st.sampled_from([None, 1.0, 1.15, 0.8254])) for h in s["hyd"]}
    s["disp"] = draw(st.booleans())
    s["par"] = draw(st.sampled_from([[False, None], [False, None], [True, None], [True, 1], [True, 2]]))
    return synth.blown(draw, s)


def build(s):
    from emc2.core.instrument import ureg
    m = synth.moment_model(s)
    for h, r, a, b in (("gr", 400., 19.3, 0.37), ("sn", 100., 11.72, 0.41), ("ha", 900., 206.89, 0.6384)):
        if h in s["hyd"]:
            m.Rho_hyd[h] = r * ureg.kg / ureg.m ** 3
            m.vel_param_a[h] = a
            m.vel_param_b[h] = b * ureg.dimensionless
            m.vel_param_a[h] = a * ureg.m ** (1 - b) / ureg.s
    if s["vardens"]:
        for h in ("gr", "ha"):
            if h in s["hyd"]:
                m.Rho_hyd[h] = "variable"
                m.variable_density[h] = "RHO_" + h
                m.ds["RHO_" + h] = synth.to_arr(170 + 150. * np.arange(s["nz"])[None, :] + 20. * np.arange(s["nt"])[:, None],
                                                "kg/m**3")
    m.Vd_rhoa_scaling_ref = {h: r for h, r in s["ref"].items()}
    return m


A = {"cl": 3e7, "ci": 700., "pl": 841.997, "pi": 11.72, "gr": 19.3, "sn": 11.72, "ha": 206.89}
B = {"cl": 2., "ci": 1., "pl": 0.8, "pi": 0.41, "gr": 0.37, "sn": 0.41, "ha": 0.6384}


def velocity(s, m, h, D):
    """Downward (negative) Doppler velocity (time, height, D)."""
    rho_a = np.array(s["p"]) * 100 / (287.058 * np.array(s["T"]))
    if s["mcphys"] == "NSSL":
        rho = np.broadcast_to(micro.rho_of(s, m, h), rho_a.shape)
        v = np.stack([[micro.nssl_speed(D, rho[t, k], h) for k in range(s["nz"])] for t in range(s["nt"])])
    else:
        v = np.broadcast_to(A[h] * D ** B[h], rho_a.shape + D.shape)
    ref = s["ref"][h]
    corr = 1. if ref is None else ((ref / rho_a) ** 0.54)[..., None]
    return -v * corr


def psd(s, m, h, cls="strat"):
    """Distribution parameters; with the dispersion calculation the shape is taken as computed (property C10 decides it)."""
    N, q = synth.sub_n(s, cls, h), micro.water(s, cls, h)
    if h == "cl" and s["disp"]:
        from emc2.simulator.psd import calc_and_set_psd_params
        mu = calc_and_set_psd_params(m, h, calc_dispersion=True)["mu"].transpose("subcolumn", "time", "height").values.copy()
    else:
        mu = micro.shape(N, False) if h == "cl" else np.zeros_like(N)
    lam = micro.slope(q, N, np.broadcast_to(micro.rho_of(s, m, h), N.shape), mu)
    return micro.intercept(N, lam, mu), lam, mu


def class_integrals(s, m, i, h):
    """Backscatter, extinction, velocity weights on (subcolumn, time, height[, D])."""
    D, be, al = micro.tables(i, h, s["family"], s["mie"])
    N0, lam, mu = psd(s, build(s), h)
    n = micro.nd(D, N0, lam, mu)
    on = synth.mask(s, "strat", h)[..., None] * (synth.sub_q(s, "strat", h) > 0)[..., None]
    n = np.where(on > 0, n, 0.)
    return D, be * n, al * n, np.broadcast_to(velocity(s, m, h, D), n.shape)


def check_doppler(m, hyds, parts, width=True):
    """Per-class and total mean Doppler velocity and spectral width from class integrands."""
    den, num, tot = {}, {}, 0.
    for h in hyds:
        D, bn, _, v = parts[h]
        den[h], num[h] = micro.integrate(bn, D), micro.integrate(bn * v, D)
        with np.errstate(all="ignore"):
            vd = num[h] / den[h]
            sd = np.sqrt(micro.integrate(bn * (v - vd[..., None]) ** 2, D) / den[h])
        on = den[h] > 1e-280
        for name, exp, skip in (("Vd", vd, False), ("sigma_d", sd, not width)):
            if skip:
                continue
            got = synth.tkz(m, "sub_col_%s_%s_strat" % (name, h))
            close(got[on], exp[on], "%s of %s" % (name, h), rtol=1e-6, atol=1e-9)
            off = got[den[h] == 0]
            require(np.all(np.isnan(off) | (off == 0)), "%s of %s in empty cells", name, h)
        tot = tot + den[h]
    with np.errstate(all="ignore"):
        vt = sum(num[h] for h in hyds) / tot
        st2 = sum(micro.integrate(parts[h][1] * (parts[h][3] - vt[..., None]) ** 2, parts[h][0]) for h in hyds)
        sdt = np.sqrt(st2 / tot)
    on = tot > 1e-280
    got = synth.tkz(m, "sub_col_Vd_tot_strat")
    close(got[on], vt[on], "total mean Doppler velocity", rtol=1e-6, atol=1e-9)
    require(np.all(np.isnan(got[tot == 0]) | (got[tot == 0] == 0)), "total Doppler velocity in empty cells")
    if width:
        close(synth.tkz(m, "sub_col_sigma_d_tot_strat")[on], sdt[on], "total spectral width", rtol=1e-6, atol=1e-9)
    return den


def run(s, i, m, **k):
    from emc2.simulator.radar_moments import calc_radar_moments
    return sut(calc_radar_moments, i, m, False, OD_from_sfc=s["sfc"], hyd_types=s["order"], mie_for_ice=s["mie"],
               use_rad_logic=False, parallel=s["par"][0], chunk=s["par"][1], calc_dispersion=s["disp"], **k)


@CHECK.sub(specs(), quick=420, thorough=10000, shards=7)
def moments(s, ctx):
    i = synth.instrument(s["inst"])
    m = build(s)
    hyds = s["order"] or s["hyd"]
    before = m.ds.copy(deep=True)
    m = run(s, i, m)
    parts = {h: class_integrals(s, m, i, h) for h in hyds}
    den = check_doppler(m, hyds, parts)
    Ze = {h: den[h] * i.wavelength ** 4 / (i.K_w * np.pi ** 5) * 1e-6 for h in hyds}
    ext = sum(micro.integrate(parts[h][2], parts[h][0]) for h in hyds)
    ht = np.exp(-2 * synth.two_way(np.array(s["z"]), ext, s["sfc"]))
    atm, tot = check_totals(m, s, "strat", hyds, i, s["sfc"], Ze, ht)
    check_grand_total(m, s, i, [tot], [ht], atm)
    for v in before.variables:
        require(np.array_equal(before[v].values, m.ds[v].values), "input %s was modified", v)
    ms = [synth.mask(s, "strat", h) for h in hyds]
    ctx.nontriv(bool((sum(ms) > 1).any() and min(x.min() for x in ms) == 0))
    for k in ("mcphys", "family"):
        ctx.count("%s_%s" % (k, s[k]))
    ctx.count("parallel", s["par"][0])
    ctx.count("one_subcolumn", s["nsub"] == 1)
    ctx.count("from_top", not s["sfc"])


@CHECK.sub(specs(3, 3), quick=80, thorough=1500, shards=2)
def repeat_and_skip_width(s, ctx):
    """A second identical call changes nothing; skipping the spectral width leaves the other moments alone."""
    i = synth.instrument(s["inst"])
    hyds = s["order"] or s["hyd"]
    m = run(s, i, build(s))
    first = m.ds.copy(deep=True)
    m = run(s, i, m)
    names = [v for v in first.variables if str(v).startswith("sub_col_") or v in ("hyd_ext_strat", "atm_ext")]
    for v in names:
        close(m.ds[v].values, first[v].values, "%s after a second call" % v, rtol=1e-9, atol=1e-12)
    m2 = run(s, i, build(s), calc_spectral_width=False)
    for v in names:
        if "sigma" not in str(v):
            close(m2.ds[v].values, first[v].values, "%s without spectral width" % v, rtol=1e-9, atol=1e-12)
    ctx.nontriv(len(hyds) > 1)
