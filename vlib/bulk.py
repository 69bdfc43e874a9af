"""Independent model of bulk (radiation logic) scattering: geometric area times tabulated efficiency."""
import numpy as np

from vlib import synth


def area(s, m, cls, h):
    """Geometric cross-section area per volume (m-1) of a class, (subcolumn, time, height)."""
    p, z = np.array(s["p"]) * 100., np.array(s["z"])
    dp = np.abs(np.diff(p, axis=1))
    dz = np.diff(z, axis=1)
    dp = np.concatenate([dp, dp[:, -1:]], axis=1)      # top level: as the layer below
    dz = np.concatenate([dz, dz[:, -1:]], axis=1)
    re = eff_radius(s, m, cls, h)
    rho_b = 1000. if h[-1] == "l" else 917.
    return 3 * synth.sub_q(s, cls, h) * dp / 9.80665 / (2 * rho_b * re * 1e-6) / (2 * dz)


def eff_radius(s, m, cls, h):
    re = np.array(s["sc"][cls][h]["re"])
    if h[-1] == "l" or m.fluffy is None:
        return re
    f = m.fluffy[h].magnitude
    x = (rho_of(s, m, h)) / 917.
    return re * (f * x + (1 - f) * x ** (1 / 3.))


def rho_of(s, m, h):
    r = m.Rho_hyd[h]
    if isinstance(r, str):
        return m.ds[m.variable_density[h]].values
    return r.magnitude


def efficiencies(s, m, i, cls, h, mie):
    """(Q_back, Q_ext) on (time, height) from the instrument's tables."""
    fam = s["family"]
    if h[-1] == "l" and fam == "CESM":
        t = i.bulk_table["CESM_liq"]
        mu, la = np.array(s["sc"][cls][h]["mui"]), np.array(s["sc"][cls][h]["lami"])
        tab = {v: t[v].transpose("mu", "lambdas").values for v in ("Q_back", "Q_ext")}
        return tab["Q_back"][mu, la], tab["Q_ext"][mu, la]
    if h[-1] == "l":
        t = i.bulk_table["E3_liq"]
    elif mie:
        t = i.bulk_table["mie_ice_CESM_PSD" if fam == "CESM" else "mie_ice_E3_PSD"]
    else:
        t = i.bulk_table["CESM_ice" if fam == "CESM" else "E3_ice"]
    re = eff_radius(s, m, cls, h)
    r = t["r_e"].values
    j = np.clip(np.searchsorted(r, re) - 1, 0, len(r) - 2)
    w = np.clip((re - r[j]) / (r[j + 1] - r[j]), 0, 1)
    return tuple((1 - w) * t[v].values[j] + w * t[v].values[j + 1] for v in ("Q_back", "Q_ext"))


def set_mu_lambda(s, m, i):
    """CESM-type models carry mu and lambda of liquid classes (grid fields); put them on table nodes."""
    t = i.bulk_table["CESM_liq"]
    mu = t["mu"].values
    la = t["lambda"].transpose("mu", "lambdas").values
    m.mu_field = {h: None for h in s["hyd"]}
    m.lambda_field = {h: None for h in s["hyd"]}
    for h in s["hyd"]:
        if h[-1] == "l":
            d = s["sc"]["strat"][h]
            m.mu_field[h], m.lambda_field[h] = "mu_" + h, "lambda_" + h
            m.ds["mu_" + h] = synth.to_arr(mu[np.array(d["mui"])], "1")
            m.ds["lambda_" + h] = synth.to_arr(la[np.array(d["mui"]), np.array(d["lami"])], "m-1")
    for cls in s["sc"]:      # one field serves both kinds of cloud
        for h in s["hyd"]:
            if h[-1] == "l":
                for k in ("mui", "lami"):
                    s["sc"][cls][h][k] = s["sc"]["strat"][h][k]
    return m
