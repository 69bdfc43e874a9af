"""Independent model of size distributions and of single-particle (microphysics logic) scattering integrals."""
import numpy as np
from scipy.special import gamma

from vlib import synth
from vlib.bulk import rho_of

ICE = ["ci", "pi", "sn", "gr", "ha", "pir", "pid", "pif"]


def water(s, cls, h):
    """Water content kg m-3."""
    rho_a = np.array(s["p"]) * 100 / (287.058 * np.array(s["T"]))
    return synth.sub_q(s, cls, h) * rho_a


def slope(q, N, rho, mu):
    """lambda of N0 D^mu exp(-lambda D) holding N (cm-3) spheres of density rho with q kg m-3; NaN when empty."""
    with np.errstate(all="ignore"):
        lam = (np.pi * rho / 6 * N * 1e6 * gamma(mu + 4) / (q * gamma(mu + 1))) ** (1 / 3.)
        return np.where(q > 0, lam, np.nan)


def intercept(N, lam, mu):
    return N * 1e6 * lam ** (mu + 1) / gamma(mu + 1)


def shape(N, dispersion, bounds=(2, 15)):
    """Martin et al. (1994) for droplets, N in cm-3; fixed 1/0.09 without the dispersion calculation."""
    if not dispersion:
        return np.full(np.shape(N), 1 / 0.09)
    return np.clip(1 / (0.0005714 * N + 0.2714) ** 2 - 1, *bounds)


def tables(i, h, family, mie):
    """(D, backscatter, extinction) per particle."""
    if h in ICE:
        if mie:
            t, d = i.mie_table["ci" if h == "ci" else "pi"], "p_diam"
        elif family == "CESM":
            t, d = i.scat_table["CESM_ice"], "p_diam"
        else:
            t, d = i.scat_table["E3_ice"], "p_diam_eq_V"
    else:
        t, d = i.mie_table[h], "p_diam"
    return t[d].values, t["beta_p"].values, t["alpha_p"].values


def integrate(y, x):
    return np.sum(0.5 * (y[..., 1:] + y[..., :-1]) * np.diff(x), axis=-1)


def nd(D, N0, lam, mu):
    with np.errstate(all="ignore"):
        return N0[..., None] * D ** mu[..., None] * np.exp(-lam[..., None] * D)


def nssl_speed(D, rho, h):
    """NSSL fall speed magnitude (rho may be an array broadcast against D on the last axis)."""
    if h == "cl":
        return 131.6 * D ** 0.824
    if h == "pl":
        return 10 * (1 - np.exp(-516.575 * D))
    if h == "sn":
        return 21.52823061429272 * D ** 0.42
    if h in ("gr", "ha"):
        low = 170 if h == "gr" else 500
        cd = 0.45 + 0.55 * (800 - np.clip(rho, low, 800)) / (800 - low)   # 0.45 (dense) to 1 (light)
        return np.sqrt(4 * rho * 9.81 / (3 * cd * 1.007)) * np.sqrt(D)
    return 0 * D
