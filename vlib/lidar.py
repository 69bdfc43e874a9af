"""Independent lidar forward relations: optical depth, attenuated backscatter, totals, depolarisation, extinction mask."""
import numpy as np

from vlib import synth
from vlib.core import close, require, sut


def molecular(s, lam):
    """(molecular backscatter, two-way transmittance) on (time, height)."""
    from checks.c06 import rayleigh
    p, T, z = (np.array(s[k]) for k in ("p", "T", "z"))
    _, N, sig, sig180 = rayleigh(lam, p, T)
    x = sig * N
    lay = 0.5 * (x[:, :-1] + x[:, 1:]) * np.diff(z, axis=1)
    u = np.zeros_like(p)
    for k in range(1, p.shape[1]):
        if s["sfc"]:
            u[:, k] = u[:, k - 1] + lay[:, k - 1]
        else:
            j = p.shape[1] - 1 - k
            u[:, j] = u[:, j + 1] + lay[:, j]
    return sig180 * N, np.exp(-2 * u)


def check_class_totals(m, s, cls, hyds, i, alpha, beta, eta=1., rtol=1e-6):
    """alpha/beta: dicts of (subcolumn, time, height); returns (alpha, beta, OD) totals."""
    z = np.array(s["z"])
    at = bt = odt = 0.
    for h in hyds:
        od = synth.two_way(z, alpha[h], s["sfc"])
        close(synth.tkz(m, "sub_col_alpha_p_%s_%s" % (h, cls)), alpha[h], "%s %s extinction" % (cls, h), rtol=rtol, atol=1e-300)
        close(synth.tkz(m, "sub_col_beta_p_%s_%s" % (h, cls)), beta[h], "%s %s backscatter" % (cls, h), rtol=rtol, atol=1e-300)
        close(synth.tkz(m, "sub_col_OD_%s_%s" % (h, cls)), od, "%s %s optical depth" % (cls, h), rtol=rtol, atol=1e-290)
        at, bt, odt = at + alpha[h], bt + beta[h], odt + od
    close(synth.tkz(m, "sub_col_alpha_p_tot_%s" % cls), at, "%s total extinction" % cls, rtol=rtol, atol=1e-300)
    close(synth.tkz(m, "sub_col_beta_p_tot_%s" % cls), bt, "%s total backscatter" % cls, rtol=rtol, atol=1e-300)
    close(synth.tkz(m, "sub_col_OD_tot_%s" % cls), odt, "%s total optical depth" % cls, rtol=rtol, atol=1e-290)
    bm, tau = molecular(s, i.wavelength)
    close(synth.tkz(m, "sub_col_beta_att_tot_%s" % cls), (bm + bt) * tau * np.exp(-2 * eta * odt),
          "%s attenuated backscatter" % cls, rtol=1e-5 + 2e-6 * eta * odt, atol=1e-290)
    return at, bt, odt


def check_grand_total(m, s, i, parts, eta=1., **k):
    """calc_total_alpha_beta: convective + stratiform."""
    from emc2.simulator.lidar_moments import calc_total_alpha_beta
    m = sut(calc_total_alpha_beta, m, OD_from_sfc=s["sfc"], eta=eta, **k)
    at, bt, od = (sum(x) for x in zip(*parts))
    close(synth.tkz(m, "sub_col_alpha_p_tot"), at, "total extinction", rtol=1e-6, atol=1e-300)
    close(synth.tkz(m, "sub_col_beta_p_tot"), bt, "total backscatter", rtol=1e-6, atol=1e-300)
    close(synth.tkz(m, "sub_col_OD_tot"), od, "total optical depth", rtol=1e-6, atol=1e-290)
    bm, tau = molecular(s, i.wavelength)
    close(synth.tkz(m, "sub_col_beta_att_tot"), (bm + bt) * tau * np.exp(-2 * eta * od), "total attenuated backscatter",
          rtol=1e-5 + 2e-6 * eta * od, atol=1e-290)
    return m


def unchanged(before, m):
    for v in before.variables:
        require(np.array_equal(before[v].values, m.ds[v].values, equal_nan=before[v].dtype.kind == "f"), "input %s was modified", v)
