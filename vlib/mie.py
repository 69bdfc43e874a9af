"""Reference Mie solution for a homogeneous sphere (Bohren and Huffman, 1983, chapter 4), written independently."""
import numpy as np


def efficiencies(m, x, asymmetry=False):
    """Q_ext, Q_sca, Q_back (4 pi times the differential one over the geometric cross section) for size parameter x."""
    nmax = int(np.ceil(x + 4.05 * x ** (1 / 3.) + 2))
    y = m * x
    nd = int(max(nmax, abs(y)) + 16)
    D = np.zeros(nd + 1, complex)
    for n in range(nd, 0, -1):
        D[n - 1] = n / y - 1. / (D[n] + n / y)
    # Riccati-Bessel functions: psi downward (stable), chi upward
    N = nd + 15
    r = np.zeros(N + 1)
    for n in range(N, 0, -1):           # psi_n/psi_{n-1}
        r[n - 1] = 1. / ((2 * n + 1) / x - r[n]) if n < N else x / (2 * n + 1)
    psi = np.zeros(nmax + 1)
    psi[0] = np.sin(x)
    p1 = np.sin(x) / x - np.cos(x)
    for n in range(1, nmax + 1):
        psi[n] = psi[n - 1] * r[n - 1]
    if abs(psi[0]) < 1e-3 and nmax >= 1:     # avoid dividing through a zero of sin x
        psi[1] = p1
        for n in range(2, nmax + 1):
            psi[n] = psi[n - 1] * r[n - 1]
    chi = np.zeros(nmax + 1)
    chi[0], c1 = np.cos(x), np.cos(x) / x + np.sin(x)
    if nmax >= 1:
        chi[1] = c1
    for n in range(2, nmax + 1):
        chi[n] = (2 * n - 1) / x * chi[n - 1] - chi[n - 2]
    xi = psi - 1j * chi
    n = np.arange(1, nmax + 1)
    da, db = D[1:nmax + 1] / m + n / x, D[1:nmax + 1] * m + n / x
    a = (da * psi[1:] - psi[:-1]) / (da * xi[1:] - xi[:-1])
    b = (db * psi[1:] - psi[:-1]) / (db * xi[1:] - xi[:-1])
    qe = 2 / x ** 2 * np.sum((2 * n + 1) * (a + b).real)
    qs = 2 / x ** 2 * np.sum((2 * n + 1) * (abs(a) ** 2 + abs(b) ** 2))
    qb = abs(np.sum((2 * n + 1) * (-1.) ** n * (a - b))) ** 2 / x ** 2
    if not asymmetry:
        return qe, qs, qb
    k = n[:-1]
    g = np.sum(k * (k + 2.) / (k + 1) * (a[:-1] * np.conj(a[1:]) + b[:-1] * np.conj(b[1:])).real)
    g = (g + np.sum((2 * n + 1.) / (n * (n + 1.)) * (a * np.conj(b)).real)) * 4 / (x ** 2 * qs)
    return qe, qs, qb, g
