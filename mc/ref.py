"""Reference relations, written from the conservation laws and not from the library."""
import itertools

import numpy as np

GAMMAS = (1.01, 1.05, 1.1, 1.2, 1.25, 1.3, 1.33, 1.38, 1.399, 1.4, 1.401, 1.45, 1.5, 5.0 / 3.0, 1.8, 2.0)
GAMMAS_Q = (1.05, 1.1, 1.2, 1.3, 1.4, 1.5, 5.0 / 3.0, 2.0)


def mach_axis(lo, hi, n, extra=()):
    """dense axis: logarithmic + linear + regular values + neighbours of 1"""
    ax = np.concatenate(
        [
            np.geomspace(lo, hi, n),
            np.linspace(lo, hi, n),
            [m for m in (0.1, 0.2, 0.3, 0.5, 0.8, 0.9, 0.99, 0.999, 1 - 1e-6, 1 - 1e-9, 1.0, 1 + 1e-9, 1 + 1e-6, 1.001, 1.01, 1.1, 1.2, 1.5, 2, 2.5, 3, 4, 5, 6, 8, 10, 15, 20, 25, 30, 50, 100) if lo <= m <= hi],
            np.asarray(extra, dtype=float),
        ]
    )
    return np.unique(ax)


# ---- one-dimensional gas dynamics from cp, r
def total_T_ratio(M, g):
    """(cp T + u^2/2) / (cp T) with T=1, r=1"""
    cp = g / (g - 1.0)
    return (cp + 0.5 * g * M * M) / cp


def total_p_ratio(M, g):
    return np.exp(g / (g - 1.0) * np.log(total_T_ratio(M, g)))


def flux(rho, u, p, g):
    """mass, momentum, total enthalpy"""
    return rho * u, rho * u * u + p, g / (g - 1.0) * p / rho + 0.5 * u * u


def prandtl_meyer(M, g):
    """degrees; series-free closed form with log/atan2 in complex arithmetic"""
    k = np.sqrt((g + 1.0) / (g - 1.0))
    b = np.sqrt((np.asarray(M) - 1.0) * (np.asarray(M) + 1.0))
    return np.degrees(k * np.angle(k + 1j * b) - np.angle(1.0 + 1j * b))


def area_ratio(M, g):
    """A/A* from mass conservation: rho a* / (rho u)"""
    T = 1.0 / total_T_ratio(M, g)
    Tc = 1.0 / total_T_ratio(1.0, g)
    rho = T ** (1 / (g - 1))
    rhoc = Tc ** (1 / (g - 1))
    return (rhoc * np.sqrt(g * Tc)) / (rho * M * np.sqrt(g * T))


def rk4(f, y, t0, t1, n):
    h = (t1 - t0) / n
    t = t0
    for _ in range(n):
        k1 = f(t, y)
        k2 = f(t + h / 2, y + h / 2 * k1)
        k3 = f(t + h / 2, y + h / 2 * k2)
        k4 = f(t + h, y + h * k3)
        y = y + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
        t += h
    return y
