"""Exact Riemann problem for two perfect gases, written independently (bisection on pressure)."""
import numpy as np


def wave(p, q, g):
    """(velocity change through the wave facing q, density behind) for pressure p behind; q=(rho,u,p)"""
    rho, _, p0 = q
    if p > p0:
        # Hugoniot: specific volume from energy jump, mass flux from momentum jump
        mu = (g - 1) / (g + 1)
        r = rho * (p / p0 + mu) / (mu * p / p0 + 1)
        m2 = (p - p0) / (1 / rho - 1 / r) if p > p0 * (1 + 1e-5) else rho * (p0 * g + (g + 1) / 2 * (p - p0))
        return (p - p0) / np.sqrt(m2), r
    a = np.sqrt(g * p0 / rho)
    r = rho * (p / p0) ** (1 / g)
    a2 = np.sqrt(g * p / r) if p > 0 else 0.0
    return 2 / (g - 1) * (a2 - a), r


def vacuum(qL, gL, qR, gR):
    aL, aR = np.sqrt(gL * qL[2] / qL[0]), np.sqrt(gR * qR[2] / qR[0])
    return 2 * aL / (gL - 1) + 2 * aR / (gR - 1) <= qR[1] - qL[1]


def solve(qL, gL, qR, gR):
    f = lambda p: wave(p, qL, gL)[0] + wave(p, qR, gR)[0] + qR[1] - qL[1]
    lo, hi = -745.0, np.log(max(qL[2], qR[2]))
    while f(np.exp(hi)) < 0:
        hi += 1.0
    for _ in range(200):
        mid = 0.5 * (lo + hi)
        if f(np.exp(mid)) > 0:
            hi = mid
        else:
            lo = mid
    p = np.exp(0.5 * (lo + hi))
    dL, rL = wave(p, qL, gL)
    dR, rR = wave(p, qR, gR)
    return p, 0.5 * (qL[1] - dL + qR[1] + dR), rL, rR


def speeds(qL, gL, qR, gR, sol):
    p, u, rL, rR = sol
    aL, aR = np.sqrt(gL * qL[2] / qL[0]), np.sqrt(gR * qR[2] / qR[0])
    weak = 1 + 1e-5  # density jumps of weaker shocks are rounded: mass flux of the energy jump, m^2 = rho (g p0 + (g+1)/2 (p-p0))
    if p > qL[2]:
        s = qL[1] - (np.sqrt(rL / qL[0] * (p - qL[2]) / (rL - qL[0])) if p > qL[2] * weak else np.sqrt((gL * qL[2] + (gL + 1) / 2 * (p - qL[2])) / qL[0]))
        w = [s, s]
    else:
        w = [qL[1] - aL, u - np.sqrt(gL * p / rL)]
    w.append(u)
    if p > qR[2]:
        s = qR[1] + (np.sqrt(rR / qR[0] * (p - qR[2]) / (rR - qR[0])) if p > qR[2] * weak else np.sqrt((gR * qR[2] + (gR + 1) / 2 * (p - qR[2])) / qR[0]))
        w += [s, s]
    else:
        w += [u + np.sqrt(gR * p / rR), qR[1] + aR]
    return w


def sample(x, qL, gL, qR, gR, sol, w):
    """state on the ray x/t"""
    p, u, rL, rR = sol
    if x < u:
        if x <= w[0]:
            return qL[0], qL[1], qL[2], gL
        if x >= w[1]:
            return rL, u, p, gL
        a0 = np.sqrt(gL * qL[2] / qL[0])
        # u - a = x and u + 2a/(g-1) conserved
        J = qL[1] + 2 * a0 / (gL - 1)
        a = (J - x) * (gL - 1) / (gL + 1)
        r = qL[0] * (a / a0) ** (2 / (gL - 1))
        return r, x + a, qL[2] * (a / a0) ** (2 * gL / (gL - 1)), gL
    if x >= w[4]:
        return qR[0], qR[1], qR[2], gR
    if x <= w[3]:
        return rR, u, p, gR
    a0 = np.sqrt(gR * qR[2] / qR[0])
    J = qR[1] - 2 * a0 / (gR - 1)
    a = (x - J) * (gR - 1) / (gR + 1)
    r = qR[0] * (a / a0) ** (2 / (gR - 1))
    return r, x - a, qR[2] * (a / a0) ** (2 * gR / (gR - 1)), gR


def lattice(thorough=False):
    """left/right states covering shock-shock, shock-expansion, expansion-shock, expansion-expansion, contacts,
    equal states, supersonic, strong, near-vacuum, two gases"""
    out = []
    S = [(1.0, 0.0, 1.0), (0.125, 0.0, 0.1), (1.0, 0.75, 1.0), (1.0, -2.0, 0.4), (1.0, 2.0, 0.4), (1.0, 0.0, 1000.0), (1.0, 0.0, 0.01), (5.99924, 19.5975, 460.894), (5.99242, -6.19633, 46.0950), (2.0, 0.3, 2.0), (1.225, 100.0, 101325.0), (0.3, -250.0, 20000.0)]
    if thorough:
        S += [(1.0, 5.0, 1.0), (1e-3, 0.0, 1.0), (1e3, 0.0, 1.0), (1.0, -0.01, 1.0 + 1e-9), (1.4, 3.0, 1.0), (1.4, 1.1, 1.0), (0.1, -1.0, 1e-3), (1.0, 0.0, 1e6), (2.2, -6.0, 1e4), (1.0, 1e-3, 1.0)]
    G = [(1.4, 1.4), (1.2, 1.2), (5 / 3, 5 / 3), (1.05, 1.05), (2.0, 2.0), (1.4, 1.67), (1.3, 1.1), (1.67, 1.4)]
    if thorough:
        G += [(1.01, 1.01), (1.1, 1.1), (1.33, 1.4), (1.05, 2.0), (2.0, 1.05)]
    for a in S:
        for b in S:
            for gL, gR in G:
                out.append((a, gL, b, gR))
    return out
