import numpy as np

from mc import core
from mc.ref import GAMMAS, GAMMAS_Q, mach_axis, total_p_ratio, total_T_ratio

PROP = {
    "id": "C07",
    "title": "Fanno flow: adiabatic duct with friction",
    "statement": "For every Mach number and gamma, the ratios of pressure, temperature, density, velocity and total pressure to the choked state conserve mass flux and total enthalpy and satisfy the perfect gas law, with the matching entropy. The maximum friction length is the one of the momentum balance between the Mach number and choking: null at Mach 1, positive and growing away from it. Scalars, arrays and repeated calls agree, whatever the default gas is.",
    "quantifier": {"over": ["inputs", "histories"], "text": "Mach 1e-7..1e6, gamma in ]1,2], all argument shapes, all orders of calls"},
    "why_tests_cant": "Tests use isolated values at gamma 1.4 (or a couple of gammas); conservation must hold at all Mach numbers and gammas.",
    "anchors": {
        "files": ["aerokit/aero/Fanno.py"],
        "mechanism": [{"name": "closed-form ratios to the critical state", "where": "aerokit/aero/Fanno.py"}],
        "observe_at": ["return values"],
    },
}
LEVEL = "exploration"
TECH = "bounded exhaustive enumeration of inputs and call sequences on the real code, against conservation-law oracle"
NOTE = "Complete over the stated lattice; the friction length is compared with a quadrature of the momentum balance."
RULE = "every point of the Mach x gamma lattice, every argument representation, every pair of calls; non-trivial = Mach != 1"
PANELS = 12
NAMES = ("maxFparam_Mach", "Ps_Pscri", "Ts_Tscri", "Rho_Rhocri", "Pi_Picri", "V_Vcri", "NormdS")


def ratios(M, g):
    T = total_T_ratio(1.0, g) / total_T_ratio(M, g)
    V = M * np.sqrt(T)
    rho = 1 / V
    p = rho * T
    pt = p * total_p_ratio(M, g) / total_p_ratio(1.0, g)
    ds = np.log(T) - (g - 1) / g * np.log(p)
    return {"Ps_Pscri": p, "Ts_Tscri": T, "Rho_Rhocri": rho, "Pi_Picri": pt, "V_Vcri": V, "NormdS": ds}


def friction(M, g):
    """-2 (dp + rho u du)/(rho u^2) from M to 1, critical units (p=1, rho=1, u^2=g): Gauss-Legendre in log M"""
    x, w = np.polynomial.legendre.leggauss(40)
    L = np.log(M)
    tot = 0.0
    for k in range(PANELS):
        t = (k + (1 - x) / 2) / PANELS  # fraction of log M
        m = np.exp(np.multiply.outer(L, t))
        q = g * m * m / (g / (g - 1)) / total_T_ratio(m, g)  # -d ln T / d ln M
        # ln p = ln T - ln u and ln u = ln M + ln T / 2: dp / p = -(1 + q/2) dM/M ; du / u = (1 - q/2) dM/M
        F = (1 + 0.5 * q) / (g * m * m) - (1 - 0.5 * q)
        tot = tot - (F * w).sum(axis=-1) * L / PANELS
    return tot


def common(ck, mod, names, ratios, Mlo, keep):
    """shared by Fanno and Rayleigh"""
    from aerokit.common import defaultgas as dg

    def lattice(tag, gammas, M):
        for g in gammas:
            want = ratios(M, g)
            for nm, w in want.items():
                a = ck.call(tag + nm, getattr(mod, nm), M, g)
                b = ck.call(tag + nm, getattr(mod, nm), M, gamma=g)
                tol = 1e-12 * (3 + g / (g - 1))
                ck.close(tag + nm, a, w, rtol=tol, atol=tol, M=M, gamma=g, nontrivial=M != 1)
                if not isinstance(a, core.Failure) and not isinstance(b, core.Failure):
                    ck.true(tag + nm + ":keyword", np.asarray(a) == np.asarray(b), M=M, gamma=g)
            keep(tag, g, M)

    M = mach_axis(Mlo, 100.0, ck.pick(200, 4000), extra=1 + np.concatenate([np.geomspace(1e-8, 0.5, 20), -np.geomspace(1e-8, 0.5, 20)]))
    lattice("", GAMMAS if not ck.thorough else np.unique(np.concatenate([GAMMAS, np.linspace(1.02, 2, 50)])), M)
    for g in GAMMAS if ck.thorough else (1.1, 1.2, 1.4, 5.0 / 3.0, 2.0):  # far from and close to 1, arrays then separate calls
        if g < 1.1:
            continue
        far = np.concatenate([np.geomspace(1e-7, Mlo, ck.pick(30, 300)), np.geomspace(100.0, 1e6, ck.pick(20, 200))])
        close = np.sort(np.concatenate([1 + s * np.geomspace(1e-9, 0.4, ck.pick(60, 600)) for s in (-1, 1)] + [[1.0]]))
        for tag, m in (("far:", far), ("close:", close)):
            for nm, w in ratios(m, g).items():
                ck.close(tag + nm, ck.call(tag + nm, getattr(mod, nm), m, g), w, rtol=1e-11, atol=1e-13 if nm == "NormdS" else 0, M=m, gamma=g)
                ck.close(tag + "scalar:" + nm, np.array([float(getattr(mod, nm)(float(v), g)) for v in m]), w, rtol=1e-11, atol=1e-13 if nm == "NormdS" else 0, M=m, gamma=g)
            keep(tag, g, m)
    for nm in names:
        a = ck.call("default:" + nm, getattr(mod, nm), M)
        b = ck.call("default:" + nm, getattr(mod, nm), M, 1.4)
        if not isinstance(a, core.Failure) and not isinstance(b, core.Failure):
            ck.true("default:" + nm, np.asarray(a) == np.asarray(b), M=M)
    vals = [0.05, 0.3, 0.7, 1.0, 1.3, 2.0, 8.0]
    for g in (1.2, 1.4, 5.0 / 3.0):
        for nm in names:
            core.polymorphism(ck, "poly:" + nm, lambda x: getattr(mod, nm)(x, g), vals, big=(0.05, 20.0, 5001), ints=(1, 2, 3, 10), rtol=1e-12, atol=1e-13)
    G, Mm = core.grid(GAMMAS_Q, vals)
    for nm, w in ratios(Mm, G).items():
        ck.close("gamma-array:" + nm, ck.call("gamma-array", getattr(mod, nm), Mm, G), w, rtol=1e-10, atol=1e-11, M=Mm, gamma=G)
    calls = []
    for g in (1.3, 1.4):
        for m in (0.5, 3.0):
            for nm in names:
                calls.append(("%s(%g,%g)" % (nm, m, g), lambda nm=nm, m=m, g=g: getattr(mod, nm)(m, g)))
    core.histories(ck, "sequence", calls, depth=2)
    dg.set_gamma(1.3)
    dg.set_r_ideal(300.0)
    lattice("default-gas-changed:", GAMMAS_Q, mach_axis(0.05, 20, 40))
    dg.set_gamma(1.4)
    dg.set_r_ideal(287.1)


def run(ck):
    import aerokit.aero.Fanno as Fa

    Fa = ck.each(Fa)

    def keep(tag, g, M):
        F = ck.call(tag + "friction", Fa.maxFparam_Mach, M, g)
        if isinstance(F, core.Failure):
            return
        want = friction(M, g)
        eps = 4e-15 * (1 + 1 / (g * M * M))
        ck.close(tag + "friction", F, want, rtol=1e-9, atol=eps, M=M, gamma=g, nontrivial=M != 1)
        ck.true(tag + "friction:sign", F >= -eps, M=M, gamma=g)
        ck.true(tag + "friction:order", np.where(M[1:] <= 1, -1, 1) * np.diff(F) >= -2 * eps[:-1] * np.where((M[1:] <= 1) | (M[:-1] >= 1), 1, np.inf), M=M[1:], gamma=g)
        if tag in ("far:", "close:"):
            F = np.array([float(Fa.maxFparam_Mach(float(m), g)) for m in M])
            ck.close(tag + "scalar:friction", F, want, rtol=1e-9, atol=eps, M=M, gamma=g)
        ck.true(tag + "entropy-maximum", Fa.NormdS(M, g) <= 1e-13, M=M, gamma=g)
        if tag == "":
            ck.true("friction:null", abs(float(Fa.maxFparam_Mach(1.0, gamma=g))) < 1e-14, gamma=g)

    common(ck, Fa, NAMES, ratios, 0.01, keep)
