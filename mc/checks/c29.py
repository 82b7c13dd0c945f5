import math

import numpy as np

from mc import core

PROP = {
    "id": "C29",
    "title": "Thermodynamic functions of air and kerosene are consistent",
    "statement": "Over the range of temperatures of engines, for air as for kerosene, the enthalpy is the integral of the heat capacity, the entropy function is the integral of the heat capacity over temperature in decimal logarithm and gas constant units, the heat ratio of air is the one of its heat capacity and gas constant, and the effective heating value decreases by the kerosene enthalpy from the reference value it takes near 288 K. Values agree with tabulated air.",
    "quantifier": {"over": ["inputs"], "text": "all temperatures of a dense lattice 150 K to 2500 K and all pairs of a coarser lattice (integrals)"},
    "why_tests_cant": "No existing test imports these modules; consistency of independent polynomial fits must hold at every temperature.",
    "anchors": {
        "files": ["aerokit/aero/ThermoRealGas.py", "aerokit/aero/ThermoKerosen.py"],
        "mechanism": [{"name": "temperature fits", "where": "aerokit/aero"}],
        "observe_at": ["return values"],
    },
}
LEVEL = "exploration"
TECH = "bounded exhaustive enumeration of temperatures and temperature pairs on the real code against quadratures of the heat capacity"
NOTE = "Complete over the stated lattice; the heat capacity fit itself is anchored by tabulated values to 0.5%."
RULE = "every temperature and pair; non-trivial = pairs of different temperatures"

# air tables: temperature, heat capacity J/kg/K, heat ratio
AIR = ((250.0, 1003.1, 1.4010), (300.0, 1004.9, 1.400), (400.0, 1013.5, 1.395), (500.0, 1029.5, 1.387), (600.0, 1051.1, 1.376), (800.0, 1098.7, 1.354), (1000.0, 1141.1, 1.336), (1200.0, 1173.9, 1.324), (1500.0, 1211.2, 1.311))


def run(ck):
    import aerokit.aero.ThermoKerosen as k
    import aerokit.aero.ThermoRealGas as a

    xg, wg = np.polynomial.legendre.leggauss(24)
    Ts = np.linspace(150.0, 2500.0, ck.pick(95, 471))

    def integral(f, t0, t1):
        t = 0.5 * (t1 + t0) + 0.5 * (t1 - t0) * xg
        return 0.5 * (t1 - t0) * float(np.sum(wg * np.array([f(float(s)) for s in t])))

    for T, cp, g in AIR:
        ck.close("air:table:cp", float(a.Cp(T)), cp, rtol=5e-3, T=T)
        ck.close("air:table:gamma", float(a.Gamma(T)), g, rtol=4e-3, T=T)
    ck.close("air:constant", a.rconst, 287.04, rtol=2e-4)
    ck.close("kerosene:constant", k.r_air, 287.04, rtol=2e-4)
    ck.close("kerosene:inf", float(k.Pc_inf()), 10300 * 4184.0, rtol=1e-3)
    # tabulated liquid/vapour fit around 288 K: 6.6 r and 1607.2 r
    ck.close("kerosene:reference", float(k.Pc_eff(288.0)), float(k.Pc_inf()), rtol=1e-5)
    ck.close("kerosene:cp", float(k.Cp(288.0)), 287.04 * 6.634, rtol=2e-3)
    ck.close("kerosene:cp-hot", float(k.Cp(1500.0)), 287.04 * 12.373, rtol=2e-3)
    for T in Ts:
        T = float(T)
        cp = a.Cp(T)
        ck.close("air:gamma", float(a.Gamma(T)), cp / (cp - a.rconst), rtol=1e-12, T=T)
        ck.true("air:monotone", a.Cp(T + 1) > a.Cp(T) if T > 280 else True, T=T)
        ck.close("kerosene:balance", float(k.Pc_eff(T)) - float(k.Pc_eff(288.0)), -(float(k.Enthalpy(T)) - float(k.Enthalpy(288.0))), rtol=1e-9, atol=1e-3, nontrivial=T != 288.0, T=T)
        for t in (int(T),):
            for m, fs in ((a, ("Cp", "Gamma", "Enthalpy", "Phi")), (k, ("Cp", "Enthalpy", "Phi", "Pc_eff"))):
                for f in fs:
                    ck.close("integer", float(getattr(m, f)(t)), float(getattr(m, f)(float(t))), rtol=1e-13, function=f, T=t)
    # short intervals at temperatures which are not round numbers
    for T in np.linspace(150.0, 2500.0, ck.pick(61, 301)) * (1 + 1e-3 / np.pi):
        for h in (3.7e-3, 0.037, 0.37):
            t0, t1 = float(T), float(T + h)
            for nm, m, r in (("air", a, a.rconst), ("kerosene", k, k.r_air)):
                ck.close(nm + ":enthalpy:short", float(m.Enthalpy(t1) - m.Enthalpy(t0)), integral(m.Cp, t0, t1), rtol=3e-4, atol=1e-7, T0=t0, T1=t1)
                ck.close(nm + ":entropy:short", float(m.Phi(t1) - m.Phi(t0)), integral(lambda s: m.Cp(s) / s, t0, t1) / r / math.log(10), rtol=3e-4, atol=1e-13, T0=t0, T1=t1)
            ck.close("kerosene:balance:short", float(k.Pc_eff(t1) - k.Pc_eff(t0)), -integral(k.Cp, t0, t1), rtol=3e-4, atol=1e-6, T0=t0, T1=t1)
            ck.close("air:cp:short", float(a.Cp(t1) - a.Cp(t0)) / h, float(a.Cp(t1 + 1) - a.Cp(t0 - 1)) / (2 + h), rtol=2e-2, atol=2e-3 + 1e-12 / h, T0=t0, T1=t1)
    C = np.linspace(150.0, 2500.0, ck.pick(16, 48))
    for i, t0 in enumerate(C):
        for t1 in C:
            t0, t1 = float(t0), float(t1)
            if t0 == t1:
                continue
            for nm, m, r in (("air", a, a.rconst), ("kerosene", k, k.r_air)):
                ck.close(nm + ":enthalpy", float(m.Enthalpy(t1) - m.Enthalpy(t0)), integral(m.Cp, t0, t1), rtol=1e-4, T0=t0, T1=t1)
                ck.close(nm + ":entropy", float(m.Phi(t1) - m.Phi(t0)), integral(lambda s: m.Cp(s) / s, t0, t1) / r / math.log(10), rtol=1e-4, T0=t0, T1=t1)
