import numpy as np

from mc import core
from mc.checks.c07 import common
from mc.ref import GAMMAS, GAMMAS_Q, mach_axis, total_p_ratio, total_T_ratio

PROP = {
    "id": "C08",
    "title": "Rayleigh flow: frictionless duct with heat addition",
    "statement": "For every Mach number and gamma, the ratios of pressure, temperature, density, velocity, total pressure and total temperature to the choked state conserve mass flux and momentum and satisfy the perfect gas law, with the matching entropy. The subsonic and supersonic Mach numbers recovered from the total temperature ratio belong to their branch and give the ratio back, and the maximum heating ratio is the inverse of that ratio. Scalars, arrays and repeated calls agree, whatever the default gas is.",
    "quantifier": {"over": ["inputs", "histories"], "text": "Mach 1e-7..1e6, gamma in ]1,2], all argument shapes, all orders of calls"},
    "why_tests_cant": "Tests use isolated values; conservation and the branch of the inverses must hold at all Mach numbers and gammas.",
    "anchors": {
        "files": ["aerokit/aero/Rayleigh.py"],
        "mechanism": [{"name": "closed-form ratios to the critical state and their inverses", "where": "aerokit/aero/Rayleigh.py"}],
        "observe_at": ["return values"],
    },
}
LEVEL = "exploration"
TECH = "bounded exhaustive enumeration of inputs and call sequences on the real code, against conservation-law oracle"
NOTE = "Complete over the stated lattice. Known finding: the maximum heating ratio ignores its gamma."
RULE = "every point of the Mach x gamma lattice, every argument representation, every pair of calls; non-trivial = Mach != 1"
NAMES = ("maxTiratio_Mach", "Ps_Pscri", "Ts_Tscri", "Ti_Ticri", "Rho_Rhocri", "Pi_Picri", "V_Vcri", "NormdS")


def ratios(M, g):
    p = (1 + g) / (1 + g * M * M)  # p + rho u^2 conserved
    T = (p * M) ** 2  # rho u conserved
    rho = p / T
    V = M * np.sqrt(T)
    return {"Ps_Pscri": p, "Ts_Tscri": T, "Rho_Rhocri": rho, "V_Vcri": V, "Ti_Ticri": T * total_T_ratio(M, g) / total_T_ratio(1.0, g),
            "Pi_Picri": p * total_p_ratio(M, g) / total_p_ratio(1.0, g), "NormdS": np.log(T) - (g - 1) / g * np.log(p)}


def run(ck):
    import aerokit.aero.Rayleigh as Ra

    Ra = ck.each(Ra, loose=("SubMach_TiTicri", "SupMach_TiTicri"))

    def keep(tag, g, M):
        Ti = ratios(M, g)["Ti_Ticri"]
        h = ck.call(tag + "heating", Ra.maxTiratio_Mach, M, g)
        if not isinstance(h, core.Failure):
            if g == 1.4:
                ck.close(tag + "heating", h, 1 / Ti, rtol=1e-12, M=M, gamma=g, nontrivial=M != 1)
            elif np.allclose(h, 1 / ratios(M, 1.4)["Ti_Ticri"], rtol=1e-12, atol=0):
                ck.violation("heating:uses-gamma-1.4", function="maxTiratio_Mach")
            else:
                ck.close(tag + "heating", h, 1 / Ti, rtol=1e-11, M=M, gamma=g, nontrivial=M != 1)
        sub, sup = M <= 1, M >= 1
        far = np.abs(M - 1) > 1e-6
        a = ck.call(tag + "SubMach", Ra.SubMach_TiTicri, np.minimum(Ti[sub], 1.0), g)
        if not isinstance(a, core.Failure):
            ck.true(tag + "SubMach:branch", (a >= 0) & (a <= 1 + 1e-12), M=M[sub], gamma=g, got=a)
            ck.true(tag + "SubMach:value", np.abs(a - M[sub]) <= np.where(far[sub], 1e-14 * (1 + 1 / np.maximum(1 - M[sub], 1e-9)) * 100 + 1e-15 / M[sub], 1e-5), M=M[sub], gamma=g, got=a)
            ck.close(tag + "SubMach:back", ratios(a, g)["Ti_Ticri"], Ti[sub], rtol=1e-11, atol=4e-15, M=M[sub], gamma=g)
        a = ck.call(tag + "SupMach", Ra.SupMach_TiTicri, np.minimum(Ti[sup], 1.0), gamma=g)
        if not isinstance(a, core.Failure):
            ck.true(tag + "SupMach:branch", a >= 1 - 1e-12, M=M[sup], gamma=g, got=a)
            ck.close(tag + "SupMach:back", ratios(a, g)["Ti_Ticri"], Ti[sup], rtol=1e-11, M=M[sup], gamma=g)
            i = sup & far & (M < 30)
            ck.close(tag + "SupMach:value", a[i[sup]], M[i], rtol=1e-8, M=M[i], gamma=g)
        ck.true(tag + "entropy-maximum", Ra.NormdS(M, g) <= 1e-13, M=M, gamma=g)
        ck.true(tag + "Ti<=1", Ra.Ti_Ticri(M, g) <= 1 + 1e-14, M=M, gamma=g)

    common(ck, Ra, NAMES, ratios, 0.01, keep)
    r = [0.55, 0.6, 0.8, 0.95, 0.999, 1.0]
    for g in (1.2, 1.4):
        core.polymorphism(ck, "poly:SubMach", lambda x: Ra.SubMach_TiTicri(x, g), [0.0, 0.1] + r, big=(0, 1, 5001), ints=(0, 1))
        core.polymorphism(ck, "poly:SupMach", lambda x: Ra.SupMach_TiTicri(x, g), r, big=(0.6, 1, 5001), ints=(1,))
    for x in r:
        ck.true("default:inverse", (Ra.SubMach_TiTicri(x) == Ra.SubMach_TiTicri(x, 1.4)) and (Ra.SupMach_TiTicri(x) == Ra.SupMach_TiTicri(x, 1.4)), ratio=x)
    calls = [("%s(%g,%g)" % (nm, x, g), lambda nm=nm, x=x, g=g: getattr(Ra, nm)(x, g)) for nm in ("SubMach_TiTicri", "SupMach_TiTicri") for x in r for g in (1.3, 1.4)]
    core.histories(ck, "sequence", calls, depth=2)
