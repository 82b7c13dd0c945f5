import numpy as np

from mc import core
from mc.ref import GAMMAS, GAMMAS_Q, mach_axis, prandtl_meyer, total_p_ratio

PROP = {
    "id": "C03",
    "title": "Prandtl-Meyer angle, inverses and simple-wave deflections",
    "statement": "The Prandtl-Meyer angle is that of supersonic isentropic turning for every Mach number and gamma, and each inverse (from the angle or from the angle minus the Mach angle) returns the Mach number it came from. Deflection from a pressure ratio and pressure ratio from a deflection describe the same isentropic wave and are inverse of each other. Scalars, arrays and repeated calls agree.",
    "quantifier": {"over": ["inputs", "histories"], "text": "Mach 1..100, gamma in ]1,2], all reachable deflections and pressure ratios, all argument shapes and call orders"},
    "why_tests_cant": "Tests check a few angles at gamma 1.4; convergence near Mach 1, at large Mach and for other gammas is a statement over all inputs.",
    "anchors": {
        "files": ["aerokit/aero/Supersonic.py"],
        "mechanism": [{"name": "closed-form angle and secant inversion", "where": "aerokit/aero/Supersonic.py"}],
        "observe_at": ["PrandtlMeyer_Mach", "Mach_PrandtlMeyer", "Mach_PMFmmu", "deflection_Mach_IsentropicPsratio", "IsentropicPsratio_Mach_deflection"],
    },
}
LEVEL = "exploration"
TECH = "bounded exhaustive enumeration of inputs and call sequences on the real code, against an independent Prandtl-Meyer oracle"
NOTE = "Complete over the stated lattice; the iterative inverse is judged on backward error (angle) and on Mach number away from Mach 1."
RULE = "every point of the Mach x gamma (x second Mach) lattice, every argument representation, every pair of calls; non-trivial = Mach > 1"


def run(ck):
    import aerokit.aero.Supersonic as S

    S = ck.each(S, loose=("Mach_PrandtlMeyer", "IsentropicPsratio_Mach_deflection", "deflection_Mach_IsentropicPsratio", "Mach_PMFmmu"), edge=("deflection_Mach_IsentropicPsratio",))
    from aerokit.common import defaultgas as dg

    gam = [g for g in GAMMAS if g >= 1.05]

    def angle(tag, gammas, M):
        for g in gammas:
            w = prandtl_meyer(M, g)
            ck.close(tag + "omega", ck.call(tag + "omega", S.PrandtlMeyer_Mach, M, g), w, rtol=2e-12, atol=1e-11, M=M, gamma=g, nontrivial=M > 1)
            # slope: d omega / dM = sqrt(M2-1)/(1+(g-1)/2 M2)/M
            h = 1e-5 * M
            i = M > 1.05
            num = (S.PrandtlMeyer_Mach(M + h, gamma=g) - S.PrandtlMeyer_Mach(M - h, gamma=g)) / (2 * h)
            ck.close(tag + "omega-slope", num[i], np.degrees(np.sqrt(M**2 - 1) / (1 + 0.5 * (g - 1) * M**2) / M)[i], rtol=1e-4, M=M[i], gamma=g)

    def inverse(tag, gammas, M):
        for g in gammas:
            w = prandtl_meyer(M, g)
            for form in ("array", "scalar"):
                if form == "array":
                    m = ck.call(tag + "inverse:array", S.Mach_PrandtlMeyer, w, g)
                else:
                    m = [ck.call(tag + "inverse:scalar", S.Mach_PrandtlMeyer, float(x), gamma=g) for x in w]
                    if any(isinstance(v, core.Failure) for v in m):
                        continue
                if isinstance(m, core.Failure):
                    continue
                m = np.array(m, dtype=float)
                ck.true(tag + "inverse:supersonic", m >= 1 - 1e-9, M=M, gamma=g, form=form)
                ck.close(tag + "inverse:angle", prandtl_meyer(np.maximum(m, 1), g), w, atol=2e-6, rtol=0, M=M, gamma=g, form=form, nontrivial=M > 1)
                i = M > 1.01
                ck.close(tag + "inverse:Mach", m[i], M[i], rtol=1e-6, M=M[i], gamma=g, form=form)
            nu_mu = w - np.degrees(np.arcsin(1 / M))
            m = ck.call(tag + "PMFmmu", S.Mach_PMFmmu, nu_mu, g)
            if not isinstance(m, core.Failure):
                ck.true(tag + "PMFmmu", np.abs(m**2 - M**2) <= 1e-9 * M**2 * np.maximum(M, 1) / (g - 1), M=M, gamma=g, got=m, nontrivial=M > 1)

    M = mach_axis(1.0, 100.0, ck.pick(150, 2000), extra=1 + np.geomspace(1e-10, 0.5, 40))
    angle("", GAMMAS, M)
    far = np.geomspace(100.0, 1e7, ck.pick(40, 400))
    m = np.concatenate([far, 1 + np.geomspace(1e-10, 0.5, ck.pick(60, 400))])
    for g in GAMMAS:
        ck.close("far:omega", S.PrandtlMeyer_Mach(far, g), prandtl_meyer(far, g), rtol=2e-12, atol=1e-11, M=far, gamma=g)
        ck.close("scalar:omega", np.array([float(S.PrandtlMeyer_Mach(float(x), g)) for x in m]), prandtl_meyer(m, g), rtol=2e-12, atol=1e-11, M=m, gamma=g)
    ck.close("default:omega", S.PrandtlMeyer_Mach(M), prandtl_meyer(M, 1.4), rtol=1e-11, atol=1e-11, M=M)
    Mi = mach_axis(1.0, 100.0, ck.pick(30, 400), extra=1 + np.geomspace(1e-10, 0.5, 25))
    inverse("", gam, Mi)
    ck.close("default:inverse", S.Mach_PrandtlMeyer(prandtl_meyer(Mi, 1.4)), Mi, rtol=1e-6, M=Mi)
    ck.close("default:PMFmmu", S.Mach_PMFmmu(prandtl_meyer(Mi, 1.4) - np.degrees(np.arcsin(1 / Mi))), Mi, rtol=1e-6, M=Mi)
    OFFG = (1.083, 1.29, 1.615, 1.87)
    angle("off:", OFFG, np.concatenate([mach_axis(1.0, 60.0, ck.pick(40, 400)), 1 + np.geomspace(1e-7, 0.3, 30)]))
    inverse("off:", OFFG, np.concatenate([[1.0, 1.013, 1.37, 2.713, 6.61, 17.3, 71.0], 1 + np.geomspace(1e-7, 0.3, ck.pick(9, 60))]))
    if hasattr(S, "old_Mach_PrandtlMeyer"):  # the former inverse, by secant from Mach 2
        for g in (1.083, 1.2, 1.29, 1.4):
            for M_ in np.concatenate([[1.013, 1.137, 1.5, 2.0, 3.3, 7.7, 17.3], np.linspace(1.2, 15.0, ck.pick(5, 60))]):
                ck.close("old-inverse", ck.call("old-inverse", S.old_Mach_PrandtlMeyer, float(prandtl_meyer(M_, g)), g), M_, rtol=2e-4, M=M_, gamma=g)
    # simple waves: from M1 to M2
    A = np.array([1.0, 1.05, 1.2, 1.37, 1.5, 2.0, 2.713, 3.0, 5.0, 10.0, 17.3, 30.0])
    m1, m2 = core.grid(A, A)
    for g in gam + list(OFFG):
        p = total_p_ratio(m1, g) / total_p_ratio(m2, g)  # static pressure ratio p2/p1
        turn = prandtl_meyer(m2, g) - prandtl_meyer(m1, g)  # >0 : expansion
        d = ck.call("deflection", S.deflection_Mach_IsentropicPsratio, m1, p, g)
        ok = m2 > 1.0
        if not isinstance(d, core.Failure):
            ck.close("deflection", d[ok], turn[ok], atol=1e-7 * g / (g - 1), rtol=1e-9, M1=m1[ok], M2=m2[ok], gamma=g)
        for form in ("array", "scalar"):
            if form == "array":
                q = ck.call("pratio:array", S.IsentropicPsratio_Mach_deflection, m1, -turn, g)
            else:
                q = [ck.call("pratio:scalar", S.IsentropicPsratio_Mach_deflection, float(a), float(-t), gamma=g) for a, t in zip(m1, turn)]
                if any(isinstance(v, core.Failure) for v in q):
                    continue
            if not isinstance(q, core.Failure):
                ck.close("pratio", np.array(q, dtype=float), p, rtol=1e-5 / (g - 1), M1=m1, M2=m2, gamma=g, form=form)
    # angles and ratios given directly on dense grids (whole values too), judged by the independent functions
    X = np.unique(np.concatenate([np.linspace(-89.5, 60.0, ck.pick(600, 6001)), np.arange(-89.0, 61.0), np.arange(-3.0, 3.0, 0.05)]))
    OM = np.unique(np.concatenate([np.linspace(0.02, 60.0, ck.pick(240, 4000)), np.arange(1.0, 61.0), np.arange(0.05, 3.0, 0.05)]))
    for g in (1.1, 1.25, 1.4, 5.0 / 3.0):
        m = ck.call("grid:PMFmmu", S.Mach_PMFmmu, X, g)
        if not isinstance(m, core.Failure):
            ok = m < 300
            ck.close("grid:PMFmmu", (prandtl_meyer(m, g) - np.degrees(np.arcsin(np.minimum(1.0, 1 / m))))[ok], X[ok], rtol=0, atol=2e-6 / np.maximum(m[ok], 1) + 1e-9, gamma=g, value=X[ok])
            for x, y in zip(X, m):
                ck.close("grid:PMFmmu:scalar", float(S.Mach_PMFmmu(float(x), gamma=g)), float(y), rtol=1e-9, gamma=g, value=x)
        m = ck.call("grid:inverse", S.Mach_PrandtlMeyer, OM, g)
        if not isinstance(m, core.Failure):
            ck.close("grid:inverse", prandtl_meyer(np.maximum(m, 1.0), g), OM, rtol=0, atol=2e-6, gamma=g, value=OM)
        for x in OM:
            m = ck.call("grid:inverse:scalar", S.Mach_PrandtlMeyer, float(x), g)
            if not isinstance(m, core.Failure):
                ck.close("grid:inverse:scalar", float(prandtl_meyer(max(m, 1.0), g)), x, rtol=0, atol=2e-6, gamma=g, value=x)
    for g in (1.05, 1.3, 1.4, 1.6, 5.0 / 3.0, 1.8, 1.9, 2.0):  # small angles: the function is steep
        sm = np.concatenate([np.linspace(1e-3, 3.0, ck.pick(3000, 30000)), np.geomspace(1e-9, 1.0, 300)])
        m = ck.call("small:inverse", S.Mach_PrandtlMeyer, sm, g)
        if not isinstance(m, core.Failure):
            ck.close("small:inverse", prandtl_meyer(np.maximum(m, 1.0), g), sm, rtol=0, atol=2e-6, gamma=g, value=sm)
        for x in sm[:: ck.pick(10, 5)]:
            m = ck.call("small:inverse:scalar", S.Mach_PrandtlMeyer, float(x), g)
            if not isinstance(m, core.Failure):
                ck.close("small:inverse:scalar", float(prandtl_meyer(max(m, 1.0), g)), x, rtol=0, atol=2e-6, gamma=g, value=x)
    for g in (1.1, 1.25, 1.4, 5.0 / 3.0):
        for M1 in np.concatenate([1 + np.geomspace(1e-4, 1e-2, ck.pick(3, 13)), np.geomspace(1.02, 28.0, ck.pick(7, 60)), [1.5, 2.0, 3.0]]):
            M1 = float(M1)
            nu1, top = float(prandtl_meyer(M1, g)), 90.0 * (np.sqrt((g + 1) / (g - 1)) - 1)
            D = np.unique(np.concatenate([np.arange(-40.0, 41.0), np.arange(-2.0, 2.01, 0.1), np.linspace(-30.0, 30.0, ck.pick(47, 400))]))
            D = D[(nu1 - D > 1e-3) & (nu1 - D < min(0.75 * top, 90.0))]

            def back(q):
                t = total_p_ratio(M1, g) / q
                m2 = np.sqrt(np.maximum(1.0, (np.expm1(np.log(t) * (g - 1) / g)) * 2 / (g - 1)))
                return nu1 - prandtl_meyer(m2, g)

            if D.size == 0:
                continue
            q = ck.call("grid:pratio", S.IsentropicPsratio_Mach_deflection, M1, D, g)
            if not isinstance(q, core.Failure) and D.size:
                ck.close("grid:pratio", back(q), D, rtol=0, atol=1e-5, gamma=g, M1=M1, deflection=D)
            for x in D:
                q = ck.call("grid:pratio:scalar", S.IsentropicPsratio_Mach_deflection, M1, float(x), gamma=g)
                if not isinstance(q, core.Failure):
                    ck.close("grid:pratio:scalar", float(back(q)), x, rtol=0, atol=1e-5, gamma=g, M1=M1, deflection=x)
        for M1 in np.concatenate([1 + np.geomspace(1e-4, 1e-2, ck.pick(5, 13)), np.geomspace(1.02, 300.0, ck.pick(23, 200)), [1.5, 2.0, 3.0, 100.0]]):
            M1 = float(M1)
            Q = np.unique(np.concatenate([np.geomspace(1e-3, 30.0, ck.pick(43, 400)), np.arange(0.05, 3.0, 0.05)]))
            Q = Q[total_p_ratio(M1, g) / Q > total_p_ratio(1.0 + 1e-9, g)]
            t = total_p_ratio(M1, g) / Q
            m2 = np.sqrt((np.expm1(np.log(t) * (g - 1) / g)) * 2 / (g - 1))
            w = prandtl_meyer(m2, g) - float(prandtl_meyer(M1, g))
            d = ck.call("grid:deflection", S.deflection_Mach_IsentropicPsratio, M1, Q, g)
            if not isinstance(d, core.Failure):
                ck.close("grid:deflection", d, w, rtol=1e-9, atol=1e-7 * g / (g - 1), gamma=g, M1=M1, ratio=Q)
            for x, y in zip(Q, w):
                ck.close("grid:deflection:scalar", float(S.deflection_Mach_IsentropicPsratio(M1, float(x), gamma=g)), float(y), rtol=1e-9, atol=1e-7 * g / (g - 1), gamma=g, M1=M1, ratio=x)
    # weak waves at all scales: absolute accuracy of rounding, far under the strength of the wave
    for g in gam:
        for M1 in (1.15, 1.5, 2.0, 3.7, 8.0):
            e = np.concatenate([s * np.geomspace(1e-9, 0.03, ck.pick(16, 61)) for s in (-1, 1)])
            M2 = M1 * (1 + e)
            P = np.exp(-(g / (g - 1)) * np.log1p(0.5 * (g - 1) * (M2 - M1) * (M2 + M1) / (1 + 0.5 * (g - 1) * M1 * M1)))
            T = prandtl_meyer(M2, g) - prandtl_meyer(M1, g)
            for form in ("array", "scalar"):
                if form == "array":
                    d = ck.call("weak:deflection", S.deflection_Mach_IsentropicPsratio, M1, P, g)
                    q = ck.call("weak:pratio", S.IsentropicPsratio_Mach_deflection, M1, -T, g)
                else:
                    d = [ck.call("weak:deflection", S.deflection_Mach_IsentropicPsratio, M1, float(x), g) for x in P]
                    q = [ck.call("weak:pratio", S.IsentropicPsratio_Mach_deflection, M1, float(-x), g) for x in T]
                    if any(isinstance(v, core.Failure) for v in d + q):
                        continue
                if not isinstance(d, core.Failure):
                    ck.close("weak:deflection", np.array(d, dtype=float), T, rtol=1e-9, atol=3e-12 * g / (g - 1) * M1, M1=M1, eps=e, gamma=g, form=form)
                if not isinstance(q, core.Failure):
                    ck.close("weak:pratio", np.array(q, dtype=float), P, rtol=2e-7 * M1 * g / (g - 1), M1=M1, eps=e, gamma=g, form=form)
    # representation
    ang = [0.5, 5.0, 12.0, 26.379760813416446, 40.0, 80.0]
    for g in (1.2, 1.4, 1.3):
        core.polymorphism(ck, "poly:omega", lambda x: S.PrandtlMeyer_Mach(x, g), [1.0, 1.05, 1.4, 2.0, 3.5, 9.0], big=(1.0, 20.0, 5001), ints=(1, 2, 3, 10), rtol=1e-11, atol=1e-11)
        core.polymorphism(ck, "poly:inverse", lambda x: S.Mach_PrandtlMeyer(x, g), ang, rtol=1e-6, big=(0.5, 90.0, 2001), ints=(1, 10, 45))
        core.polymorphism(ck, "poly:PMFmmu", lambda x: S.Mach_PMFmmu(x, g), [-89.0, -60.0, -20.0, 0.0, 30.0, 70.0], rtol=1e-9, big=(-89.0, 70.0, 2001), ints=(-30, 0, 45))
        core.polymorphism(ck, "poly:deflection", lambda x: S.deflection_Mach_IsentropicPsratio(3.0, x, g), [0.2, 0.5, 0.9, 1.0, 1.5], rtol=1e-9, atol=1e-9, ints=(1, 2))
        core.polymorphism(ck, "poly:pratio", lambda x: S.IsentropicPsratio_Mach_deflection(3.0, x, g), [-20.0, -5.0, 0.0, 1.0, 5.0], rtol=1e-5, ints=(-5, 0, 3))
    calls = []
    for g in (1.3, 1.4):
        for m in (1.5, 3.0):
            calls += [("omega(%g,%g)" % (m, g), lambda m=m, g=g: S.PrandtlMeyer_Mach(m, g)), ("inv(%g,%g)" % (m, g), lambda m=m, g=g: S.Mach_PrandtlMeyer(10 * m, g)),
                      ("mmu(%g,%g)" % (m, g), lambda m=m, g=g: S.Mach_PMFmmu(10 * m, g)), ("d(%g,%g)" % (m, g), lambda m=m, g=g: S.deflection_Mach_IsentropicPsratio(m, 0.9, g)),
                      ("p(%g,%g)" % (m, g), lambda m=m, g=g: S.IsentropicPsratio_Mach_deflection(m, -2.0, g))]
    core.histories(ck, "sequence", calls, depth=ck.pick(2, 3))
    dg.set_gamma(1.3)
    angle("default-gas-changed:", GAMMAS_Q, mach_axis(1.01, 20, 20))
    inverse("default-gas-changed:", (1.2, 1.4, 1.5), mach_axis(1.01, 20, 6))
    dg.set_gamma(1.4)
