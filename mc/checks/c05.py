import numpy as np

from mc import core
from mc.ref import GAMMAS, GAMMAS_Q

PROP = {
    "id": "C05",
    "title": "Oblique shock: angle, deflection and downstream Mach number",
    "statement": "For every upstream Mach number, gamma and shock angle, the flow deflection and the downstream Mach number are those of a normal shock with the tangential velocity kept. For every non-negative deflection below the largest one, the weak and the strong shock angles both produce that deflection on their own side of the maximum, the iterative solution is the weak one and is odd in the deflection; a larger deflection yields the Mach angle and a right angle. The maximum-deflection and sonic angles are the true maximum and the exactly sonic downstream state.",
    "quantifier": {"over": ["inputs", "histories"], "text": "Mach 1.01..100, gamma in [1.05,2], all shock angles between the Mach angle and 90 degrees, all fractions of the maximum deflection, both signs for the iterative solution, all call orders"},
    "why_tests_cant": "Tests sample a few Mach/angle pairs at gamma 1.4; root selection and convergence must hold over the whole Mach x angle x gamma space.",
    "anchors": {
        "files": ["aerokit/aero/ShockWave.py", "aerokit/aero/IterativeSolve.py", "aerokit/aero/degree.py"],
        "mechanism": [{"name": "closed-form cubic roots, secant iteration, characteristic angles", "where": "aerokit/aero/ShockWave.py"}],
        "observe_at": ["return values"],
    },
}
LEVEL = "exploration"
TECH = "bounded exhaustive enumeration of inputs and call sequences on the real code, against velocity-triangle oracle"
NOTE = "Complete over the stated lattice. Negative deflections of the closed-form roots are outside the claim."
RULE = "every point of the Mach x gamma x angle lattice, both roots, every argument representation, every pair of calls; non-trivial = non-zero deflection"


def triangle(M, sig, g):
    """deflection (deg) and downstream Mach by velocity triangles, a1 = 1"""
    s = np.radians(sig)
    un, ut = M * np.sin(s), M * np.cos(s)
    ps = 1 + 2 * g / (g + 1) * (un * un - 1)
    rh = (g + 1) * un * un / (2 + (g - 1) * un * un)
    un2 = un / rh
    d = np.degrees(s - np.arctan2(un2, ut))
    return d, np.sqrt((un2 * un2 + ut * ut) * rh / ps), ps


def run(ck):
    import aerokit.aero.ShockWave as sw

    sw = ck.each(sw, loose=("sigma_Mach_deflection", "deflection_Mach_ShockPsratio", "downstreamMach_Mach_ShockPsratio", "sigma_Sonic", "sigma_DevMax"), rtol=1e-10, atol=1e-10)
    from aerokit.common import defaultgas as dg

    MA = np.array([1.01, 1.05, 1.1, 1.2, 1.3, 1.4, 1.5, 1.7, 2.0, 2.4, 3.0, 4.0, 5.0, 7.0, 10.0, 20.0, 50.0, 100.0])
    if ck.thorough:
        MA = np.unique(np.concatenate([MA, np.geomspace(1.01, 100, 120)]))
    gam = [g for g in GAMMAS if g >= 1.05] if ck.thorough else GAMMAS_Q
    FR = np.unique(np.concatenate([[0.0, 1e-6, 1e-3, 0.01, 0.02, 0.97, 0.99, 0.999], np.linspace(0.05, 0.95, ck.pick(10, 91))]))
    T = np.linspace(0, 1, ck.pick(41, 401))

    def direct(tag, gammas, MA):
        for g in gammas:
            M, t = core.grid(MA, T)
            mu = np.degrees(np.arcsin(1 / M))
            sig = mu + t * (90 - mu)
            d, m2, ps = triangle(M, sig, g)
            got = ck.call(tag + "deflection", sw.deflection_Mach_sigma, M, sig, g)
            # 90 degrees exactly is a rounding-sensitive tangent
            ck.close(tag + "deflection", got, d, rtol=0, atol=2e-11 * 90 / 1, M=M, gamma=g, sigma=sig, nontrivial=(t > 0) & (t < 1))
            i = t < 1
            ck.close(tag + "deflection:odd", sw.deflection_Mach_sigma(M[i], -sig[i], gamma=g), -d[i], rtol=0, atol=2e-9, M=M[i], gamma=g, sigma=sig[i])
            i = (t > 0.004) & (t < 0.98)  # asin(Mn/M) is ill-conditioned at both ends
            a = ck.call(tag + "deflection(p)", sw.deflection_Mach_ShockPsratio, M[i], ps[i], g)
            ck.close(tag + "deflection(p)", a, d[i], rtol=0, atol=1e-8, M=M[i], gamma=g, p=ps[i])
            a = ck.call(tag + "Mach2(p)", sw.downstreamMach_Mach_ShockPsratio, M[i], ps[i], gamma=g)
            ck.close(tag + "Mach2(p)", a, m2[i], rtol=1e-9, M=M[i], gamma=g, p=ps[i])

    def extremes(tag, gammas, MA):
        for g in gammas:
            sm = np.asarray(ck.call(tag + "sigma_DevMax", sw.sigma_DevMax, MA, g), dtype=float)
            dm = np.asarray(ck.call(tag + "dev_Max", sw.dev_Max, MA, gamma=g), dtype=float)
            ss = np.asarray(ck.call(tag + "sigma_Sonic", sw.sigma_Sonic, MA, g), dtype=float)
            ds = np.asarray(ck.call(tag + "dev_Sonic", sw.dev_Sonic, MA, gamma=g), dtype=float)
            ck.close(tag + "dev_Max", dm, triangle(MA, sm, g)[0], rtol=0, atol=1e-8, M=MA, gamma=g)
            ck.close(tag + "dev_Sonic", ds, triangle(MA, ss, g)[0], rtol=0, atol=1e-8, M=MA, gamma=g)
            ck.close(tag + "sonic-downstream", triangle(MA, ss, g)[1], 1.0, rtol=1e-9, M=MA, gamma=g)
            mu = np.degrees(np.arcsin(1 / MA))
            for f in np.linspace(0, 1, 61):
                ck.true(tag + "maximum", triangle(MA, mu + f * (90 - mu), g)[0] <= dm + 1e-9, M=MA, gamma=g, fraction=f)
            # stationary point of the deflection
            h = 1e-3
            ck.true(tag + "stationary", np.abs(triangle(MA, sm + h, g)[0] - triangle(MA, sm - h, g)[0]) < 1e-7 + 1e-7 / (MA - 1), M=MA, gamma=g)
            ck.true(tag + "order", (ss <= sm + 1e-9) & (ds <= dm + 1e-9) & (ss >= mu - 1e-9) & (sm <= 90), M=MA, gamma=g)

    def roots(tag, gammas, MA, FR, iterative=True):
        for g in gammas:
            for M in MA:
                mu = np.degrees(np.arcsin(1 / M))
                ss = np.linspace(mu, 90, 4001)
                dd = triangle(M, ss, g)[0]
                j = int(np.argmax(dd))
                # refine the maximum by golden-section free ternary search
                a, b = ss[max(j - 1, 0)], ss[min(j + 1, 4000)]
                for _ in range(60):
                    c1, c2 = a + (b - a) / 3, b - (b - a) / 3
                    if triangle(M, c1, g)[0] < triangle(M, c2, g)[0]:
                        a = c1
                    else:
                        b = c2
                sm = 0.5 * (a + b)
                dm = triangle(M, sm, g)[0]
                for fr in FR:
                    d = float(fr * dm)
                    w = ck.call(tag + "weak", sw.weaksigma_Mach_deflection, M, d, g)
                    s = ck.call(tag + "strong", sw.strongsigma_Mach_deflection, M, d, gamma=g)
                    co = dict(M=M, gamma=g, fraction=fr, nontrivial=fr > 0)
                    if not isinstance(w, core.Failure):
                        ck.true(tag + "weak:side", mu - 1e-6 <= w <= sm + 1e-4, got=w, **co)
                        ck.close(tag + "weak:deflection", triangle(M, float(w), g)[0], d, rtol=1e-6, atol=1e-8, sigma=w, **co)
                    if not isinstance(s, core.Failure):
                        ck.true(tag + "strong:side", sm - 1e-4 <= s <= 90 + 1e-9, got=s, **co)
                        ck.close(tag + "strong:deflection", triangle(M, float(s), g)[0], d, rtol=1e-6, atol=1e-8, sigma=s, **co)
                    if iterative and not isinstance(w, core.Failure):
                        for sg in (1, -1):
                            v = ck.call(tag + "iterative", sw.sigma_Mach_deflection, M, sg * d, gamma=g)
                            if isinstance(v, core.Failure):
                                continue
                            v = float(v) * (sg if d > 0 else 1)
                            ck.close(tag + "iterative:weak", v, w, rtol=0, atol=2e-2, sign=sg, **co)
                            ck.close(tag + "iterative:deflection", triangle(M, v, g)[0], d, rtol=0, atol=1e-4, sigma=v, sign=sg, **co)
                        if 0.1 <= fr <= 0.9 and M >= 1.2 and M <= 20 and not isinstance(s, core.Failure):
                            for init in (70.0, 75.0, 80.0, 85.0, 89.0):
                                v = ck.call(tag + "iterative:guess", sw.sigma_Mach_deflection, M, d, init=init, gamma=g)
                                if isinstance(v, core.Failure):
                                    continue
                                dv = triangle(M, float(v), g)[0]
                                if g >= 1.2 and s > sm + 6 and abs(s - init) <= 2:  # guess close to the strong root
                                    ck.true(tag + "iterative:guess", abs(dv - d) < 1e-4 and v > sm, got=v, strong=s, init=init, **co)
                for k in (1.0005, 1.1, 1.5):
                    d = float(dm * k)
                    if d >= 90:
                        continue
                    w = ck.call(tag + "detached:weak", sw.weaksigma_Mach_deflection, M, d, g)
                    s = ck.call(tag + "detached:strong", sw.strongsigma_Mach_deflection, M, d, g)
                    if M >= 1.05 and not isinstance(w, core.Failure) and not isinstance(s, core.Failure):
                        ck.close(tag + "detached", w, mu, rtol=1e-9, M=M, gamma=g, factor=k, root="weak")
                        ck.close(tag + "detached", s, 90.0, rtol=1e-9, M=M, gamma=g, factor=k, root="strong")

    direct("", [g for g in GAMMAS if g >= 1.05], MA)
    extremes("", [g for g in GAMMAS if g >= 1.05], MA)
    roots("", gam, MA if ck.thorough else MA[[0, 2, 3, 6, 8, 10, 12, 14, 16, 17]], FR)
    # off the lattice, thinnest and strongest cases
    MB = np.array([1.003, 1.0171, 1.37, 2.83, 8.9, 33.7, 300.0, 1000.0])
    FB = np.array([1e-9, 1e-7, 3e-5, 0.00413, 0.1371, 0.6113, 0.9337, 1 - 1e-4, 1 - 1e-6])
    gb = (1.083, 1.29, 1.615) if not ck.thorough else (1.06, 1.083, 1.17, 1.29, 1.4, 1.615, 1.93)
    direct("off:", gb, MB)
    extremes("off:", gb, MB)
    roots("off:", gb, MB[(MB > 1.01) & (MB < 100)], FB)
    # closed forms on dense grids: Mach from 1+1e-6 to 3000, whole and fractional angles and ratios
    def naca(M, g):
        """angles (deg) of maximum deflection and of sonic downstream flow, from the square of their sine (NACA 1135)"""
        M2 = np.asarray(M, dtype=np.longdouble) ** 2
        g = np.longdouble(g)
        smax = ((g + 1) * M2 / 4 - 1 + np.sqrt((g + 1) * ((g + 1) * M2 * M2 / 16 + (g - 1) * M2 / 2 + 1))) / (g * M2)
        sson = ((g + 1) * M2 - (3 - g) + np.sqrt((g + 1) * ((g + 1) * M2 * M2 - 2 * (3 - g) * M2 + g + 9))) / (4 * g * M2)
        return smax, sson

    MD = np.unique(np.concatenate([1 + np.geomspace(1e-6, 0.3, ck.pick(40, 70)), np.geomspace(1.3, 3000.0, ck.pick(60, 110)), np.arange(2.0, 21.0)]))
    for g in (1.05, 1.17, 1.4, 1.615):
        smax, sson = naca(MD, g)
        for nm, f, w, fd in (("DevMax", sw.sigma_DevMax, smax, sw.dev_Max), ("Sonic", sw.sigma_Sonic, sson, sw.dev_Sonic)):
            a = np.degrees(np.arcsin(np.sqrt(np.minimum(1, w)))).astype(float)
            for form in ("array", "scalar"):
                v = np.asarray(ck.call("grid:sigma_" + nm, f, MD, g), float) if form == "array" else np.array([float(f(float(x), gamma=g)) for x in MD])
                ck.close("grid:sigma_" + nm, np.sin(np.radians(v)) ** 2, w.astype(float), rtol=1e-12, M=MD, gamma=g, form=form)
                v = np.asarray(ck.call("grid:dev_" + nm, fd, MD, gamma=g), float) if form == "array" else np.array([float(fd(float(x), g)) for x in MD])
                ck.close("grid:dev_" + nm, v, triangle(MD, a, g)[0], rtol=1e-8, atol=3e-11, M=MD, gamma=g, form=form)
        for M in MD:
            M, mu = float(M), float(np.degrees(np.arcsin(1 / M)))
            S = np.unique(np.concatenate([mu + (90 - mu) * np.linspace(0.0, 1.0, ck.pick(25, 61)), np.arange(1.0, 90.0, ck.pick(3.0, 1.0)), np.linspace(0.05, 3.0, 30)]))
            S = S[(S >= mu) & (S < 90)]
            d, m2, ps = triangle(M, S, g)
            ck.close("grid:deflection", ck.call("grid:deflection", sw.deflection_Mach_sigma, M, S, g), d, rtol=1e-11, atol=2e-11, M=M, gamma=g, sigma=S)
            k = (S - mu > 0.004 * (90 - mu)) & (S - mu < 0.98 * (90 - mu))
            ck.close("grid:deflection(p)", ck.call("grid:deflection(p)", sw.deflection_Mach_ShockPsratio, M, ps[k], g), d[k], rtol=1e-7, atol=1e-10, M=M, gamma=g, p=ps[k])
            ck.close("grid:Mach2(p)", ck.call("grid:Mach2(p)", sw.downstreamMach_Mach_ShockPsratio, M, ps[k], g), m2[k], rtol=1e-8, M=M, gamma=g, p=ps[k])
            for x, y, p, m in list(zip(S[k], d[k], ps[k], m2[k]))[:: ck.pick(3, 2)]:
                ck.close("grid:deflection:scalar", float(sw.deflection_Mach_sigma(M, float(x), gamma=g)), float(y), rtol=1e-11, atol=2e-11, M=M, gamma=g, sigma=x)
                ck.close("grid:deflection(p):scalar", float(sw.deflection_Mach_ShockPsratio(M, float(p), gamma=g)), float(y), rtol=1e-7, atol=1e-10, M=M, gamma=g, p=p)
                ck.close("grid:Mach2(p):scalar", float(sw.downstreamMach_Mach_ShockPsratio(M, float(p), gamma=g)), float(m), rtol=1e-8, M=M, gamma=g, p=p)
            P = np.arange(1.05, min(float(ps[-1]), 40.0), 0.25 if ck.thorough else 1.0)
            P = np.concatenate([P, np.arange(2.0, min(float(ps[-1]), 40.0) - 0.5)])
            if P.size:
                mn = np.sqrt(1 + (P - 1) * (g + 1) / (2 * g))
                P, mn = P[mn / M < 0.9997], mn[mn / M < 0.9997]
                x = np.degrees(np.arcsin(mn / M))
                ck.close("grid:whole(p)", np.asarray(sw.deflection_Mach_ShockPsratio(M, P, g), float), triangle(M, x, g)[0], rtol=1e-7, atol=1e-8, M=M, gamma=g, p=P)
            # roots of whole deflections
            dm = triangle(M, float(np.degrees(np.arcsin(np.sqrt(min(1.0, float(naca(M, g)[0])))))), g)[0]
            for x in np.concatenate([np.arange(1.0, 60.0), [0.1, 0.2, 0.5, 1.5, 2.5], dm * np.array([0.3, 0.77])]):
                x = float(x)
                if x > 0.995 * dm or M > 100 or M < 1.003:
                    continue
                sm = float(np.degrees(np.arcsin(np.sqrt(float(naca(M, g)[0])))))
                w, s = ck.call("grid:weak", sw.weaksigma_Mach_deflection, M, x, g), ck.call("grid:strong", sw.strongsigma_Mach_deflection, M, x, g)
                if not isinstance(w, core.Failure) and not isinstance(s, core.Failure):
                    ck.true("grid:roots", mu - 1e-9 <= w <= sm + 1e-6 and sm - 1e-6 <= s <= 90, M=M, gamma=g, deflection=x, weak=w, strong=s)
                    ck.close("grid:weak", triangle(M, float(w), g)[0], x, rtol=1e-6, atol=1e-8 + 1e-13 * M**4, M=M, gamma=g, deflection=x)
                    ck.close("grid:strong", triangle(M, float(s), g)[0], x, rtol=1e-6, atol=1e-8 + 1e-13 * M**4, M=M, gamma=g, deflection=x)
    # omitted gamma is 1.4
    for M, d in ((1.5, 4.0), (2.0, 10.0), (5.0, 30.0)):
        for nm, fn, a in (("deflection", sw.deflection_Mach_sigma, 50.0), ("deflection(p)", sw.deflection_Mach_ShockPsratio, 1.6), ("Mach2(p)", sw.downstreamMach_Mach_ShockPsratio, 1.6),
                          ("weak", sw.weaksigma_Mach_deflection, d), ("strong", sw.strongsigma_Mach_deflection, d), ("iterative", sw.sigma_Mach_deflection, d)):
            ck.true("default:" + nm, float(fn(M, a)) == float(fn(M, a, gamma=1.4)), M=M, arg=a)
        for nm, fn in (("dev_Max", sw.dev_Max), ("dev_Sonic", sw.dev_Sonic), ("sigma_DevMax", sw.sigma_DevMax), ("sigma_Sonic", sw.sigma_Sonic)):
            ck.true("default:" + nm, float(fn(M)) == float(fn(M, gamma=1.4)) == float(fn(M, 1.4)), M=M)
    # representation
    for g in (1.2, 1.4, 5.0 / 3.0):
        core.polymorphism(ck, "poly:deflection(sigma)", lambda x: sw.deflection_Mach_sigma(3.0, x, g), [20.0, 30.0, 45.0, 66.0, 80.0, 89.0], big=(20, 89.9, 2001), ints=(20, 45, 80), rtol=1e-10, atol=1e-10)
        core.polymorphism(ck, "poly:deflection(M)", lambda x: sw.deflection_Mach_sigma(x, 60.0, g), [1.2, 2.0, 3.5, 8.0], big=(1.2, 20, 2001), ints=(2, 3, 10), rtol=1e-10, atol=1e-10)
        core.polymorphism(ck, "poly:deflection(p)", lambda x: sw.deflection_Mach_ShockPsratio(4.0, x, g), [1.2, 2.0, 5.0, 10.0], big=(1.1, 12, 2001), ints=(2, 3, 10), rtol=1e-9, atol=1e-9)
        core.polymorphism(ck, "poly:Mach2(p)", lambda x: sw.downstreamMach_Mach_ShockPsratio(4.0, x, g), [1.2, 2.0, 5.0, 10.0], big=(1.1, 12, 2001), ints=(2, 3, 10), rtol=1e-9)
        for nm, fn in (("dev_Max", sw.dev_Max), ("dev_Sonic", sw.dev_Sonic), ("sigma_DevMax", sw.sigma_DevMax), ("sigma_Sonic", sw.sigma_Sonic)):
            core.polymorphism(ck, "poly:" + nm, lambda x: fn(x, g), [1.05, 1.3, 2.0, 3.7, 8.0], big=(1.05, 20.0, 2001), ints=(2, 3, 10), rtol=1e-9, atol=1e-9)
        core.polymorphism(ck, "poly:iterative(d)", lambda x: sw.sigma_Mach_deflection(3.0, x, gamma=g), [-10.0, -2.0, 0.5, 4.0, 12.0, 17.0], ints=(2, 10), rtol=1e-6)
    calls = []
    for g in (1.3, 1.4):
        for M, d in ((2.0, 5.0), (4.0, 20.0)):
            for nm, fn, a in (("deflection", sw.deflection_Mach_sigma, 50.0), ("weak", sw.weaksigma_Mach_deflection, d), ("strong", sw.strongsigma_Mach_deflection, d), ("iterative", sw.sigma_Mach_deflection, d)):
                calls.append(("%s(%g,%g)" % (nm, M, g), lambda fn=fn, M=M, a=a, g=g: fn(M, a, gamma=g)))
            calls.append(("detached(%g,%g)" % (M, g), lambda M=M, g=g: sw.weaksigma_Mach_deflection(M, 70.0, g)))
            calls.append(("dev_Max(%g,%g)" % (M, g), lambda M=M, g=g: sw.dev_Max(M, g)))
    core.histories(ck, "sequence", calls, depth=2)
    dg.set_gamma(1.3)
    direct("default-gas-changed:", GAMMAS_Q, MA[[4, 8, 12]])
    extremes("default-gas-changed:", GAMMAS_Q, MA[[4, 8, 12]])
    roots("default-gas-changed:", (1.2, 1.4, 1.5), MA[[4, 8]], np.array([0.0, 0.3, 0.8]))
    dg.set_gamma(1.4)
