import numpy as np
from scipy.integrate import solve_ivp

from mc import core
from mc.checks.c05 import triangle

PROP = {
    "id": "C06",
    "title": "Conical shock: wall deflection and its two inverses",
    "statement": "For every upstream Mach number, gamma and shock angle, the cone angle is the one of the self-similar inviscid conical flow behind the shock, and it is null for a Mach wave and for a normal shock. The shock angle recovered from Mach number and cone angle is the weak solution, and the Mach number recovered from cone and shock angles is the original one. Every call on an attached cone terminates, and a cone which is too open yields the Mach angle.",
    "quantifier": {"over": ["inputs", "histories"], "text": "Mach 1.05..30, gamma in [1.05,2], shock angles over the whole interval between Mach wave (0.4% of the interval away from it) and normal shock, cones from about 2 degrees to detachment, all call orders"},
    "why_tests_cant": "Three single values at gamma 1.4 are tested; accuracy, root selection and termination of the nested iterations are statements on the whole domain.",
    "anchors": {
        "files": ["aerokit/aero/ShockWave.py", "aerokit/common/_ode.py", "aerokit/aero/IterativeSolve.py"],
        "mechanism": [{"name": "adaptive integration of the conical flow from shock to wall", "where": "aerokit/aero/ShockWave.py"}],
        "observe_at": ["return values", "termination"],
    },
}
LEVEL = "exploration"
TECH = "bounded exhaustive enumeration of inputs on the real code, against an independent Taylor-Maccoll integration"
NOTE = "Complete over the stated lattice; accuracy is judged at 2e-4 degree against an order-8 integration in velocity components."
RULE = "every point of the Mach x gamma x shock-angle lattice for the direct problem and both inverses; non-trivial = non-zero cone angle"


def cone(M, sig, g):
    """wall angle by integration of (vr, vtheta)"""
    s = np.radians(sig)
    un, ut = M * np.sin(s), M * np.cos(s)
    rh = (g + 1) * un * un / (2 + (g - 1) * un * un)
    vmax = np.sqrt(2 * (1 + 0.5 * (g - 1) * M * M) / (g - 1))

    def f(th, y):
        vr, vt = y
        a2 = (g - 1) / 2 * (1 - vr * vr - vt * vt)
        return [vt, (vt * vt * vr - a2 * (2 * vr + vt / np.tan(th))) / (a2 - vt * vt)]

    ev = lambda t, y: y[1]
    ev.terminal = True
    r = solve_ivp(f, (s, 1e-6), [ut / vmax, -un / rh / vmax], events=ev, rtol=1e-10, atol=1e-12, method="DOP853")
    return float(np.degrees(r.t[-1]))


def run(ck):
    import aerokit.aero.ShockWave as sw
    from aerokit.common import defaultgas as dg

    GA = ck.pick((1.05, 1.2, 1.4, 5.0 / 3.0, 2.0), (1.05, 1.1, 1.2, 1.3, 1.4, 1.5, 5.0 / 3.0, 2.0))
    MA = ck.pick((1.05, 1.2, 1.5, 2.0, 3.0, 5.0, 10.0, 30.0), (1.05, 1.1, 1.2, 1.3, 1.5, 1.7, 2.0, 2.5, 3.0, 4.0, 5.0, 7.0, 10.0, 20.0, 30.0))
    FR = ck.pick((0.02, 0.05, 0.1, 0.2, 0.35, 0.5, 0.65, 0.8, 0.9, 0.97), tuple(np.concatenate([[0.01, 0.02, 0.03], np.linspace(0.05, 0.95, 31), [0.97, 0.99]])))
    ref = {}

    def direct(tag, GA, MA, FR):
        for g in GA:
            for M in MA:
                mu = np.degrees(np.arcsin(1 / M))
                for fr in FR:
                    s = mu + fr * (90 - mu)
                    if (g, M, fr) not in ref:
                        ref[g, M, fr] = cone(M, s, g)
                    w = ref[g, M, fr]
                    v = ck.call(tag + "cone", sw.conical_deflection_Mach_sigma, M, s, g)
                    ck.close(tag + "cone", v, w, rtol=0, atol=2e-4, M=M, gamma=g, sigma=s)
                    if not isinstance(v, core.Failure):
                        ck.true(tag + "cone>wedge", v > triangle(M, s, g)[0], M=M, gamma=g, sigma=s)
                for s, nm in ((90.0, "normal"), (mu, "mach-wave")):
                    v = ck.call(tag + "null", sw.conical_deflection_Mach_sigma, M, s, gamma=g)
                    # asin(1/M) may fall a rounding above the Mach wave: the limit is quarter-power
                    ck.true(tag + "null", not isinstance(v, core.Failure) and abs(v) < 1.0, M=M, gamma=g, case=nm, nontrivial=False)

    def inverse(tag, GA, MA, FR):
        for g in GA:
            for M in MA:
                mu = np.degrees(np.arcsin(1 / M))
                vals = [(fr, mu + fr * (90 - mu), ref.get((g, M, fr))) for fr in FR]
                vals = [(fr, s, d if d is not None else cone(M, s, g)) for fr, s, d in vals]
                top = max(d for _, _, d in vals)
                for i, (fr, s, d) in enumerate(vals):
                    if d < 2.0:
                        continue
                    rising = cone(M, s + 2e-3 * (90 - mu), g) > d
                    if rising:
                        v = ck.call(tag + "sigma", sw.conical_sigma_Mach_walldeflection, M, d, g)
                        if not isinstance(v, core.Failure):
                            ck.close(tag + "sigma", float(v), s, rtol=0, atol=3e-3 if cone(M, s + 0.1 * (90 - s), g) > d else 5e-2, M=M, gamma=g, cone=d)
                    elif d < 0.98 * top:  # strong-side cone: the answer is the weak shock of the same cone
                        v = ck.call(tag + "sigma", sw.conical_sigma_Mach_walldeflection, M, d, gamma=g)
                        if not isinstance(v, core.Failure):
                            ck.true(tag + "weak", v < s, M=M, gamma=g, cone=d, got=v)
                            ck.close(tag + "weak:cone", cone(M, float(v), g), d, rtol=0, atol=1e-3, M=M, gamma=g, cone=d)
                    if M * np.sin(np.radians(s)) >= 1.02:
                        v = ck.call(tag + "Mach", sw.conical_Mach_walldeflection_sigma, d, s, g)
                        if not isinstance(v, core.Failure):
                            ck.close(tag + "Mach", float(v), M, rtol=2e-4, M=M, gamma=g, cone=d, sigma=s)
                for k in (1.05, 1.3):
                    if top * k < 85:
                        fine = max(cone(M, mu + f * (90 - mu), g) for f in np.linspace(0.2, 0.9, 29))
                        v = ck.call(tag + "detached", sw.conical_sigma_Mach_walldeflection, M, k * fine, g)
                        if not isinstance(v, core.Failure):
                            ck.close(tag + "detached", float(v), mu, rtol=1e-9, M=M, gamma=g, factor=k)

    direct("", GA, MA, FR)
    IM = ck.pick((1.2, 2.0, 4.0), MA)
    IF = ck.pick((0.05, 0.2, 0.5, 0.8), (0.02, 0.05, 0.1, 0.2, 0.35, 0.5, 0.65, 0.8, 0.95))
    inverse("", ck.pick((1.2, 1.4, 5.0 / 3.0), GA), IM, IF)
    # off the lattice, close to the Mach wave and to the normal shock
    direct("off:", ck.pick((1.13, 1.33), (1.013, 1.13, 1.33, 1.72)), ck.pick((1.07, 1.37, 2.71, 6.6, 27.0), (1.07, 1.13, 1.37, 2.2, 2.71, 4.4, 6.6, 17.3, 27.0)), ck.pick((0.007, 0.13, 0.44, 0.77, 0.993), (0.004, 0.007, 0.04, 0.13, 0.28, 0.44, 0.61, 0.77, 0.88, 0.993, 0.999)))
    direct("near-normal:", ck.pick((1.2, 1.4, 1.72), (1.05, 1.2, 1.33, 1.4, 1.72, 2.0)), ck.pick((1.5, 2.0, 17.3), (1.07, 1.5, 2.0, 3.0, 8.0, 17.3, 27.0)), ck.pick((0.996, 0.998, 0.999, 0.9993, 0.9999, 0.99999, 1 - 1e-7), tuple(1 - 10.0 ** -np.linspace(2.2, 8, 30))))
    inverse("off:", ck.pick((1.27,), (1.13, 1.27, 1.72)), ck.pick((1.37, 6.6), (1.37, 2.71, 6.6, 17.3)), ck.pick((0.13, 0.44, 0.7), (0.07, 0.13, 0.28, 0.44, 0.61, 0.7)))
    # omitted gamma, argument forms
    ck.true("default", sw.conical_deflection_Mach_sigma(2.0, 40.0) == sw.conical_deflection_Mach_sigma(2.0, 40.0, 1.4), what="cone")
    ck.true("default", float(sw.conical_sigma_Mach_walldeflection(2.0, 20.0)) == float(sw.conical_sigma_Mach_walldeflection(2.0, 20.0, 1.4)), what="sigma")
    ck.true("default", float(sw.conical_Mach_walldeflection_sigma(20.0, 40.0)) == float(sw.conical_Mach_walldeflection_sigma(20.0, 40.0, 1.4)), what="Mach")
    ck.close("tolerance", sw.conical_deflection_Mach_sigma(2.0, 40.0, 1.4, tol=1e-8), cone(2.0, 40.0, 1.4), rtol=0, atol=1e-6)
    ck.true("forms", abs(sw.conical_deflection_Mach_sigma(np.float64(2), np.float64(40), 1.4) - sw.conical_deflection_Mach_sigma(2, 40, 1.4)) < 1e-4, form="np.float64/int")
    core.polymorphism(ck, "poly:sigma", lambda x: sw.conical_sigma_Mach_walldeflection(3.0, x, 1.4), [10.0, 20.0, 30.0], rtol=1e-7, ints=(20,), skip=("3d", "F-order"))
    calls = []
    for g in (1.3, 1.4):
        for m, s in ((2.0, 40.0), (4.0, 50.0)):
            calls.append(("cone(%g,%g,%g)" % (m, s, g), lambda m=m, s=s, g=g: sw.conical_deflection_Mach_sigma(m, s, g)))
        calls.append(("sigma(%g)" % g, lambda g=g: sw.conical_sigma_Mach_walldeflection(3.0, 20.0, g)))
        calls.append(("Mach(%g)" % g, lambda g=g: sw.conical_Mach_walldeflection_sigma(20.0, 40.0, g)))
    core.histories(ck, "sequence", calls, depth=2)
    dg.set_gamma(1.25)
    direct("default-gas-changed:", (1.2, 1.4), (1.5, 3.0), (0.2, 0.5, 0.8))
    inverse("default-gas-changed:", (1.4,), (2.0,), (0.2, 0.5))
    dg.set_gamma(1.4)
    # known limit: Mach number from a cone behind a shock very close to a Mach wave
    s = 30.0
    d = cone(2.01, s, 1.4)
    v = float(sw.conical_Mach_walldeflection_sigma(d, s, 1.4))
    if not abs(v / 2.01 - 1) < 1e-2:
        ck.violation("Mach:near-mach-wave-infinite", M=2.01, sigma=30.0, gamma=1.4)
