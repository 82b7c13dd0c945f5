import numpy as np

from mc import core
from mc.ref import area_ratio, total_p_ratio

PROP = {
    "id": "C31",
    "title": "Thrust function, its inverse and the secant solver",
    "statement": "For every Mach number and gas, the thrust function is the stream thrust over total pressure and critical area, smallest at Mach one and monotone on each side, and its inverse started on either side of Mach one at a reasonable distance gives back the Mach number of that side. The secant solver solves every affine equation from any start and every smooth monotone equation from a close start to its tolerance, element by element for arrays.",
    "quantifier": {"over": ["inputs"], "text": "Mach numbers x gases; Mach numbers x starts for the inverse; families of equations x roots x starts"},
    "why_tests_cant": "No existing test covers these modules; convergence depends on the start and the root.",
    "anchors": {
        "files": ["aerokit/aero/Propulsion.py", "aerokit/aero/IterativeSolve.py"],
        "mechanism": [{"name": "secant iterations", "where": "aerokit/aero/IterativeSolve.py"}],
        "observe_at": ["return values"],
    },
}
LEVEL = "exploration"
TECH = "bounded exhaustive enumeration of arguments, roots and starts on the real code against independent relations"
NOTE = "Complete over the stated lattice; far starts, where secant iterations may leave the domain, are not claimed."
RULE = "every Mach x gas, every root x start x equation; non-trivial = start different from the root"


def run(ck):
    import aerokit.aero.Propulsion as pr

    pr = ck.each(pr, loose=("Mach_ThrustFunction",))
    from aerokit.aero.IterativeSolve import secant_solve

    n = ck.pick(60, 400)
    sub, sp = np.linspace(0.05, 0.999, n), np.linspace(1.001, 8.0, n)
    M = np.concatenate([sub, [1.0], sp])
    for g in (1.1, 1.2, 1.3, 1.4, 5.0 / 3.0, 1.9):
        v = ck.call("thrust", pr.ThrustFunction, M, g)
        if isinstance(v, core.Failure):
            continue
        ck.close("thrust", v, area_ratio(M, g) * (1 + g * M * M) / total_p_ratio(M, g), rtol=1e-10, M=M, gamma=g)
        ck.true("thrust:monotone", np.diff(v) * np.where(M[1:] <= 1, -1, 1) > 0, M=M[1:], gamma=g)
        for i in range(0, len(M), 7):
            ck.close("thrust:scalar", ck.call("thrust", pr.ThrustFunction, float(M[i]), gamma=g), float(v[i]), rtol=1e-12, M=float(M[i]), gamma=g)
        if g == 1.4:
            ck.close("thrust:default", ck.call("thrust", pr.ThrustFunction, M), v, rtol=1e-13, M=M)
        for m in np.concatenate([np.linspace(0.3, 0.93, ck.pick(8, 40)), np.linspace(1.1, 5.0, ck.pick(14, 60))]):
            f = float(area_ratio(m, g) * (1 + g * m * m) / total_p_ratio(m, g))
            # starts at 0.4 to 1.9 times the distance to sonic conditions
            for s in (0.4, 0.5, 0.7, 0.9, 0.999, 1.001, 1.1, 1.3, 1.6, 1.9):
                s = float(1 + (m - 1) * s)
                if abs(s - 1) < 0.03 or m < 1 and not 0.5 <= s / m <= 1.5 or m < 1 and not 0.5 <= (1 - s) / (1 - m) <= 1.5:
                    continue
                r = ck.call("inverse", pr.Mach_ThrustFunction, f, s, gamma=g, ctx=dict(M=m, start=s))
                ck.close("inverse", r if isinstance(r, core.Failure) else float(r), float(m), rtol=2e-4, M=m, start=s, gamma=g)
            if 1.6 < m < 2.5:
                r = ck.call("inverse", pr.Mach_ThrustFunction, f, gamma=g)
                ck.close("inverse:default-start", r if isinstance(r, core.Failure) else float(r), float(m), rtol=2e-4, M=m, gamma=g)
        m = np.array([1.5, 1.8, 2.2, 2.6])
        f = area_ratio(m, g) * (1 + g * m * m) / total_p_ratio(m, g)
        r = ck.call("inverse:array", pr.Mach_ThrustFunction, f, m * 1.05, gamma=g)
        ck.close("inverse:array", r, m, rtol=2e-4, M=m, gamma=g)

        # from very low to very high Mach numbers, near sonic conditions, reversed flow
        far = np.unique(np.concatenate([np.geomspace(1e-5, 300.0, ck.pick(120, 900)), 1 + np.geomspace(1e-9, 0.1, 20), 1 - np.geomspace(1e-9, 0.1, 20), np.arange(1.0, 31.0)]))
        w = area_ratio(far, g) * (1 + g * far * far) / total_p_ratio(far, g)
        for sg in (1, -1):
            ck.close("thrust:far", ck.call("thrust:far", pr.ThrustFunction, sg * far, g), sg * w, rtol=1e-10, M=sg * far, gamma=g)
            ck.close("thrust:far:scalar", np.array([float(pr.ThrustFunction(float(sg * x), gamma=g)) for x in far]), sg * w, rtol=1e-10, M=sg * far, gamma=g)
        ck.close("thrust:integer", np.array([float(pr.ThrustFunction(int(x), g)) for x in range(1, 31)]), w[np.isin(far, np.arange(1.0, 31.0))], rtol=1e-10, gamma=g)
    G = np.linspace(1.03, 2.0, ck.pick(60, 600))
    for m in (0.137, 0.9, 1.0, 1.1, 2.7, 13.0):
        ck.close("thrust:gamma", pr.ThrustFunction(m, G), area_ratio(m, G) * (1 + G * m * m) / total_p_ratio(m, G), rtol=1e-10, M=m, gamma=G)
        ck.close("thrust:gamma:scalar", np.array([float(pr.ThrustFunction(m, float(g))) for g in G]), area_ratio(m, G) * (1 + G * m * m) / total_p_ratio(m, G), rtol=1e-10, M=m, gamma=G)

    # secant solver
    roots = np.concatenate([-np.geomspace(1e-3, 1e3, ck.pick(7, 25)), np.geomspace(1e-3, 1e3, ck.pick(7, 25))])
    starts = np.concatenate([-np.geomspace(1e-3, 1e3, ck.pick(6, 21)), [0.0], np.geomspace(1e-2, 1e3, ck.pick(6, 21))])
    for a in (-30.0, -1.0, 0.01, 1.0, 1e4):
        for b in (-5.0, 0.0, 2.0):
            for x in roots:
                for s in starts:
                    r = ck.call("affine", secant_solve, lambda t: a * t + b, a * x + b, s)
                    if not isinstance(r, core.Failure):
                        ck.true("affine", bool(abs(float(r) - x) <= 1.1e-5 * max(1.0, abs(x), 1e-3 * abs(s))), nontrivial=bool(s != x), slope=a, offset=b, root=x, start=s, got=float(r))
    FAM = {
        "exp": (np.exp, np.linspace(-3, 3, ck.pick(7, 31))),
        "cube": (lambda t: t**3 + t, np.linspace(-4, 4, ck.pick(8, 30))),
        "atan": (np.arctan, np.linspace(-1.5, 1.5, ck.pick(8, 30))),
        "log": (np.log, np.geomspace(0.2, 50, ck.pick(8, 30))),
        "sqrt": (np.sqrt, np.geomspace(0.2, 50, ck.pick(8, 30))),
        "inverse": (lambda t: 1 / t, np.concatenate([-np.geomspace(0.2, 50, ck.pick(5, 15)), np.geomspace(0.2, 50, ck.pick(5, 15))])),
    }
    # steeper equations and farther starts: more iterations, still well under the allowed number
    for k, x, s in [(k, x, x * q) for k in (3, 4, 5, -2) for x in (0.4, 1.0, 3.0, -2.0) for q in (0.7, 0.8, 1.25, 1.4)] + [("exp", x, x + q) for x in (-1.0, 0.0, 2.0, 3.0) for q in (-1.0, -0.6, 0.6, 1.0)]:
        f = np.exp if k == "exp" else lambda t, k=k: t ** float(k) if t > 0 else (-1) ** k * (-t) ** float(k)
        r = ck.call("steep", secant_solve, f, float(f(x)), s)
        if not isinstance(r, core.Failure):
            ck.close("steep", float(r), float(x), rtol=1e-5, atol=1e-5, family=str(k), root=float(x), start=s)
    # roots and values of every size
    for k in (2, 3, -1, 0.5):
        for x in np.concatenate([-np.geomspace(0.1, 1e8, ck.pick(28, 91)), np.geomspace(0.1, 1e8, ck.pick(28, 91))]):
            for c in (1.0, 1e-9, -1e9):
                for q in (0.7, 0.9, 0.99, 1.1, 1.4):
                    f = lambda t, k=k, c=c: c * (float(t) ** k if t > 0 else -((-float(t)) ** k))
                    r = ck.call("scaled", secant_solve, f, f(x), float(x) * q)
                    if not isinstance(r, core.Failure):
                        ck.close("scaled", float(r), float(x), rtol=1e-5, atol=1e-5, power=k, root=float(x), factor=c, start=q)
    for nm, (f, X) in FAM.items():
        got = []
        for x in X:
            for d in (-0.15, -0.03, 0.03, 0.15):
                s = float(x) + d * max(abs(x), 0.3)
                calls = []

                def g(t):
                    calls.append(t)
                    return f(t)

                r = ck.call("smooth", secant_solve, g, float(f(x)), s)
                if not isinstance(r, core.Failure):
                    ck.close("smooth", float(r), float(x), rtol=1e-5, atol=1e-5, family=nm, root=float(x), start=s)
                    ck.true("smooth:bounded", len(calls) <= 100, family=nm, root=float(x), start=s)
        xs = X[1:4]
        r = ck.call("array", secant_solve, f, f(xs), xs * 1.05)
        if not isinstance(r, core.Failure):
            ck.close("array", r, xs, rtol=1e-5, atol=1e-5, family=nm, root=xs)
        # a start at the root gives the root; a tolerance is honoured
        for x in X[np.abs(X) > 0.1]:
            r = ck.call("at-root", secant_solve, f, f(x), x)
            ck.close("at-root", r if isinstance(r, core.Failure) else float(r), float(x), rtol=1e-5, atol=1e-5, family=nm, root=float(x))
            r = ck.call("tolerance", secant_solve, f, f(x), x * 1.05, 1e-10)
            ck.close("tolerance", r if isinstance(r, core.Failure) else float(r), float(x), rtol=1e-9, family=nm, root=float(x))
