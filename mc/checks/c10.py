import itertools

import numpy as np

from mc import core, riem

PROP = {
    "id": "C10",
    "title": "Riemann problem: exact solution of two arbitrary states",
    "statement": "For every pair of left and right states which does not open a vacuum, the intermediate pressure and velocity are common to both sides and linked to each outer state by an entropy-satisfying shock or expansion, and the wave speeds are those of these waves, in increasing order. The solution is independent of the frame of reference, is mirrored when the problem is mirrored, is left unaltered when both states are equal, and never alters the given states. A pair of states which opens a vacuum is refused with an error instead of a wrong solution.",
    "quantifier": {"over": ["inputs", "histories"], "text": "all ordered pairs of 12 (thorough 22) states x pairs of gammas from 1.05 to 2 (equal or not), velocity offsets, mirror images, and all orders of construction"},
    "why_tests_cant": "Tests solve a few tubes at gamma 1.4; the wave pattern decision and convergence must be right for any pair of states and gases.",
    "anchors": {
        "files": ["aerokit/instance/riemann.py", "aerokit/aero/unsteady1D.py", "aerokit/aero/ShockWave.py"],
        "mechanism": [{"name": "solution of the pressure equation, intermediate states and wave speeds", "where": "aerokit/instance/riemann.py"}],
        "observe_at": ["pstar, ustar, qstarL, qstarR, left_fastest, right_fastest"],
    },
}
LEVEL = "exploration"
TECH = "bounded exhaustive enumeration of state pairs on the real code, against jump conditions, Riemann invariants and an independent bisection solver"
NOTE = "Complete over the stated product of states and gammas, which contains every wave pattern."
RULE = "every ordered pair of states x gamma pair, its mirror image and its translations; non-trivial = left and right states differ"


def waves(R, default):
    return getattr(R, "_waves", default)


def run(ck):
    from aerokit.aero.unsteady1D import unsteady_state as US
    from aerokit.aero import model1D
    from aerokit.common import defaultgas as dg
    from aerokit.instance.riemann import riemann_pb

    patterns = {}

    def summary(R):
        return [float(v) for v in (R.pstar(), R.ustar(), R.left_fastest(), R.right_fastest(), R.qstarL().rho, R.qstarR().rho)]

    def one(tag, a, gL, b, gR, full=True):
        case = "L%s g=%g R%s g=%g" % (a, gL, b, gR)
        if riem.vacuum(a, gL, b, gR):
            try:
                riemann_pb(US(*a, gL), US(*b, gR))
                ck.true(tag + "vacuum-refused", False, case=case)
            except Exception as e:
                ck.true(tag + "vacuum-refused", isinstance(e, (ValueError, ArithmeticError, RuntimeError, AssertionError)), case=case)
            return None
        qL, qR = US(*a, gamma=gL), US(*b, gamma=gR)
        before = core.snapshot(qL), core.snapshot(qR)
        R = ck.call(tag + "solve", riemann_pb, qL, qR, ctx={"case": case})
        if isinstance(R, core.Failure):
            return None
        ck.true(tag + "input-unchanged", core.kept(before[0], core.snapshot(qL)) and core.kept(before[1], core.snapshot(qR)), case=case)
        nt = a != b
        sol = riem.solve(a, gL, b, gR)
        w = riem.speeds(a, gL, b, gR, sol)
        P, U = float(R.pstar()), float(R.ustar())
        sc = max(np.sqrt(gL * a[2] / a[0]), np.sqrt(gR * b[2] / b[0]), abs(a[1]), abs(b[1]))
        k = 2 * max(gL, gR) / (min(gL, gR) - 1)
        ck.close(tag + "pstar", P, float(sol[0]), rtol=1e-11 * (1 + k), atol=1e-13 * max(a[2], b[2]), nontrivial=nt, case=case)
        ck.close(tag + "ustar", U, float(sol[1]), rtol=0, atol=1e-9 * sc, nontrivial=nt, case=case)
        SL, SR = R.qstarL(), R.qstarR()
        ck.true(tag + "contact", abs(SL.p - P) <= 1e-14 * P and abs(SR.p - P) <= 1e-14 * P and abs(SL.u - U) <= 1e-12 * sc and abs(SR.u - U) <= 1e-12 * sc, case=case)
        ck.true(tag + "gamma", SL._gamma == gL and SR._gamma == gR, case=case)
        W = [float(v) for v in waves(R, w)]
        patt = ""
        for side, q, g, S, s, i, j in (("left", a, gL, SL, -1, 0, 1), ("right", b, gR, SR, 1, 4, 3)):
            r0, u0, p0 = q
            a0 = np.sqrt(g * p0 / r0)
            co = dict(case=case, side=side, nontrivial=nt)
            if sol[0] > p0 * (1 + 1e-12):
                patt += "S"
                D = W[i]
                ck.true(tag + "shock-speed", abs(W[i] - W[j]) <= 1e-12 * sc, **co)
                f0 = r0 * (u0 - D), r0 * (u0 - D) ** 2 + p0, g / (g - 1) * p0 / r0 + 0.5 * (u0 - D) ** 2
                f1 = S.rho * (U - D), S.rho * (U - D) ** 2 + P, g / (g - 1) * P / S.rho + 0.5 * (U - D) ** 2
                for n, x, y in zip(("mass", "momentum", "enthalpy"), f0, f1):
                    ck.close(tag + "shock:" + n, float(y), float(x), rtol=1e-8 * (1 + sc / a0), atol=0, **co)
                ck.true(tag + "shock:entropy", S.rho >= r0 * (1 - 1e-13), **co)
                ck.true(tag + "shock:lax", s * (D - u0) >= a0 * (1 - 1e-9) and s * (D - U) <= np.sqrt(g * P / S.rho) * (1 + 1e-9), **co)
            elif sol[0] < p0 * (1 - 1e-12):
                patt += "E"
                ck.close(tag + "expansion:isentropic", float(S.rho), float(r0 * (P / p0) ** (1 / g)), rtol=1e-12 * k, **co)
                a1 = np.sqrt(g * P / S.rho)
                ck.close(tag + "expansion:invariant", float(U - s * 2 * a1 / (g - 1)), float(u0 - s * 2 * a0 / (g - 1)), rtol=0, atol=1e-9 * (sc + 2 * a0 / (g - 1)), **co)
                ck.close(tag + "expansion:head", W[i], float(u0 + s * a0), rtol=0, atol=1e-12 * sc, **co)
                ck.close(tag + "expansion:tail", W[j], float(U + s * a1), rtol=0, atol=1e-12 * sc, **co)
            else:
                patt += "-"
        patterns[patt] = patterns.get(patt, 0) + 1
        ck.close(tag + "waves", np.array(W), np.array(w, dtype=float), rtol=0, atol=1e-7 * sc, nontrivial=nt, wave=np.arange(5), case=case)
        ck.true(tag + "waves:order", bool(np.all(np.diff(W) >= -1e-9 * sc)), case=case)
        ck.true(tag + "waves:accessors", max(abs(R.left_fastest() - W[0]), abs(R.right_fastest() - W[4]), abs(W[2] - U)) <= 1e-12 * sc, case=case)
        if full:
            m = riemann_pb(US(b[0], -b[1], b[2], gR), US(a[0], -a[1], a[2], gL))
            ck.close(tag + "mirror", np.array([float(m.pstar()) / P, -float(m.ustar()) / sc] + [-v / sc for v in waves(m, [-v for v in W[::-1]])[::-1]], dtype=float), np.array([1.0, U / sc] + [v / sc for v in W]), rtol=0, atol=1e-9, case=case)
            for du in (sc, -3.0 * sc):
                m = riemann_pb(US(a[0], a[1] + du, a[2], gL), US(b[0], b[1] + du, b[2], gR))
                ck.close(tag + "frame", np.array([float(m.pstar()) / P, (float(m.ustar()) - du) / sc] + [(v - du) / sc for v in waves(m, [v + du for v in W])], dtype=float), np.array([1.0, U / sc] + [v / sc for v in W]), rtol=0, atol=1e-7, du=du, case=case)
            # units: pressure and density scaled together, velocities unchanged
            m = riemann_pb(US(a[0] * 1e3, a[1], a[2] * 1e3, gL), US(b[0] * 1e3, b[1], b[2] * 1e3, gR))
            ck.close(tag + "units", np.array([float(m.pstar()) / 1e3 / P] + [v / sc for v in waves(m, W)], dtype=float), np.array([1.0] + [v / sc for v in W]), rtol=0, atol=1e-8, case=case)
        if a == b and gL == gR:
            ck.true(tag + "equal-states", abs(P / a[2] - 1) < 1e-10 and abs(U - a[1]) < 1e-10 * sc, case=case)
        return R

    lat = riem.lattice(ck.thorough)
    for a, gL, b, gR in lat:
        one("", a, gL, b, gR)
    ck.notes["wave_patterns"] = patterns
    ck.true("patterns-covered", all(patterns.get(x, 0) > 10 for x in ("SS", "SE", "ES", "EE")), nontrivial=False)
    # the same problems in other units
    for kr, kp in ((1e14, 1.0), (1e-14, 1.0), (1.0, 1e12), (1e-6, 1e-9), (1e3, 1e5), (1.0, 1e-12)):
        ku = np.sqrt(kp / kr)
        for a, gL, b, gR in lat[:: ck.pick(13, 3)]:
            one("scaled:", (a[0] * kr, a[1] * ku, a[2] * kp), gL, (b[0] * kr, b[1] * ku, b[2] * kp), gR, full=False)
    # slight differences and very strong ones
    for gL, gR in ((1.4, 1.4), (1.2, 1.2), (5 / 3, 5 / 3), (1.3, 1.6), (1.4, 1.4 + 1e-6)):
        for a in ((1.0, 0.0, 1.0), (1.2, 340.0, 1e5), (0.1, -7.0, 3.0)):
            c = np.sqrt(a[2] / a[0])
            for e in np.geomspace(1e-11, 0.2, ck.pick(12, 40)):
                for s in (1, -1):
                    for b in ((a[0], a[1], a[2] * (1 + s * e)), (a[0] * (1 + s * e), a[1], a[2]), (a[0], a[1] + s * e * c, a[2]), (a[0] * (1 - s * e), a[1] + e * c, a[2] * (1 + s * e))):
                        one("slight:", a, gL, b, gR, full=False)
            for e in np.geomspace(1.7e-9, 0.3, ck.pick(10, 40)):
                one("strong:", a, gL, (a[0], a[1], a[2] * e), gR, full=False)
                one("strong:", (a[0], a[1], a[2] * e), gL, a, gR, full=False)
                one("strong:", a, gL, (a[0] * e, a[1], a[2]), gR, full=False)
    # vacuum limit from both sides, per gamma pair
    for gL, gR in ((1.4, 1.4), (1.2, 1.2), (5 / 3, 5 / 3), (1.3, 1.6)):
        lim = 2 * np.sqrt(gL) / (gL - 1) + 2 * np.sqrt(gR) / (gR - 1)
        for f in (0.5, 0.9, 1.01, 1.2, 2.0):
            one("vacuum:", (1.0, -0.5 * f * lim, 1.0), gL, (1.0, 0.5 * f * lim, 1.0), gR, full=False)
    # solving never depends on problems solved before: every ordered pair of 8 problems
    probs = [l for l in lat if not riem.vacuum(l[0], l[1], l[2], l[3])]
    probs = probs[:: max(1, len(probs) // 8)][:8]
    calls = [("P%d" % i, lambda p=p: summary(riemann_pb(US(*p[0], p[1]), US(*p[2], p[3])))) for i, p in enumerate(probs)]
    core.histories(ck, "sequence", calls, depth=2)
    # a problem keeps its own copy of the states it was given
    qL, qR = US(1.0, 0.0, 1.0, 1.4), US(0.125, 0.0, 0.1, 1.4)
    R = riemann_pb(qL, qR)
    p = R.pstar()
    x = np.array([-0.5, 0.0, 0.5, 1.0, 3.0])
    s0 = R.qsol(x)
    qL.p, qR.rho, qL.u = 55.0, 99.0, 3.0
    s1 = R.qsol(x)
    ck.true("own-copy", R.pstar() == p and np.array_equal(s0.p, s1.p) and np.array_equal(s0.u, s1.u) and np.array_equal(s0.rho, s1.rho))
    dg.set_gamma(1.3)
    for a, gL, b, gR in lat[::9]:
        one("default-gas-changed:", a, gL, b, gR, full=False)
    dg.set_gamma(1.4)
