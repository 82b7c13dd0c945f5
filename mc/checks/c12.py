import itertools

import numpy as np

from mc import core, riem
from mc.ref import total_p_ratio, total_T_ratio

PROP = {
    "id": "C12",
    "title": "Unsteady inflow problem driven by total pressure and temperature",
    "statement": "For every initial state entered by a reservoir at a higher or equal total pressure, the solution connects the initial state to the inlet by a right-facing shock or expansion, and the inlet state has exactly the given total pressure and total temperature, with the pressure and velocity of the intermediate state. Solving again with other reservoir conditions gives what a fresh problem gives, and states already obtained keep their value. The initial state is never altered.",
    "quantifier": {"over": ["inputs", "histories"], "text": "initial states at Mach 0..0.9 x gamma 1.05..2 x reservoir pressure ratios 1..20 and temperature ratios 0.1..5, and all sequences of solves up to depth 3"},
    "why_tests_cant": "No existing test runs this solver.",
    "anchors": {
        "files": ["aerokit/instance/unsteady_inflow.py", "aerokit/aero/unsteady1D.py", "aerokit/aero/model1D.py"],
        "mechanism": [{"name": "solution of the total pressure equation and finalisation of both states", "where": "aerokit/instance/unsteady_inflow.py"}],
        "observe_at": ["pstar, ustar, qstarL, qstarR"],
    },
}
LEVEL = "model_checking"
TECH = "exhaustive enumeration of initial states x reservoirs and breadth-first search over solve histories on the real code, against wave relations"
NOTE = "Complete over the stated product and histories. Claimed where the inlet velocity is not reversed."
RULE = "every initial state x gamma x reservoir; every history of solves up to the depth; non-trivial = reservoir total pressure above the initial one"


def run(ck):
    from aerokit.aero.unsteady1D import unsteady_state as US
    from aerokit.common import defaultgas as dg
    from aerokit.instance.unsteady_inflow import inflow_pb

    def facts(tag, P, q, g, pt, rtt, **co):
        rho, u, p = q
        ps, us, L, R = float(P.pstar()), float(P.ustar()), P.qstarL(), P.qstarR()
        a0 = np.sqrt(g * p / rho)
        d, r = riem.wave(ps, q, g)
        k = g / (g - 1)
        ck.close(tag + "wave:velocity", us, float(u + d), rtol=0, atol=1e-7 * a0 * k, **co)
        ck.close(tag + "wave:density", float(R.rho), float(r), rtol=1e-8 * k, **co)
        ck.true(tag + "contact", abs(R.p - ps) <= 1e-13 * ps and abs(R.u - us) <= 1e-12 * a0 and abs(L.u - us) <= 1e-12 * a0 and abs(L.p / ps - 1) <= 1e-7 * k, **co)
        ck.true(tag + "gamma", L._gamma == g and R._gamma == g, **co)
        # totals of the inlet state from its own density, velocity, pressure
        M = L.u / np.sqrt(g * L.p / L.rho)
        ck.close(tag + "inlet:rtt", float(L.p / L.rho * total_T_ratio(M, g)), rtt, rtol=1e-11, **co)
        ck.close(tag + "inlet:pt", float(L.p * total_p_ratio(M, g)), pt, rtol=1e-11 * k, **co)
        # the solved pressure really is the one of the total pressure at ustar
        T = rtt - (g - 1) / (2 * g) * us * us
        ck.close(tag + "balance", float(ps * np.exp(k * np.log(rtt / T))), pt, rtol=1e-7 * k, **co)

    def init(m, rho, p, g):
        return (rho, m * np.sqrt(g * p / rho), p)

    KS = ck.pick((1.0, 1.02, 1.2, 1.8, 3.0, 10.0), tuple(np.concatenate([np.linspace(1, 3, 31), [4, 6, 10, 20]])))
    for g in (1.05, 1.2, 1.3, 1.4, 5 / 3, 2.0):
        for m in ck.pick((0.0, 0.1, 0.3, 0.6, 0.9), tuple(np.linspace(0, 0.9, 19))):
            for rho, p in ((1.0, 1.0), (1.225, 101325.0), (0.1, 5.0)):
                q = init(m, rho, p, g)
                pt0 = p * total_p_ratio(m, g)
                rt0 = p / rho * total_T_ratio(m, g)
                for kp in KS:
                    for kt in (0.1, 0.5, 1.0, 1.7, 5.0):
                        co = dict(gamma=g, mach=m, rho=rho, p=p, kp=kp, kt=kt, nontrivial=kp > 1)
                        Q = US(*q, gamma=g)
                        s = core.snapshot(Q)
                        P = inflow_pb(Q)
                        r = ck.call("solve", P.solve_with_pt0_rtt0, pt0 * kp, rt0 * kt, ctx={k: v for k, v in co.items()})
                        if isinstance(r, core.Failure):
                            continue
                        ck.true("initial-unchanged", core.kept(s, core.snapshot(Q)), **co)
                        if P.ustar() < -1e-9 * np.sqrt(g * p / rho):
                            ck.notes["reversed"] = ck.notes.get("reversed", 0) + 1
                            continue
                        facts("", P, q, g, pt0 * kp, rt0 * kt, **co)
                        if kp == 1.0 and kt == 1.0:
                            ck.true("rest", abs(P.pstar() / p - 1) < 1e-7 and abs(P.ustar() - q[1]) < 1e-6 * np.sqrt(g * p / rho), **co)
    # off the lattice: other units, reservoirs close to the initial state or far from it
    for g in (1.137, 1.4, 1.617):
        for m in (0.0, 1e-4, 0.237, 0.71, 0.97):
            for rho, p in ((1.0, 1.0), (3e-9, 2e-14), (1.7, 4e7), (2e12, 5.0)):
                q = init(m, rho, p, g)
                pt0, rt0 = p * total_p_ratio(m, g), p / rho * total_T_ratio(m, g)
                for kp in np.concatenate([1 + np.geomspace(1e-9, 0.9, ck.pick(9, 41)), np.geomspace(2.3, 90.0, ck.pick(4, 15))]):
                    for kt in (0.037, 0.83, 1.0, 1.0001, 2.9, 40.0):
                        co = dict(gamma=g, mach=m, rho=rho, p=p, kp=kp, kt=kt)
                        P = inflow_pb(US(*q, gamma=g))
                        r = ck.call("solve", P.solve_with_pt0_rtt0, pt0 * kp, rt0 * kt, ctx=co)
                        if isinstance(r, core.Failure):
                            continue
                        if P.ustar() < -1e-9 * np.sqrt(g * p / rho):
                            continue
                        facts("off:", P, q, g, pt0 * kp, rt0 * kt, **co)
    # initial flow towards the reservoir, which still enters; where it does not, what is solved is consistent
    nin = nout = 0
    for g in ck.pick((1.07, 1.3, 1.4, 5 / 3), (1.05, 1.137, 1.2, 1.3, 1.4, 1.5, 5 / 3, 2.0)):
        for m in -np.array(ck.pick((1e-6, 1e-3, 0.05, 0.3, 0.71, 0.95, 1.2, 2.3), tuple(np.geomspace(1e-6, 3.0, 40)))):
            for rho, p in ((1.0, 1.0), (1.225, 101325.0), (3e-9, 2e-14)):
                q = init(m, rho, p, g)
                for kp in np.concatenate([1 + np.geomspace(1e-7, 0.9, 7), np.geomspace(1.2, 300.0, ck.pick(12, 40))]):
                    for kt in (0.1, 0.83, 1.0, 2.9, 40.0):
                        co = dict(gamma=g, mach=m, rho=rho, p=p, kp=kp, kt=kt)
                        P = inflow_pb(US(*q, gamma=g))
                        enters = q[1] + riem.wave(p * kp, q, g)[0] > 1e-9 * np.sqrt(g * p / rho)
                        if enters:
                            r = ck.call("solve", P.solve_with_pt0_rtt0, p * kp, p / rho * kt, ctx=co)
                            if not isinstance(r, core.Failure):
                                nin += 1
                                facts("towards:", P, q, g, p * kp, p / rho * kt, **co)
                            continue
                        try:
                            with np.errstate(all="ignore"), core.quiet():
                                P.solve_with_pt0_rtt0(p * kp, p / rho * kt)
                            ps, us, L = float(P.pstar()), float(P.ustar()), P.qstarL()
                            T = p / rho * kt - (g - 1) / (2 * g) * us * us
                            found = ps > 0 and T > 0 and abs(ps * np.exp(g / (g - 1) * np.log(p / rho * kt / T)) / (p * kp) - 1) < 1e-9
                        except Exception:  # noqa: reservoirs which do not enter may be refused
                            continue
                        if found and abs(us) > 1e-6 * np.sqrt(g * p / rho):
                            nout += 1
                            facts("outwards:", P, q, g, p * kp, p / rho * kt, **co)
    ck.true("towards:lattice", nin > 500, inflows=nin, outflows=nout)
    # histories of solves on one object
    q = init(0.3, 1.0, 1.0, 1.3)
    pt0, rt0 = total_p_ratio(0.3, 1.3), total_T_ratio(0.3, 1.3)
    cases = [(kp, kt) for kp in (1.0, 1.3, 2.5) for kt in (0.7, 1.0, 2.0)]

    def ev(c):
        def f(I, S):
            I[0].solve_with_pt0_rtt0(pt0 * c[0], rt0 * c[1])
            S[0] = c
            st = [I[0].qstarL(), I[0].qstarR()]
            I[3].append((st, core.snapshot(st)))

        return ("%g/%g" % c, f)

    def seen(P):
        return [float(v) for f in (P.qstarL(), P.qstarR()) for v in (f.rho, f.u, f.p, f._gamma)] + [float(P.pstar()), float(P.ustar())]

    fresh = {}
    for c in cases:
        P = inflow_pb(US(*q, gamma=1.3))
        P.solve_with_pt0_rtt0(pt0 * c[0], rt0 * c[1])
        fresh[c] = seen(P)

    def obs(I, S, hist):
        if S[0] is None:
            return True
        P = I[0]
        ok = ck.true("history=fresh", seen(P) == fresh[S[0]], history="/".join(hist))
        facts("history:", P, q, 1.3, pt0 * S[0][0], rt0 * S[0][1], history="/".join(hist))
        ok &= ck.true("history:former-states", all(core.kept(v, core.snapshot(st)) for st, v in I[3]), history="/".join(hist))
        return bool(ok) and ck.true("history:initial", core.kept(I[2], core.snapshot(I[1])), history="/".join(hist))

    def start():
        Q = US(*q, gamma=1.3)
        return [inflow_pb(Q), Q, core.snapshot(Q), []], [None]

    core.bfs(ck, "history", start, [ev(c) for c in cases], ck.pick(3, 4), start=obs)
    # own copy of the initial state
    Q = US(*q, gamma=1.3)
    P = inflow_pb(Q)
    Q.p, Q.rho, Q.u = 9.0, 7.0, 3.0
    P.solve_with_pt0_rtt0(pt0 * 1.3, rt0)
    ck.true("own-copy", float(P.pstar()) == fresh[(1.3, 1.0)][-2])
    dg.set_gamma(1.2)
    for g in (1.3, 1.4):
        q2 = init(0.3, 1.0, 1.0, g)
        P = inflow_pb(US(*q2, gamma=g))
        P.solve_with_pt0_rtt0(1.5 * total_p_ratio(0.3, g), total_T_ratio(0.3, g))
        facts("default-gas-changed:", P, q2, g, 1.5 * total_p_ratio(0.3, g), total_T_ratio(0.3, g), gamma=g)
    dg.set_gamma(1.4)
