import numpy as np

from mc import core, riem
from mc.ref import flux

PROP = {
    "id": "C34",
    "title": "Unsteady wave primitives: shocks, expansions and symmetry of a state",
    "statement": "For every state, gamma and pressure behind the wave, the velocity change and density through a shock satisfy the jump conditions, those through an isentropic wave keep entropy and the Riemann invariant, and both families meet with the same value and slope at zero strength. The state behind a moving shock conserves mass, momentum and energy fluxes in the shock frame. A mirrored state has the opposite velocity and is otherwise equal.",
    "quantifier": {"over": ["inputs"], "text": "states (scalar and array) x gamma 1.05..2 x pressure ratios 1e-14..1e14 and shock speeds on both sides"},
    "why_tests_cant": "Tests check single states at gamma 1.4; the primitives are used with any state and gas by the Riemann and inflow solvers.",
    "anchors": {
        "files": ["aerokit/aero/unsteady1D.py"],
        "mechanism": [{"name": "wave curve functions", "where": "aerokit/aero/unsteady1D.py"}],
        "observe_at": ["return values"],
    },
}
LEVEL = "exploration"
TECH = "bounded exhaustive enumeration of states and wave strengths on the real code, against jump conditions and Riemann invariants"
NOTE = "Complete over the stated lattice."
RULE = "every state x gamma x strength; scalar, array and per-cell-gamma forms; non-trivial = strength different from one"


def run(ck):
    from aerokit.aero.unsteady1D import unsteady_state as US
    from aerokit.common import defaultgas as dg

    states = [(1.0, 0.0, 1.0), (0.125, 0.5, 0.1), (1.225, -120.0, 101325.0), (3.0, 40.0, 1e3), (1e-3, 1.0, 1e-2), (1e-12, -3e-3, 1e-16), (3e10, 7.0, 2e15), (1.0, 1e-9, 1e-18)]

    def all_facts(tag, gammas, n):
        PR = np.unique(np.concatenate([np.geomspace(1e-6, 1e4, n), np.geomspace(1e-14, 1e14, 29), 1 + np.concatenate([-np.geomspace(1e-9, 0.6, 23), [0], np.geomspace(1e-9, 0.6, 23)])]))
        for g in gammas:
            k = g / (g - 1)
            for q in states:
                rho, u, p = q
                a0 = np.sqrt(g * p / rho)
                S = US(*q, gamma=g)
                snap = core.snapshot(S)
                pp = PR * p
                de = ck.call(tag + "expansion", S.delta_u_expansion, pp)
                ri = ck.call(tag + "isentropic", S.rho_through_isentropic, pp)
                c = dict(gamma=g, p=p, ratio=PR, nontrivial=PR != 1)
                # down to vacuum
                ck.close(tag + "vacuum", ck.call(tag + "expansion", S.delta_u_expansion, 0.0), -2 * a0 / (g - 1), rtol=1e-12, gamma=g, p=p)
                ck.close(tag + "vacuum:density", ck.call(tag + "isentropic", S.rho_through_isentropic, 0.0), 0.0, rtol=0, atol=0, gamma=g, p=p)
                if not isinstance(ri, core.Failure):
                    ck.close(tag + "isentropic", ri, rho * np.exp(np.log(PR) / g), rtol=1e-12, **c)
                if not isinstance(de, core.Failure):
                    a1 = a0 * np.exp(np.log(PR) / (2 * k))
                    ck.close(tag + "expansion", de, 2 / (g - 1) * (a1 - a0), rtol=1e-11, atol=1e-13 * a0 * k, **c)
                up = PR >= 1
                ds = ck.call(tag + "shock", S.delta_u_shock, pp)
                rs = ck.call(tag + "shock-rho", S.rho_through_shock, pp)
                if isinstance(ds, core.Failure) or isinstance(rs, core.Failure):
                    continue
                c = dict(gamma=g, p=p, ratio=PR[up & (PR > 1)])
                i = up & (PR > 1)
                # right-facing shock: u behind = u + ds ; speed from mass jump
                D = u + ds[i] / (1 - rho / rs[i])
                f0 = flux(rho, u - D, p, g)
                f1 = flux(rs[i], u + ds[i] - D, pp[i], g)
                for nm, x, y in zip(("mass", "momentum", "enthalpy"), f0, f1):
                    ck.close(tag + "shock:" + nm, y, x + 0 * y, rtol=1e-9 / np.minimum(PR[i] - 1, 1) if nm != "mass" else 1e-6, **c)
                ck.close(tag + "shock:strength", ds[i], (pp[i] - p) / np.sqrt((pp[i] - p) / (1 / rho - 1 / rs[i])), rtol=1e-9 / np.minimum(PR[i] - 1, 1), **c)
                ck.true(tag + "shock:entropy", np.log(PR[i]) - g * np.log(rs[i] / rho) >= -1e-12, **c)
                # the same jump relations hold on the expansion side
                j = (PR < 1) & (PR > 0.3)
                D = u + ds[j] / (1 - rho / rs[j])
                c = dict(gamma=g, p=p, ratio=PR[j])
                for nm, x, y in zip(("mass", "momentum", "enthalpy"), flux(rho, u - D, p, g), flux(rs[j], u + ds[j] - D, pp[j], g)):
                    ck.close(tag + "below:" + nm, y, x + 0 * y, rtol=1e-9 / (1 - PR[j]) if nm != "mass" else 1e-6, **c)
                for e in (1e-2, -1e-2, 1e-3, -1e-3, 1e-4, -1e-4):
                    ck.true(tag + "tangent:density", abs(float(S.rho_through_shock(p * (1 + e))) - float(S.rho_through_isentropic(p * (1 + e)))) < rho * (abs(e) ** 3 + 1e-14), gamma=g, p=p, eps=e)
                    ck.true(tag + "tangent:velocity", abs(float(S.delta_u_shock(p * (1 + e))) - float(S.delta_u_expansion(p * (1 + e)))) < a0 * (abs(e) ** 3 + 1e-14 * k), gamma=g, p=p, eps=e)
                # tangency at zero strength
                for e in (1e-4, -1e-4):
                    ck.true(tag + "tangent", abs(float(S.delta_u_shock(p * (1 + e))) - float(S.delta_u_expansion(p * (1 + e)))) < 1e-11 * a0, gamma=g, p=p, eps=e)
                    ck.close(tag + "slope", float(S.delta_u_shock(p * (1 + e))) / e, float(p / (rho * a0)), rtol=2e-4, gamma=g, p=p, eps=e)
                ck.true(tag + "zero", abs(float(S.delta_u_shock(p))) == 0 and abs(float(S.delta_u_expansion(p))) <= 1e-14 * a0 * k and abs(S.rho_through_shock(p) / rho - 1) < 1e-14 and abs(S.rho_through_isentropic(p) / rho - 1) < 1e-14, gamma=g, p=p)
                m = S.copysymmetric()
                ck.true(tag + "mirror", m is not S and (m.rho, m.u, m.p, m._gamma) == (rho, -u, p, g) and type(m) is type(S), gamma=g, p=p)
                # moving shocks on both sides
                if hasattr(S, "_rankinehugoniot_from_ushock"):
                    for side in (1, -1):
                        for mn in (1.0, 1.01, 1.5, 3.0, 10.0):
                            D = u + side * mn * a0
                            R = ck.call(tag + "moving", S._rankinehugoniot_from_ushock, D)
                            if isinstance(R, core.Failure):
                                continue
                            for nm, x, y in zip(("mass", "momentum", "enthalpy"), flux(rho, u - D, p, g), flux(R.rho, R.u - D, R.p, g)):
                                ck.close(tag + "moving:" + nm, float(y), float(x), rtol=1e-10 * k, gamma=g, p=p, mn=mn, side=side)
                            ck.true(tag + "moving:compression", R.p >= p * (1 - 1e-12) and R.rho >= rho * (1 - 1e-12) and R._gamma == g, gamma=g, p=p, mn=mn, side=side)
                ck.true(tag + "unchanged", core.kept(snap, core.snapshot(S)), gamma=g, p=p)
                # scalar = array
                for w in (2, 7, 24):
                    for j in range(0, len(PR), w):
                        for nm, arr in (("delta_u_expansion", de), ("rho_through_isentropic", ri), ("delta_u_shock", ds), ("rho_through_shock", rs)):
                            ck.close(tag + "part=array", ck.call(tag + "part=array", getattr(S, nm), pp[j : j + w].copy()), arr[j : j + w], rtol=1e-12, atol=1e-13 * a0 * k if "delta" in nm else 0.0, gamma=g, ratio=PR[j : j + w], fn=nm)
                for j in sorted(set(range(0, len(PR), 9)) | set(np.flatnonzero(np.abs(PR - 1) < 0.7))):
                    v = float(pp[j])
                    for nm, arr in (("delta_u_expansion", de), ("rho_through_isentropic", ri), ("delta_u_shock", ds), ("rho_through_shock", rs)):
                        ck.close(tag + "scalar=array", float(getattr(S, nm)(v)), float(arr[j]), rtol=1e-12, atol=1e-13 * a0 * k if "delta" in nm else 0.0, gamma=g, ratio=float(PR[j]), fn=nm)

    all_facts("", ck.pick((1.05, 1.1, 1.2, 1.3, 1.4, 1.5, 5 / 3, 2.0) + tuple(np.linspace(1.02, 2.1, 28)), (1.4, 5 / 3) + tuple(np.linspace(1.01, 2.2, 150))), ck.pick(301, 801))
    # states made of cells, gamma per cell
    g = np.array([1.2, 1.4, 1.6, 5 / 3])
    A = US(np.array([1.0, 2.0, 0.5, 1.2]), np.array([0.0, 1.0, -3.0, 0.2]), np.array([1.0, 0.5, 3.0, 2.0]), gamma=g)
    pe = np.array([2.0, 0.6, 9.0, 2.5])
    for nm in ("delta_u_expansion", "rho_through_isentropic", "delta_u_shock", "rho_through_shock"):
        got = ck.call("cells", getattr(A, nm), pe)
        want = [getattr(US(A.rho[i], A.u[i], A.p[i], gamma=g[i]), nm)(pe[i]) for i in range(4)]
        ck.close("cells", got, want, rtol=1e-13, cell=np.arange(4), fn=nm)
    m = A.copysymmetric()
    ck.true("cells:mirror", np.array_equal(m.u, -A.u) and np.array_equal(m.rho, A.rho) and np.array_equal(m.p, A.p) and np.array_equal(m._gamma, g))
    c = A.copy()
    c.rho[...] = 9.0
    ck.true("cells:copy", not np.any(A.rho == 9.0))
    dg.set_gamma(1.3)
    all_facts("default-gas-changed:", (1.2, 1.4), 31)
    dg.set_gamma(1.4)
