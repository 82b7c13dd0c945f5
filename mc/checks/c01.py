import numpy as np

from mc import core
from mc.ref import GAMMAS, GAMMAS_Q, mach_axis, total_p_ratio, total_T_ratio

PROP = {
    "id": "C01",
    "title": "Isentropic total/static relations and their inverses",
    "statement": "For every Mach number and ratio of specific heats, the total-to-static temperature and pressure ratios are those of energy and entropy conservation of a perfect gas, and the Mach number recovered from either ratio is the original one. The velocity computed from Mach number and total temperature satisfies the total enthalpy balance. This holds for scalars, integers and arrays of any shape, whatever was computed before and whatever default gas is set when the gas is given explicitly.",
    "quantifier": {"over": ["inputs", "histories"], "text": "all Mach numbers 0..100, all gamma in ]1,2], all gas constants and temperatures, all argument shapes, all orders of calls"},
    "why_tests_cant": "The unit tests evaluate a few Mach numbers at gamma 1.4; they never cover other gammas over the Mach range, small or large Mach, array shapes nor repeated calls.",
    "anchors": {
        "files": ["aerokit/aero/Isentropic.py"],
        "mechanism": [{"name": "TtTs_Mach, PtPs_Mach, Mach_TtTs, Mach_PtPs, Velocity_MachTt", "where": "aerokit/aero/Isentropic.py"}],
        "observe_at": ["return values"],
    },
}
LEVEL = "exploration"
TECH = "bounded exhaustive enumeration of inputs and call sequences on the real code, against conservation-law oracle"
NOTE = "Complete over the stated finite lattice (Mach x gamma x representation x call order); floating-point inputs off the lattice are not covered."
RULE = "every point of the Mach x gamma lattice, every argument representation, every ordered pair of calls; non-trivial = Mach > 0"


def run(ck):
    import aerokit.aero.Isentropic as Is
    from aerokit.common import defaultgas as dg

    Is = ck.each(Is, loose=("Mach_TtTs", "Mach_PtPs"))

    def lattice(tag, gammas, M, dense=True):
        for g in gammas:
            wT, wP = total_T_ratio(M, g), total_p_ratio(M, g)
            T = ck.call(tag + "TtTs", Is.TtTs_Mach, M, g)
            P = ck.call(tag + "PtPs", Is.PtPs_Mach, M, gamma=g)
            ck.close(tag + "TtTs", T, wT, rtol=1e-13, M=M, gamma=g, nontrivial=M > 0)
            ck.close(tag + "PtPs", P, wP, rtol=1e-13 * (2 + g / (g - 1)), M=M, gamma=g, nontrivial=M > 0)
            tol = 2e-14 / (g - 1) * wT
            for nm, fn, r in (("Mach_TtTs", Is.Mach_TtTs, wT), ("Mach_PtPs", Is.Mach_PtPs, wP)):
                m = ck.call(tag + nm, fn, r, g)
                if not isinstance(m, core.Failure):
                    m = np.where(np.isnan(m) & (M * M < tol), 0.0, m)  # ratio below 1 by rounding
                    ck.true(tag + nm, (np.abs(m**2 - M**2) <= tol) & ~(m < 0), M=M, gamma=g, got=m, nontrivial=M > 0)
            ck.true(tag + "TtTs:even", np.asarray(Is.TtTs_Mach(-M, g)) == np.asarray(T), M=M, gamma=g)
            # far ratios given directly
            R = np.geomspace(1.0001, 1e12, 61)
            ck.close(tag + "Mach_PtPs:ratio", total_p_ratio(Is.Mach_PtPs(R, gamma=g), g), R, rtol=1e-11 * g / (g - 1), ratio=R, gamma=g)
            R = np.geomspace(1.0001, 1e4, 61)
            ck.close(tag + "Mach_TtTs:ratio", total_T_ratio(Is.Mach_TtTs(R, gamma=g), g), R, rtol=1e-11, ratio=R, gamma=g)
            for r in (1.0, 287.1, 2077.0):
                for Tt in (1.0, 288.15, 3000.0):
                    V = ck.call(tag + "Velocity", Is.Velocity_MachTt, M, Tt, r, g)
                    if isinstance(V, core.Failure):
                        continue
                    cp = g * r / (g - 1)
                    Ts = Tt / wT
                    ck.close(tag + "Velocity:enthalpy", cp * Ts + 0.5 * V**2, cp * Tt, rtol=1e-12, M=M, gamma=g, r=r, Tt=Tt)
                    ck.close(tag + "Velocity:Mach", V, M * np.sqrt(g * r * Ts), rtol=1e-12, M=M, gamma=g, r=r, Tt=Tt)
                    V2 = Is.Velocity_MachTt(-M, Tt, r=r, gamma=g)
                    ck.true(tag + "Velocity:odd", np.asarray(V2) == -np.asarray(V), M=M, gamma=g, r=r, Tt=Tt)

    M = np.concatenate([[0.0, 1e-8, 1e-5, 1e-4], mach_axis(1e-3, 100.0, ck.pick(200, 3000))])
    lattice("", GAMMAS if not ck.thorough else np.unique(np.concatenate([GAMMAS, np.linspace(1.02, 2, 50)])), M)
    far = np.concatenate([np.geomspace(1e-9, 1e-3, ck.pick(25, 300)), np.geomspace(100.0, 1e5, ck.pick(25, 300))])
    lattice("far:", [g for g in GAMMAS if g >= 1.1], far)
    for g in (1.2, 1.4, 5.0 / 3.0):  # as separate calls
        m = np.concatenate([far, [0.0], 1 + np.concatenate([-np.geomspace(1e-9, 0.3, 20), np.geomspace(1e-9, 0.3, 20)])])
        ck.close("scalar:TtTs", np.array([float(Is.TtTs_Mach(float(x), g)) for x in m]), total_T_ratio(m, g), rtol=1e-13, M=m, gamma=g)
        ck.close("scalar:PtPs", np.array([float(Is.PtPs_Mach(float(x), g)) for x in m]), total_p_ratio(m, g), rtol=2e-12, M=m, gamma=g)
        for nm, fn, w in (("Mach_TtTs", Is.Mach_TtTs, total_T_ratio(m, g)), ("Mach_PtPs", Is.Mach_PtPs, total_p_ratio(m, g))):
            with np.errstate(all="ignore"):
                v = np.array([float(fn(float(x), g)) for x in w])
            tol = 2e-14 / (g - 1) * total_T_ratio(m, g)
            ck.true("scalar:" + nm, np.abs(np.where(np.isnan(v) & (m * m < tol), 0.0, v) ** 2 - m * m) <= tol, M=m, gamma=g, got=v)
        V = np.array([float(Is.Velocity_MachTt(float(x), 300.0, 287.0, g)) for x in m])
        ck.close("scalar:Velocity", V, m * np.sqrt(g * 287.0 * 300.0 / total_T_ratio(m, g)), rtol=1e-12, M=m, gamma=g)
    # velocity over the whole range of temperatures, gas constants, heat ratios and Mach numbers, one at a time
    n = ck.pick(120, 900)
    AX = {"Mach": np.concatenate([np.geomspace(1e-6, 1e3, n), -np.geomspace(1e-4, 50.0, 40), [0.0, 1.0, 2.0]]), "Tt": np.concatenate([np.geomspace(1e-2, 1e6, n), [1.0, 2.0, 300.0]]), "r": np.concatenate([np.geomspace(1e-2, 1e5, n), [1.0, 2.0, 287.0, 287.1]]), "gamma": np.linspace(1.02, 2.0, n)}
    for base in ({"Mach": 0.7, "Tt": 300.0, "r": 287.1, "gamma": 1.4}, {"Mach": 2.3, "Tt": 1234.5, "r": 1.0, "gamma": 1.25}, {"Mach": 0.013, "Tt": 0.7, "r": 4124.0, "gamma": 5.0 / 3.0}):
        for a, ax in AX.items():
            kw = dict(base, **{a: ax})
            w = kw["Mach"] * np.sqrt(kw["gamma"] * kw["r"] * kw["Tt"] / total_T_ratio(kw["Mach"], kw["gamma"]))
            for fn in (Is.Velocity_MachTt, Is.Velocity_MachTi):
                ck.close("axis:Velocity", ck.call("axis:Velocity", fn, kw["Mach"], kw["Tt"], kw["r"], kw["gamma"]), w, rtol=1e-12, argument=a, value=ax, base=str(base))
                for x, y in zip(ax, w):
                    k = dict(base, **{a: float(x)})
                    ck.close("axis:Velocity:scalar", float(fn(k["Mach"], k["Tt"], k["r"], k["gamma"])), float(y), rtol=1e-12, argument=a, value=x, base=str(base))
    G = np.linspace(1.02, 2.0, ck.pick(90, 900))
    for m in (1e-3, 0.137, 0.9, 1.0, 1.1, 2.7, 13.0):
        for nm, fn, w in (("TtTs", Is.TtTs_Mach, total_T_ratio(m, G)), ("PtPs", Is.PtPs_Mach, total_p_ratio(m, G))):
            ck.close("axis:" + nm, fn(m, G), w, rtol=2e-12, M=m, gamma=G)
            ck.close("axis:" + nm + ":scalar", np.array([float(fn(m, float(g))) for g in G]), w, rtol=2e-12, M=m, gamma=G)
        if m > 0.01:
            for nm, fn, w in (("Mach_TtTs", Is.Mach_TtTs, total_T_ratio(m, G)), ("Mach_PtPs", Is.Mach_PtPs, total_p_ratio(m, G))):
                ck.close("axis:" + nm, fn(w, G), m + 0 * G, rtol=1e-9, M=m, gamma=G)
                ck.close("axis:" + nm + ":scalar", np.array([float(fn(float(x), float(g))) for x, g in zip(w, G)]), m + 0 * G, rtol=1e-9, M=m, gamma=G)
    # defaults: gamma 1.4, r 287.1 of the unmodified default gas
    ck.close("default:TtTs", Is.TtTs_Mach(M), total_T_ratio(M, 1.4), rtol=1e-13, M=M)
    ck.close("default:PtPs", Is.PtPs_Mach(M), total_p_ratio(M, 1.4), rtol=1e-12, M=M)
    Mp = M[M > 0.01]
    ck.close("default:Mach_TtTs", Is.Mach_TtTs(total_T_ratio(Mp, 1.4)), Mp, rtol=1e-8, M=Mp)
    ck.close("default:Mach_PtPs", Is.Mach_PtPs(total_p_ratio(Mp, 1.4)), Mp, rtol=1e-8, M=Mp)
    ck.close("default:Velocity", Is.Velocity_MachTt(M, 300.0), M * np.sqrt(1.4 * 287.1 * 300.0 / total_T_ratio(M, 1.4)), rtol=1e-12, M=M)
    ck.close("default:Velocity-gamma", Is.Velocity_MachTt(M, 300.0, gamma=1.3), M * np.sqrt(1.3 * 287.1 * 300.0 / total_T_ratio(M, 1.3)), rtol=1e-12, M=M)
    ck.close("default:Velocity-r", Is.Velocity_MachTt(M, 300.0, r=100.0), M * np.sqrt(1.4 * 100.0 * 300.0 / total_T_ratio(M, 1.4)), rtol=1e-12, M=M)
    # strict monotony on the axis
    for g in GAMMAS_Q:
        for nm, fn in (("TtTs", Is.TtTs_Mach), ("PtPs", Is.PtPs_Mach)):
            ax = mach_axis(1e-3, 100.0, 300)
            ax = ax[np.concatenate([[True], np.diff(ax) > 1e-5])]
            ck.true(nm + ":increasing", np.diff(fn(ax, g)) > 0, M=ax[1:], gamma=g)
    # representation of arguments
    vals = [0.0, 0.05, 0.3, 0.7, 1.0, 1.3, 2.0, 3.7, 8.0]
    rat = [1.0, 1.001, 1.2, 1.8, 2.0, 5.0, 40.0, 1000.0]
    for g in (1.2, 1.4, 5.0 / 3.0):
        core.polymorphism(ck, "poly:TtTs", lambda x: Is.TtTs_Mach(x, g), vals, big=(0.0, 20.0, 5001), ints=(0, 1, 2, 3, 10))
        core.polymorphism(ck, "poly:PtPs", lambda x: Is.PtPs_Mach(x, g), vals, big=(0.0, 20.0, 5001), ints=(0, 1, 2, 3, 10))
        core.polymorphism(ck, "poly:Mach_TtTs", lambda x: Is.Mach_TtTs(x, g), rat, big=(1.0, 50.0, 5001), ints=(1, 2, 3, 10))
        core.polymorphism(ck, "poly:Mach_PtPs", lambda x: Is.Mach_PtPs(x, g), rat, big=(1.0, 5000.0, 5001), ints=(1, 2, 3, 10))
        core.polymorphism(ck, "poly:VelM", lambda x: Is.Velocity_MachTt(x, 300.0, 287.0, g), vals, ints=(0, 1, 2, 3))
        core.polymorphism(ck, "poly:VelT", lambda x: Is.Velocity_MachTt(0.8, x, 287.0, g), [1.0, 100.0, 300.0, 2000.0], ints=(1, 300))
    # gamma given as an array with Mach
    G, Mm = core.grid(GAMMAS_Q, vals)
    ck.close("gamma-array:PtPs", Is.PtPs_Mach(Mm, G), total_p_ratio(Mm, G), rtol=1e-11, M=Mm, gamma=G)
    ck.close("gamma-array:TtTs", Is.TtTs_Mach(Mm, G), total_T_ratio(Mm, G), rtol=1e-12, M=Mm, gamma=G)
    # legacy names
    for old, new, a in (("TiTs_Mach", "TtTs_Mach", 1.7), ("PiPs_Mach", "PtPs_Mach", 1.7), ("Mach_PiPs", "Mach_PtPs", 3.0), ("Mach_TiTs", "Mach_TtTs", 3.0)):
        for g in GAMMAS_Q:
            ck.true("alias", getattr(Is, old)(a, g) == getattr(Is, new)(a, g), name=old, gamma=g)
    for g in GAMMAS_Q:
        ck.true("alias", Is.Velocity_MachTi(0.7, 300.0, 287.0, g) == Is.Velocity_MachTt(0.7, 300.0, 287.0, g), name="Velocity_MachTi", gamma=g)
    # all ordered pairs of calls
    calls = []
    for g in (1.3, 1.4):
        for x in (0.5, 2.0):
            calls += [("TtTs(%g,%g)" % (x, g), lambda x=x, g=g: Is.TtTs_Mach(x, g)), ("PtPs(%g,%g)" % (x, g), lambda x=x, g=g: Is.PtPs_Mach(x, g)),
                      ("Mach_PtPs(%g,%g)" % (x, g), lambda x=x, g=g: Is.Mach_PtPs(1 + x, g)), ("Mach_TtTs(%g,%g)" % (x, g), lambda x=x, g=g: Is.Mach_TtTs(1 + x, g)),
                      ("V(%g,%g)" % (x, g), lambda x=x, g=g: Is.Velocity_MachTt(x, 300.0, 287.0, g))]
    core.histories(ck, "sequence", calls, depth=ck.pick(2, 3))
    # explicit gas does not depend on the default one
    Ms = mach_axis(0.01, 20.0, 40)
    for gd, rd in ((1.3, 300.0), (5.0 / 3.0, 2077.0)):
        dg.set_gamma(gd)
        dg.set_r_ideal(rd)
        lattice("default-gas-changed:", GAMMAS_Q, Ms)
    dg.set_gamma(1.4)
    dg.set_r_ideal(287.1)
