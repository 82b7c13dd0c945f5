import numpy as np

from mc import core
from mc.ref import GAMMAS, GAMMAS_Q, flux, mach_axis, total_p_ratio

PROP = {
    "id": "C04",
    "title": "Normal shock relations conserve mass, momentum and energy",
    "statement": "For every normal Mach number and gamma, the density, pressure and temperature ratios and the downstream Mach number of a normal shock conserve mass, momentum and total enthalpy, and the total pressure ratio is the one of the two isentropic states and never exceeds 1 for a compression. The Mach number recovered from the static pressure ratio, or from the total pressure ratio up to Mach 6, is the original one. Scalars, integers, arrays, repeated calls and explicit gases all agree.",
    "quantifier": {"over": ["inputs", "histories"], "text": "normal Mach numbers 1..100 (and their subsonic mirror states), gamma in ]1,2], all argument shapes and call orders; total pressure inverse on Mach 1..6"},
    "why_tests_cant": "Tests compare a few table values at gamma 1.4; conservation has to hold for each Mach number and gamma, and inverses must converge everywhere.",
    "anchors": {
        "files": ["aerokit/aero/ShockWave.py", "aerokit/aero/IterativeSolve.py"],
        "mechanism": [{"name": "normal shock ratios and their inverses", "where": "aerokit/aero/ShockWave.py"}],
        "observe_at": ["return values"],
    },
}
LEVEL = "exploration"
TECH = "bounded exhaustive enumeration of inputs and call sequences on the real code, against the jump conditions"
NOTE = "Complete over the stated lattice. The total-pressure inverse is claimed for Mach 1..6 only: beyond, the secant iteration stops and says so on the output."
RULE = "every point of the Mach x gamma lattice, every argument representation, every pair of calls; non-trivial = Mach != 1"


def run(ck):
    import aerokit.aero.ShockWave as sw

    sw = ck.each(sw, loose=("Mn_Ps_ratio", "Mn_Pt_ratio"))
    from aerokit.common import defaultgas as dg

    def lattice(tag, gammas, M):
        for g in gammas:
            out = []
            k = g / (g - 1)
            # total pressure ratio: only where no power of its factors leaves the range of floating-point numbers
            fit = k / g * np.abs(np.log(1 + 2 * g / (g + 1) * (M * M - 1))) < 300
            for nm, fn in (("Ps", sw.Ps_ratio), ("Rho", sw.Rho_ratio), ("Ts", sw.Ts_ratio), ("Mn2", sw.downstream_Mn), ("Pt", sw.Pt_ratio)):
                m = M[fit] if nm == "Pt" else M
                a = ck.call(tag + nm, fn, m, g)
                b = ck.call(tag + nm, fn, m, gamma=g)
                if isinstance(a, core.Failure) or isinstance(b, core.Failure):
                    return
                ck.true(tag + nm + ":keyword", np.asarray(a) == np.asarray(b), M=m, gamma=g)
                out.append(np.asarray(a, dtype=float))
            ps, rh, ts, m2, pt = out
            u1 = M * np.sqrt(g)
            u2 = m2 * np.sqrt(g * ps / rh)
            for f1, f2, nm in zip(flux(1.0, u1, 1.0, g), flux(rh, u2, ps, g), ("mass", "momentum", "enthalpy")):
                ck.close(tag + "jump:" + nm, f2, f1, rtol=2e-12 / (g - 1), M=M, gamma=g, nontrivial=M != 1)
            ck.close(tag + "Ts=Ps/Rho", ts, ps / rh, rtol=1e-14, M=M, gamma=g, nontrivial=M != 1)
            Mf = M[fit]
            ck.close(tag + "Pt", pt, (ps * total_p_ratio(m2, g) / total_p_ratio(M, g))[fit], rtol=1e-12 * (1 + k), M=Mf, gamma=g, nontrivial=Mf != 1)
            # independent: entropy jump gives the total pressure ratio at constant total temperature
            ck.close(tag + "Pt:entropy", np.log(pt), (k * np.log(rh) - k / g * np.log(ps))[fit], rtol=1e-9, atol=1e-11 * k, M=Mf, gamma=g, nontrivial=Mf != 1)
            c = Mf >= 1
            ck.true(tag + "Pt<=1", pt[c] <= 1 + 1e-13 * (1 + k), M=Mf[c], gamma=g)
            c = M >= 1
            ck.true(tag + "compression", (ps[c] >= 1 - 1e-13) & (rh[c] >= 1 - 1e-13) & (m2[c] <= 1 + 1e-13), M=M[c], gamma=g)
            ck.true(tag + "Ps:even", np.asarray(sw.Ps_ratio(-M, g)) == ps, M=M, gamma=g)
            inv = ck.call(tag + "Mn_Ps", sw.Mn_Ps_ratio, ps, g)
            ck.close(tag + "Mn_Ps", inv, M, rtol=1e-12, M=M, gamma=g, nontrivial=M != 1)
            ck.close(tag + "mirror", ck.call(tag + "mirror", sw.downstream_Mn, m2, g), M, rtol=1e-11 * (1 + M * M), M=M, gamma=g, nontrivial=M != 1)
            for a, w in ((0.0, 0.0), (0.5, 0.5), (1.0, 1.0), (7.3, 7.3), (1e6, 1e6)):
                ck.close(tag + "Ps(Mn_Ps)", sw.Ps_ratio(sw.Mn_Ps_ratio(a, gamma=g), g), w, rtol=1e-10, atol=1e-13, ratio=a, gamma=g)

    def inverse(tag, gammas, M):
        for g in gammas:
            u1 = M * np.sqrt(g)
            k = g / (g - 1)
            ps = 1 + 2 * g / (g + 1) * (M * M - 1)
            rh = (g + 1) * M * M / (2 + (g - 1) * M * M)
            pt = np.exp(k * np.log(rh) - k / g * np.log(ps))
            for m, p in zip(M, pt):
                p = min(float(p), 1.0)
                v = ck.call(tag + "Mn_Pt", sw.Mn_Pt_ratio, p, g)
                if isinstance(v, core.Failure):
                    continue
                v = float(v)
                r2 = (g + 1) * v * v / (2 + (g - 1) * v * v)
                back = np.exp(k * np.log(r2) - k / g * np.log(1 + 2 * g / (g + 1) * (v * v - 1)))
                ck.close(tag + "Mn_Pt:back", back, p, rtol=1e-6, M=m, gamma=g, got_M=v, nontrivial=m > 1)
                if m >= 1.2:
                    ck.close(tag + "Mn_Pt", v, m, rtol=2e-4, M=m, gamma=g)
            del u1

    M = mach_axis(1.0, 100.0, ck.pick(200, 4000), extra=1 + np.geomspace(1e-12, 0.5, 30))
    lattice("", GAMMAS if not ck.thorough else np.unique(np.concatenate([GAMMAS, np.linspace(1.02, 2, 50)])), M)
    lattice("far:", GAMMAS, np.geomspace(100.0, 1e6, ck.pick(30, 300)))
    m = np.concatenate([np.geomspace(100.0, 1e6, 20), 1 + np.geomspace(1e-12, 0.5, ck.pick(40, 300))])
    for g in (1.2, 1.4, 5.0 / 3.0):  # as separate calls, against the Rankine-Hugoniot relations
        ps, rh = 1 + 2 * g / (g + 1) * (m - 1) * (m + 1), (g + 1) * m * m / (2 + (g - 1) * m * m)
        for nm, fn, w in (("Ps", sw.Ps_ratio, ps), ("Rho", sw.Rho_ratio, rh), ("Ts", sw.Ts_ratio, ps / rh), ("Mn2", sw.downstream_Mn, m / rh / np.sqrt(ps / rh))):
            ck.close("scalar:" + nm, np.array([float(fn(float(x), g)) for x in m]), w, rtol=2e-12, M=m, gamma=g)
        ck.close("scalar:Mn_Ps", np.array([float(sw.Mn_Ps_ratio(float(x), g)) for x in ps]), m, rtol=2e-12, M=m, gamma=g)
    for g in GAMMAS:
        lo = np.sqrt((g - 1) / (2 * g))
        lattice("subsonic:", (g,), np.linspace(lo * 1.02 + 1e-3, 1.0, 60))
    Mi = mach_axis(1.0, 6.0, ck.pick(12, 150))
    inverse("", [g for g in GAMMAS if g >= 1.05] if ck.thorough else GAMMAS_Q, Mi)
    for nm, fn in (("Ps", sw.Ps_ratio), ("Rho", sw.Rho_ratio), ("Ts", sw.Ts_ratio), ("Mn2", sw.downstream_Mn), ("Pt", sw.Pt_ratio), ("Mn_Ps", sw.Mn_Ps_ratio)):
        ck.true("default:" + nm, np.asarray(fn(M)) == np.asarray(fn(M, 1.4)), M=M)
    for p in (0.99, 0.7, 0.2):
        ck.true("default:Mn_Pt", sw.Mn_Pt_ratio(p) == sw.Mn_Pt_ratio(p, 1.4), ratio=p)
    for g in GAMMAS_Q:
        ck.true("alias", float(sw.Pi_ratio(2.2, g)) == float(sw.Pt_ratio(2.2, g)), name="Pi_ratio", gamma=g)
        ck.true("alias", float(sw.Mn_Pi_ratio(0.7, g)) == float(sw.Mn_Pt_ratio(0.7, g)), name="Mn_Pi_ratio", gamma=g)
        ax = mach_axis(1.0, 50.0, 200)
        ax = ax[np.concatenate([[True], np.diff(ax) > 1e-4])]
        for nm, fn, s in (("Ps", sw.Ps_ratio, 1), ("Rho", sw.Rho_ratio, 1), ("Ts", sw.Ts_ratio, 1), ("Mn2", sw.downstream_Mn, -1)):
            ck.true(nm + ":monotone", s * np.diff(fn(ax, g)) > 0, M=ax[1:], gamma=g)
        ck.true("Pt_ratio:monotone", np.diff(sw.Pt_ratio(ax[ax > 1.01], g)) < 0, M=ax[ax > 1.01][1:], gamma=g)
    vals = [1.0, 1.05, 1.3, 2.0, 3.7, 8.0, 30.0]
    for g in (1.2, 1.4, 5.0 / 3.0):
        for nm, fn in (("Ps", sw.Ps_ratio), ("Rho", sw.Rho_ratio), ("Ts", sw.Ts_ratio), ("Mn2", sw.downstream_Mn), ("Pt", sw.Pt_ratio), ("Mn_Ps", sw.Mn_Ps_ratio)):
            core.polymorphism(ck, "poly:" + nm, lambda x: fn(x, g), vals, big=(1.0, 20.0, 5001), ints=(1, 2, 3, 10), rtol=1e-12)
        for p in (0.4, 0.9, 1.0):
            w = float(sw.Mn_Pt_ratio(p, g))
            ck.close("poly:Mn_Pt", float(np.asarray(sw.Mn_Pt_ratio(np.float64(p), g))), w, rtol=1e-6, ratio=p, gamma=g, form="np.float64")
            ck.close("poly:Mn_Pt", float(np.asarray(sw.Mn_Pt_ratio(np.array(p), g))), w, rtol=1e-6, ratio=p, gamma=g, form="0d")
    G, Mm = core.grid(GAMMAS_Q, vals)
    for nm, fn in (("Ps", sw.Ps_ratio), ("Rho", sw.Rho_ratio), ("Ts", sw.Ts_ratio), ("Mn2", sw.downstream_Mn), ("Pt", sw.Pt_ratio), ("Mn_Ps", sw.Mn_Ps_ratio)):
        ck.close("gamma-array:" + nm, fn(Mm, G), [float(fn(float(a), float(b))) for a, b in zip(Mm, G)], rtol=1e-12, M=Mm, gamma=G)
    calls = []
    for g in (1.3, 1.4):
        for m in (1.5, 3.0):
            for nm, fn in (("Ps", sw.Ps_ratio), ("Rho", sw.Rho_ratio), ("Ts", sw.Ts_ratio), ("Mn2", sw.downstream_Mn), ("Pt", sw.Pt_ratio), ("Mn_Ps", sw.Mn_Ps_ratio)):
                calls.append(("%s(%g,%g)" % (nm, m, g), lambda fn=fn, m=m, g=g: fn(m, g)))
            calls.append(("Mn_Pt(%g,%g)" % (1 / m, g), lambda m=m, g=g: sw.Mn_Pt_ratio(1 / m, g)))
    core.histories(ck, "sequence", calls, depth=ck.pick(2, 3))
    dg.set_gamma(1.3)
    dg.set_r_ideal(300.0)
    lattice("default-gas-changed:", GAMMAS_Q, mach_axis(1.0, 20, 40))
    inverse("default-gas-changed:", (1.2, 1.4, 1.5), np.array([1.1, 1.5, 2.0, 4.0]))
    dg.set_gamma(1.4)
    dg.set_r_ideal(287.1)
