import numpy as np

from mc import core
from mc.ref import area_ratio, mach_axis, total_p_ratio

PROP = {
    "id": "C13",
    "title": "Nozzle regimes from exit/throat section ratio and pressure ratio",
    "statement": "For every exit-to-throat section ratio, the three limiting nozzle pressure ratios are those of choked subsonic flow, shock at exit and adapted supersonic flow, in increasing order. For every pressure ratio the exit Mach number is the one of the regime set by these limits, with mass conservation through a shock in the diffuser, and the jet Mach number accounts for the oblique shock or the expansion beyond. The exit Mach number is continuous across regimes where the flow is.",
    "quantifier": {"over": ["inputs", "histories"], "text": "section ratios 1.001..100, pressure ratios across and at the limits of all regimes, gamma of the default gas 1.4 (and explicit gammas for the limits), all call orders"},
    "why_tests_cant": "Tests take a handful of pressure ratios at one section ratio; regime boundaries are decisions to be right for each section and pressure ratio.",
    "anchors": {
        "files": ["aerokit/instance/nozzle.py", "aerokit/aero/nozzle.py"],
        "mechanism": [{"name": "regime selection", "where": "aerokit/instance/nozzle.py"}],
        "observe_at": ["NPR_choked_subsonic, NPR_choked_supersonic, NPR_shock_at_exit, Ms_from_AsAc_NPR, Madapt_from_AsAc_NPR, nozzle.NPR0/NPRsw/NPR1/Msub/Msh/Msup"],
    },
}
LEVEL = "exploration"
TECH = "bounded exhaustive enumeration of section and pressure ratios on the real code, against mass conservation and jump conditions"
NOTE = "Complete over the stated lattice; module functions are claimed with the unmodified default gas (see known finding)."
RULE = "every section ratio x pressure ratio of every regime and at its limits; non-trivial = choked"


def bisect(f, a, b):
    fa = f(a)
    for _ in range(200):
        m = 0.5 * (a + b)
        if (f(m) > 0) == (fa > 0):
            a = m
        else:
            b = m
    return 0.5 * (a + b)


def limits(s, g):
    sub = bisect(lambda m: area_ratio(m, g) - s, 1e-6, 1.0)
    sup = bisect(lambda m: area_ratio(m, g) - s, 1.0, 1e3)
    sh = np.sqrt((1 + 0.5 * (g - 1) * sup**2) / (g * sup**2 - 0.5 * (g - 1)))
    ps = 1 + 2 * g / (g + 1) * (sup**2 - 1)
    return total_p_ratio(sub, g), total_p_ratio(sup, g) / ps, total_p_ratio(sup, g), sub, sh, sup


def run(ck):
    import aerokit.instance.nozzle as nz
    from aerokit.common import defaultgas as dg

    S = np.unique(np.concatenate([[1.00001, 1.00005, 1.0003, 1.001, 1.01, 1.05, 1.1, 1.2, 1.5, 2.0, 2.636, 3.0, 5.0, 8.0, 10.0, 20.0, 50.0, 100.0], np.geomspace(1.002, 100, ck.pick(20, 400)), np.geomspace(150, 1e5, ck.pick(6, 60))]))
    for s in S:
        s = float(s)
        w = limits(s, 1.4)
        near = 1e-4 if s < 1.01 else 1e-6
        for nm, fn, v in (("subsonic", nz.NPR_choked_subsonic, w[0]), ("supersonic", nz.NPR_choked_supersonic, w[2]), ("shock", nz.NPR_shock_at_exit, w[1])):
            ck.close("limit:" + nm, ck.call("limit:" + nm, fn, s), v, rtol=near * 3, section=s)
        N0, N1, N2, sub, sh, sup = w
        ck.true("limit:order", nz.NPR_choked_subsonic(s) < nz.NPR_shock_at_exit(s) < nz.NPR_choked_supersonic(s), section=s)
        if s > 120:  # pressure ratios of the other regimes are hardly different from 1: only the limits and the two ends
            for q, v in ((1.0, 0.0), (N1 * 1.5, sup), (N2 * 7.0, sup)):
                ck.close("large:exit", ck.call("large:exit", nz.Ms_from_AsAc_NPR, s, q), v, rtol=near * 3, atol=1e-9, section=s, NPR=q)
            continue
        cases = [("sub", 1.0)] + [("sub", 1 + (N0 - 1) * f) for f in np.geomspace(1e-9, 1e-2, ck.pick(8, 30))]
        for f in ck.pick((0.02, 0.3, 0.7, 0.98), np.linspace(0.01, 0.99, 25)):
            cases.append(("sub", 1 + f * (N0 - 1)))
        for f in ck.pick((0.01, 0.1, 0.3, 0.5, 0.7, 0.9, 0.99), np.linspace(0.01, 0.99, 60)):
            cases.append(("shock", N0 + f * (N1 - N0)))
        for f in ck.pick((0.01, 0.2, 0.5, 0.8, 0.99), np.linspace(0.01, 0.99, 40)):
            cases.append(("over", N1 + f * (N2 - N1)))
        for f in (1.001, 1.1, 2.0, 10.0, 1000.0):
            cases.append(("under", N2 * f))
        # both sides of the limits the library itself gives
        o0, o1, o2 = float(nz.NPR_choked_subsonic(s)), float(nz.NPR_shock_at_exit(s)), float(nz.NPR_choked_supersonic(s))
        for e in np.geomspace(3e-8, 1e-3, ck.pick(8, 30)):
            for reg, q, room in (("sub", o0 * (1 - e), o0 - 1), ("shock", o0 * (1 + e), o1 - o0), ("shock", o1 * (1 - e), o1 - o0), ("over", o1 * (1 + e), o2 - o1), ("over", o2 * (1 - e), o2 - o1), ("under", o2 * (1 + e), o2)):
                if s > 1.04 and e * q < 0.2 * room:
                    cases.append((reg, q))
        for reg, q in cases:
            q = float(q)
            co = dict(section=s, NPR=q, regime=reg, nontrivial=reg != "sub")
            ms = ck.call("exit", nz.Ms_from_AsAc_NPR, s, q, ctx={"regime": reg})
            ma = ck.call("jet", nz.Madapt_from_AsAc_NPR, s, q, ctx={"regime": reg})
            if isinstance(ms, core.Failure) or isinstance(ma, core.Failure):
                continue
            ms, ma = float(ms), float(ma)
            if reg == "sub":
                ck.close("exit:subsonic", total_p_ratio(ms, 1.4), q, rtol=1e-10, **co)
                ck.close("exit:slow", ms * ms, 5 * np.expm1(np.log(q) / 3.5), rtol=1e-10, atol=1e-15, **co)
                ck.true("jet=exit", abs(ma - ms) < 1e-12, **co)
            elif reg == "shock":
                # mass: Pt0 A*(throat) = Pt_s A / sigma(Ms), exit static pressure = Pt0 / NPR
                loss = total_p_ratio(ms, 1.4) / q
                ck.close("exit:mass", s / float(area_ratio(ms, 1.4)) * loss, 1.0, rtol=1e-10, **co)
                ck.true("exit:shock-loss", sub - near <= ms <= sh + near and loss <= 1 + near and loss >= total_p_ratio(sh, 1.4) / N1 - near, **co)
                ck.true("jet=exit", abs(ma - ms) < 1e-12, **co)
            else:
                ck.close("exit:supersonic", ms, float(sup), rtol=near * 3, **co)
                if reg == "under":
                    ck.close("jet:expansion", float(total_p_ratio(ma, 1.4)), q, rtol=1e-10, **co)
                    ck.true("jet:faster", ma > ms - 1e-9, **co)
                else:
                    r = N2 / q  # pressure jump through the oblique shock at the lip
                    mn = np.sqrt(1 + (r - 1) * 2.4 / 2.8)
                    sg = np.arcsin(min(mn / sup, 1.0))
                    un, ut = mn, sup * np.cos(sg)
                    rh = 2.4 * mn * mn / (2 + 0.4 * mn * mn)
                    m2 = np.sqrt(((un / rh) ** 2 + ut**2) * rh / r)
                    ck.close("jet:oblique-shock", ma, float(m2), rtol=near if s < 1.05 else 3e-8, **co)
        # continuity across the first limit (subsonic / shock at throat)
        e = 1e-7
        a, b = float(nz.Ms_from_AsAc_NPR(s, N0 * (1 - e))), float(nz.Ms_from_AsAc_NPR(s, N0 * (1 + e)))
        ck.true("continuity", abs(a - b) < 1e-3, section=s)
        a, b = float(nz.Madapt_from_AsAc_NPR(s, N2 * (1 - e))), float(nz.Madapt_from_AsAc_NPR(s, N2 * (1 + e)))
        ck.true("continuity", abs(a - b) < 2e-3, section=s)
    # limits are available on arrays
    for nm, fn, i in (("subsonic", nz.NPR_choked_subsonic, 0), ("supersonic", nz.NPR_choked_supersonic, 2), ("shock", nz.NPR_shock_at_exit, 1)):
        A = S[S >= 1.05]
        ck.close("limit-array:" + nm, ck.call("limit-array", fn, A), [float(limits(x, 1.4)[i]) for x in A], rtol=3e-6, section=A)
    # limits held by a nozzle for its own gamma
    for g in ck.pick((1.1, 1.2, 1.3, 1.4, 5 / 3), (1.05, 1.1, 1.15, 1.2, 1.25, 1.3, 1.33, 1.38, 1.4, 1.5, 1.6, 5 / 3, 2.0)):
        for s in (1.05, 1.5, 2.0, 3.0, 8.0, 20.0):
            w = limits(s, g)
            x = np.linspace(0, 1, 11)
            for form, n in (("section", ck.call("nozzle", nz.nozzle, x, np.where(x < 0.5, 1 + (0.5 - x), 1 + (s - 1) * (x - 0.5) / 0.5), gamma=g)),
                            ("AsoAc", ck.call("nozzle", nz.nozzle, x, 3.0 * (1 + x), AsoAc=s, gamma=g))):
                if isinstance(n, core.Failure):
                    continue
                for k, v in zip(("NPR0", "NPRsw", "NPR1", "Msub", "Msh", "Msup"), w):
                    ck.close("nozzle:" + k, float(getattr(n, k)), float(v), rtol=2e-6 * (1 + 1 / (g - 1)), gamma=g, section=s, form=form)
    calls = []
    for s in (1.5, 3.0):
        for nm in ("NPR_choked_subsonic", "NPR_choked_supersonic", "NPR_shock_at_exit"):
            calls.append(("%s(%g)" % (nm, s), lambda nm=nm, s=s: getattr(nz, nm)(s)))
        for q in (1.02, 1.8, 3.5, 60.0):
            for nm in ("Ms_from_AsAc_NPR", "Madapt_from_AsAc_NPR"):
                calls.append(("%s(%g,%g)" % (nm, s, q), lambda nm=nm, s=s, q=q: getattr(nz, nm)(s, q)))
    calls.append(("nozzle", lambda: np.array([float(v) for v in (lambda n: (n.NPR0, n.NPRsw, n.NPR1))(nz.nozzle(np.linspace(0, 1, 4), np.array([2.0, 1, 1.5, 2]), gamma=1.3))])))
    core.histories(ck, "sequence", calls, depth=2)
    # legacy module gives the same functions
    import aerokit.aero.nozzle as old

    for s, q in ((2.0, 1.05), (2.0, 2.0), (2.0, 5.0), (2.0, 50.0)):
        ck.true("legacy", float(old.Ms_from_AsAc_NPR(s, q)) == float(nz.Ms_from_AsAc_NPR(s, q)) and float(old.NPR_shock_at_exit(s)) == float(nz.NPR_shock_at_exit(s)), section=s, NPR=q)
    # known limit: default gas changed after import
    dg.set_gamma(1.3)
    v = float(nz.Ms_from_AsAc_NPR(2.636, 1.5))
    dg.set_gamma(1.4)
    if abs(v - 0.32586574) > 1e-6 and abs(area_ratio(v, 1.3) * 1.5 / 2.636 / total_p_ratio(v, 1.3) - 1) < 1e-6 and abs(float(nz.NPR_choked_subsonic(2.636)) - float(limits(2.636, 1.4)[0])) < 1e-6:
        ck.violation("default-gas:mixed-gammas", function="Ms_from_AsAc_NPR", gamma=1.3)
