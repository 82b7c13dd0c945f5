import numpy as np

from mc import core
from mc.ref import GAMMAS, GAMMAS_Q, area_ratio, mach_axis, total_T_ratio

PROP = {
    "id": "C02",
    "title": "Mass-flow function and its subsonic and supersonic inverses",
    "statement": "The section ratio to the critical section and the mass-flow weight are those of mass conservation in isentropic flow for every Mach number and gamma. For every section ratio not lower than 1, the subsonic and the supersonic inverse each return a Mach number of their own branch which gives that section ratio back, for scalars and arrays alike. An inverse started from a user guess stays on the branch of the guess when the target is close to it.",
    "quantifier": {"over": ["inputs", "histories"], "text": "Mach 1e-3..100, section ratios 1..1e4 (subsonic) and 1..1000 (supersonic), gamma in [1.05,2], all argument shapes and call orders"},
    "why_tests_cant": "Tests sample a handful of section ratios at gamma 1.4; convergence of the iterative inverses to the right branch must hold for every ratio and gamma.",
    "anchors": {
        "files": ["aerokit/aero/MassFlow.py"],
        "mechanism": [{"name": "initial guess and secant iteration", "where": "aerokit/aero/MassFlow.py"}],
        "observe_at": ["WeightMassFlow", "Sigma_Mach", "Mach_Sigma", "MachSub_Sigma", "MachSup_Sigma"],
    },
}
LEVEL = "exploration"
TECH = "bounded exhaustive enumeration of inputs and call sequences on the real code, against mass-conservation oracle"
NOTE = "Complete over the stated lattice; inverses are judged on backward error and branch. User guesses far from the target are outside the claim (see known finding)."
RULE = "every point of the section-ratio/Mach x gamma lattice, both branches, every argument representation, every pair of calls; non-trivial = section ratio > 1 or Mach != 1"


def branch_ok(ck, kind, m, s, g, sub, tight=False, **co):
    s = np.asarray(s, dtype=float)
    m = np.asarray(m, dtype=float)
    slack = 0.0 if sub and tight else np.where(s < 1 + 1e-11, 4e-6, 1e-7)
    side = (m > 0) & (m <= 1 + slack) if sub else (m >= 1 - slack)
    ck.true(kind + ":branch", side, nontrivial=s > 1, sigma=s, gamma=g, got=m, **co)
    # the iteration stops on an absolute Mach step of 1.5e-8: d(sigma)/sigma = |M2-1|/M/(1+..) dM
    dm = 3e-8 * np.maximum(1, m)
    tol = 2e-8 + dm * np.abs(m * m - 1) / (m * total_T_ratio(m, g))
    if tight:
        tol = np.minimum(tol, 1e-6)
    ck.true(kind + ":value", np.abs(area_ratio(m, g) / s - 1) <= tol, nontrivial=s > 1, sigma=s, gamma=g, M=m, **co)


def run(ck):
    import aerokit.aero.MassFlow as mf

    raw = mf  # scalar guesses far from one element are no guess for its separate call
    mf = ck.each(mf, loose=("Mach_Sigma", "MachSub_Sigma", "MachSup_Sigma"))
    from aerokit.common import defaultgas as dg

    def direct(tag, gammas, M):
        for g in gammas:
            S = ck.call(tag + "Sigma", mf.Sigma_Mach, M, g)
            ck.close(tag + "Sigma", S, area_ratio(M, g), rtol=3e-14 * (2 + 1 / (g - 1)), M=M, gamma=g, nontrivial=M != 1)
            tt = total_T_ratio(M, g)
            # m sqrt(r Tt) / (A Pt) with Pt = r Tt = 1
            want = (1 / tt) ** (1 / (g - 1)) * M * np.sqrt(g / tt)
            for r in (287.1, 1.0, 2077.0):
                ck.close(tag + "Weight", ck.call(tag + "Weight", mf.WeightMassFlow, M, r, g), want, rtol=3e-14 * (2 + 1 / (g - 1)), M=M, gamma=g, r=r)
            W = mf.WeightMassFlow(M, gamma=g)
            ck.close(tag + "Weight*Sigma", W * mf.Sigma_Mach(M, gamma=g), mf.WeightMassFlow(1.0, gamma=g), rtol=1e-12 * (1 + 1 / (g - 1)), M=M, gamma=g)
            ck.true(tag + "Sigma>=1", S >= 1 - 1e-14 * (2 + 1 / (g - 1)), M=M, gamma=g)

    M = mach_axis(1e-3, 100.0, ck.pick(200, 2000))
    direct("", GAMMAS, M)
    far = np.concatenate([np.geomspace(1e-9, 1e-3, ck.pick(25, 300)), np.geomspace(100.0, 1e5, ck.pick(25, 300))])
    direct("far:", [g for g in GAMMAS if g >= 1.1], far)
    for g in (1.2, 1.4, 5.0 / 3.0):  # as separate calls
        m = np.concatenate([far, 1 + np.concatenate([-np.geomspace(1e-9, 0.3, 30), [0.0], np.geomspace(1e-9, 0.3, 30)])])
        ck.close("scalar:Sigma", np.array([float(mf.Sigma_Mach(float(x), g)) for x in m]), area_ratio(m, g), rtol=3e-13, M=m, gamma=g)
        w = (1 / total_T_ratio(m, g)) ** (1 / (g - 1)) * m * np.sqrt(g / total_T_ratio(m, g))
        ck.close("scalar:Weight", np.array([float(mf.WeightMassFlow(float(x), gamma=g)) for x in m]), w, rtol=3e-13, M=m, gamma=g)
    ck.close("default:Sigma", mf.Sigma_Mach(M), area_ratio(M, 1.4), rtol=1e-12, M=M)
    ck.close("default:Weight", mf.WeightMassFlow(M), mf.WeightMassFlow(M, 287.1, 1.4), rtol=1e-14, M=M)

    n = ck.pick(90, 1500)
    sub = np.unique(np.concatenate([[1.0], 1 + np.geomspace(1e-13, 1e12, ck.pick(130, 2000)), np.linspace(1, 20, n)]))
    sup = sub[sub <= 1e8]
    gam = [g for g in GAMMAS if g >= 1.05]

    def inverse(tag, gammas, sub, sup):
        for g in gammas:
            for nm, fn, ss, isub in (("MachSub", mf.MachSub_Sigma, sub, True), ("MachSup", mf.MachSup_Sigma, sup, False)):
                m = ck.call(tag + nm + ":array", fn, ss, g)
                if not isinstance(m, core.Failure):
                    branch_ok(ck, tag + nm + ":array", m, ss, g, isub, True)
                ms = [ck.call(tag + nm + ":scalar", fn, float(s), gamma=g) for s in ss]
                if not any(isinstance(v, core.Failure) for v in ms):
                    ms = np.array([float(v) for v in ms])
                    branch_ok(ck, tag + nm + ":scalar", ms, ss, g, isub, True)
                    far = ss > 1 + 1e-4
                    if not isinstance(m, core.Failure):
                        ck.close(tag + nm + ":array=scalar", np.asarray(m)[far], ms[far], rtol=1e-6, atol=5e-8, sigma=ss[far], gamma=g)

    inverse("", gam if ck.thorough else [g for g in gam if g not in (1.38, 1.399, 1.401, 1.45, 1.25)], sub, sup)
    for nm, fn, isub in (("MachSub", mf.MachSub_Sigma, True), ("MachSup", mf.MachSup_Sigma, False)):
        branch_ok(ck, "default:" + nm, fn(sup), sup, 1.4, isub)
    # user guess, scalar then array (each element decides its branch)
    for g in gam:
        for init in (1.5, 2.0, 2.5):
            for m in np.linspace(init - 0.3, init + 0.3, ck.pick(13, 121)):
                s = area_ratio(m, g)
                v = ck.call("Mach_Sigma:sup-guess", mf.Mach_Sigma, s, init, g)
                if not isinstance(v, core.Failure):
                    branch_ok(ck, "Mach_Sigma:sup-guess", v, s, g, False, init=init)
        for m in np.linspace(1.02, 2.8, 12):
            s = area_ratio(m, g)
            branch_ok(ck, "Mach_Sigma:default-guess", mf.Mach_Sigma(s, gamma=g), s, g, False)
        for init in (0.3, 0.5, 0.8):
            for m in np.linspace(init - 0.1, init + 0.1, ck.pick(13, 121)):
                s = area_ratio(m, g)
                v = ck.call("Mach_Sigma:sub-guess", mf.Mach_Sigma, s, init, g)
                if not isinstance(v, core.Failure):
                    branch_ok(ck, "Mach_Sigma:sub-guess", v, s, g, True, init=init)
        for n in (2, 3, 7, 40):
            m = np.where(np.arange(n) % 2 == 0, np.linspace(0.42, 0.62, n), np.linspace(1.7, 2.3, n))
            v = ck.call("Mach_Sigma:array-guess", mf.Mach_Sigma, area_ratio(m, g), np.where(m < 1, 0.5, 2.0), g)
            if not isinstance(v, core.Failure):
                ck.close("Mach_Sigma:array-guess", v, m, rtol=1e-6, n=n, gamma=g, M=m)
        # guesses of both branches, close to each other or not: each element on the branch of its own guess
        for lo in (0.3, 0.5, 0.7, 0.85, 0.95):
            for hi in (1.05, 1.15, 1.4, 2.0, 3.0):
                for pat in ((0, 1), (1, 0), (0, 0, 1), (1, 1, 0), (1,) * 9 + (0,)):
                    i0 = np.where(np.array(pat) == 1, hi, lo)
                    m = 1 + (i0 - 1) * 1.04
                    v = ck.call("Mach_Sigma:two-branches", mf.Mach_Sigma, area_ratio(m, g), i0, g)
                    if not isinstance(v, core.Failure):
                        ck.close("Mach_Sigma:two-branches", v, m, rtol=2e-6, pattern=str(pat), low=lo, high=hi, gamma=g)
        # arrays of sections with one guess, or none, choosing the branch
        sg = np.unique(np.concatenate([1 + np.geomspace(1e-6, 60.0 if g > 1.15 else 8.0, ck.pick(40, 300)), np.arange(2.0, 9.0), [1.5, 2.5]]))
        for kw, sub in (({}, False), (dict(Mach=3.3), False), (dict(Mach=0.4), True), (dict(Mach=0.97), True)):
            for x in (sg, sg[::-1], sg[:2], sg[3:9].reshape(2, 3)):
                v = ck.call("Mach_Sigma:sections", raw.Mach_Sigma, x, gamma=g, **kw)
                if not isinstance(v, core.Failure) and ck.true("Mach_Sigma:sections", np.shape(v) == x.shape and bool(np.all((np.asarray(v) < 1) == sub)), gamma=g, guess=str(kw), got=v):
                    ck.close("Mach_Sigma:sections", area_ratio(v, g), x, rtol=1e-7, sections=x, gamma=g, guess=str(kw))
        for nm, fn in (("Sub", mf.MachSub_Sigma), ("Sup", mf.MachSup_Sigma)):
            x = np.unique(np.concatenate([1 + np.geomspace(1e-8, 1e3, ck.pick(60, 600)), np.arange(2.0, 40.0), np.arange(1.05, 2.0, 0.05)]))
            for form in ("array", "scalar"):
                v = ck.call("grid:" + nm, fn, x, g) if form == "array" else np.array([float(fn(float(t), gamma=g)) for t in x])
                if not isinstance(v, core.Failure):
                    ck.true("grid:%s:branch" % nm, (v <= 1) if nm == "Sub" else (v >= 1 - 1e-7), section=x, gamma=g, form=form, got=v)
                    ck.close("grid:" + nm, area_ratio(v, g), x, rtol=1e-7, section=x, gamma=g, form=form)
        # long arrays
        for n in (150, 201, 400, 1001):
            for i0, m in ((2.0, np.linspace(1.4, 2.6, n)), (0.5, np.linspace(0.42, 0.62, n))):
                for nm, s, w in (("spread", area_ratio(m, g), m), ("one-far", np.where(np.arange(n) == n // 3, area_ratio(m[-1], g), area_ratio(i0, g)), np.where(np.arange(n) == n // 3, m[-1], i0))):
                    v = ck.call("Mach_Sigma:long-array", mf.Mach_Sigma, s, np.full(n, i0), g)
                    if not isinstance(v, core.Failure):
                        ck.close("Mach_Sigma:long-array", v, w, rtol=1e-6, n=n, gamma=g, guess=i0, data=nm)
    # representation
    svals = [1.001, 1.1, 1.5, 2.0, 3.0, 7.0, 20.0]
    for g in (1.2, 1.4, 5.0 / 3.0):
        core.polymorphism(ck, "poly:Sigma", lambda x: mf.Sigma_Mach(x, g), [0.05, 0.3, 0.7, 1.0, 1.3, 2.0, 8.0], big=(0.1, 20.0, 5001), ints=(1, 2, 3, 10))
        core.polymorphism(ck, "poly:Weight", lambda x: mf.WeightMassFlow(x, gamma=g), [0.05, 0.3, 0.7, 1.0, 1.3, 2.0, 8.0], big=(0.1, 20.0, 5001), ints=(1, 2, 3, 10))
        core.polymorphism(ck, "poly:MachSub", lambda x: mf.MachSub_Sigma(x, g), svals, rtol=1e-6, big=(1.0005, 30.0, 3001), ints=(2, 3, 10))
        core.polymorphism(ck, "poly:MachSup", lambda x: mf.MachSup_Sigma(x, g), svals, rtol=1e-6, big=(1.0005, 30.0, 3001), ints=(2, 3, 10))
    G, Mm = core.grid(GAMMAS_Q, [0.1, 0.5, 1.0, 1.7, 4.0])
    ck.close("gamma-array:Sigma", mf.Sigma_Mach(Mm, G), area_ratio(Mm, G), rtol=1e-12, M=Mm, gamma=G)
    G = np.linspace(1.15, 1.67, ck.pick(14, 100))
    for x in (1.01, 1.7, 3.0, 8.0):
        for kw, sub in (({}, False), (dict(Mach=0.4), True)):
            v = ck.call("Mach_Sigma:gammas", raw.Mach_Sigma, x, gamma=G, **kw)
            if not isinstance(v, core.Failure):
                ck.true("Mach_Sigma:gammas", bool(np.all((v < 1) == sub)), section=x, guess=str(kw))
                ck.close("Mach_Sigma:gammas", area_ratio(v, G), x, rtol=1e-7, section=x, gamma=G, guess=str(kw))
    calls = []
    for g in (1.3, 1.4):
        for s in (1.2, 3.0):
            calls += [("Sub(%g,%g)" % (s, g), lambda s=s, g=g: mf.MachSub_Sigma(s, g)), ("Sup(%g,%g)" % (s, g), lambda s=s, g=g: mf.MachSup_Sigma(s, g)),
                      ("Sigma(%g,%g)" % (s, g), lambda s=s, g=g: mf.Sigma_Mach(s, g)), ("Weight(%g,%g)" % (s, g), lambda s=s, g=g: mf.WeightMassFlow(s, gamma=g)),
                      ("SubArr(%g,%g)" % (s, g), lambda s=s, g=g: mf.MachSub_Sigma(np.array([s, 2 * s]), g))]
    # arrays made of the same values in another order, the same sum or mean, with a guess for each
    for nm, s in (("a", [1.5, 2.5]), ("b", [2.5, 1.5]), ("c", [2.0, 2.0]), ("d", [1.5, 2.0, 2.5]), ("e", [2.0, 2.5, 1.5])):
        calls += [("guess:" + nm, lambda s=s: mf.Mach_Sigma(np.array(s), np.full(len(s), 2.0))), ("low-guess:" + nm, lambda s=s: mf.Mach_Sigma(np.array(s), np.full(len(s), 0.4)))]
    core.histories(ck, "sequence", calls, depth=ck.pick(2, 3))
    few = np.array([1.0, 1.01, 1.5, 3.0, 10.0])
    dg.set_gamma(1.3)
    direct("default-gas-changed:", GAMMAS_Q, mach_axis(0.01, 20, 30))
    inverse("default-gas-changed:", (1.2, 1.4, 5 / 3), few, few)
    dg.set_gamma(1.4)
    # known limit of the iteration: far guess
    v = mf.Mach_Sigma(area_ratio(12.0, 1.05), 2.0, 1.05)
    if not abs(area_ratio(v, 1.05) / area_ratio(12.0, 1.05) - 1) < 1e-5:
        ck.violation("Mach_Sigma:far-guess-returned", gamma=1.05, guess=2.0)
