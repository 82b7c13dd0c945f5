import inspect
import itertools

import numpy as np

from mc import core
from mc.checks.c13 import bisect, limits
from mc.ref import area_ratio, total_p_ratio

PROP = {
    "id": "C14",
    "title": "Nozzle flow field for any sequence of pressure ratios",
    "statement": "For every section law, gamma and pressure ratio, the computed nozzle flow conserves mass flow along the nozzle, is isentropic but for at most one shock in the diverging part, is subsonic before the throat and sonic at the throat when choked, and reaches the imposed exit pressure unless it is supersonic there. When there is a shock it stands, within one cell, where its total pressure loss makes the exit pressure the imposed one. The flow only depends on the last pressure ratio set, contains no undefined value, and neither the given section nor the default gas is altered.",
    "quantifier": {"over": ["inputs", "histories"], "text": "section laws (converging-diverging, converging, asymmetric, coarse and fine grids) x gamma 1.1..5/3 x pressure ratios across and next to all regime limits; all sequences of pressure ratios up to a depth on one nozzle"},
    "why_tests_cant": "Tests set one or two pressure ratios on one nozzle; limits of regimes, grid effects, other gammas and re-use of one object are not reached.",
    "anchors": {
        "files": ["aerokit/instance/nozzle.py"],
        "state": [{"name": "Mach, static and total pressure arrays", "where": "aerokit/instance/nozzle.py", "meaning": "flow of the last pressure ratio"}],
        "mechanism": [{"name": "regime selection and shock positioning", "where": "aerokit/instance/nozzle.py"}],
        "observe_at": ["Mach(), Ps(), Ptot()"],
    },
}
LEVEL = "model_checking"
TECH = "breadth-first search over histories of pressure ratios on the real nozzle object, and exhaustive lattice of section laws, against quasi-one-dimensional conservation laws"
NOTE = "Complete over the stated lattice and histories; shocks up to upstream Mach number 6."
RULE = "every section law x gamma x pressure ratio; every history of pressure ratios up to the depth, each flow compared with the one of a fresh nozzle; non-trivial = choked"


def laws(thorough):
    out = []
    for N in (5, 9, 12, 60) + ((7, 25, 201) if thorough else ()):
        x = np.linspace(0, 1, N)
        for xt in (0.4, 0.25, 0.7) if thorough else (0.4, 0.7) if N > 9 else (0.4,):
            for ratio in (1.05, 1.5, 3.0, 6.0):
                for inlet in (1.2, 3.0):
                    out.append(("cd/N%d/xt%g/out%g/in%g" % (N, xt, ratio, inlet), x, np.where(x < xt, 1 + (inlet - 1) * ((xt - x) / xt) ** 2, 1 + (ratio - 1) * ((x - xt) / (1 - xt)) ** 2) * (0.37 if N == 12 else 1.0)))
                    if N > 9 and (thorough or ratio in (1.5, 6.0)):
                        out.append(("lin/N%d/xt%g/out%g/in%g" % (N, xt, ratio, inlet), x, np.where(x < xt, 1 + (inlet - 1) * (xt - x) / xt, 1 + (ratio - 1) * (x - xt) / (1 - xt))))
    # long throats, chambers, cylindrical inlets and outlets
    x = np.linspace(0, 1, 31)
    out.append(("throat-plateau", x, np.interp(x, [0, 0.3, 0.5, 1], [2.0, 1.0, 1.0, 3.0])))
    out.append(("throat-two-cells", np.arange(12.0), np.array([3.0, 2.2, 1.5, 1.1, 1.0, 1.0, 1.05, 1.2, 1.4, 1.6, 1.8, 2.1])))
    out.append(("chamber", x, np.interp(x, [0, 0.2, 0.5, 1], [1.4, 4.0, 1.0, 2.0])))
    out.append(("cylinder-inlet", x, np.interp(x, [0, 0.2, 0.5, 1], [2.5, 2.5, 1.0, 2.0])))
    out.append(("cylinder-outlet", x, np.interp(x, [0, 0.3, 0.8, 1], [2.0, 1.0, 2.0, 2.0])))
    out.append(("kink", x, np.interp(x, [0, 0.3, 0.5, 0.52, 1], [2.0, 1.0, 1.1, 1.7, 1.9])))
    for N in (6, 21):
        x = np.linspace(0, 1, N)
        out.append(("conv/N%d" % N, x, 2.0 - x))
        out.append(("div/N%d" % N, x, 1.0 + 2 * x))
    return out


def ratios(L, thorough):
    N0, N1, N2 = [float(v) for v in L[:3]]
    q = [1 + f * (N0 - 1) for f in (0.05, 0.5, 0.9, 0.99, 1 - 1e-9, 1 - 1e-15)]
    q += [N0 + f * (N1 - N0) for f in (0, 1e-15, 1e-9, 1e-3, 0.01, 0.1, 0.3, 0.5, 0.8, 0.99, 1 - 1e-9, 1)]
    q += [N1 * 1.01, 0.5 * (N1 + N2), N2, N2 * 2, N2 * 50]
    if thorough:
        q += [1 + f * (N0 - 1) for f in np.linspace(0.02, 0.98, 20)] + [N0 + f * (N1 - N0) for f in np.linspace(0.02, 0.98, 60)]
    return [v for v in q if v > 1]


def shock_mach(loss, g):
    f = lambda m: g / (g - 1) * np.log((g + 1) * m * m / (2 + (g - 1) * m * m)) - np.log(1 + 2 * g / (g + 1) * (m * m - 1)) / (g - 1) - np.log(loss)
    return bisect(f, 1.0, 50.0)


_SUP = {}


def supersonic(Ar, g):
    k = (Ar.tobytes(), g)
    if k not in _SUP:
        a, b = np.ones_like(Ar), np.full_like(Ar, 60.0)
        for _ in range(60):
            m = 0.5 * (a + b)
            lo = area_ratio(m, g) < Ar
            a, b = np.where(lo, m, a), np.where(lo, b, m)
        _SUP[k] = np.where(Ar <= 1 + 1e-12, 1.0, 0.5 * (a + b))
    return _SUP[k]


def facts(ck, tag, n, A, g, L, q, **co):
    M, Ps, Pt = np.asarray(n.Mach(), dtype=float), np.asarray(n.Ps(), dtype=float), np.asarray(n.Ptot(), dtype=float)
    ia = np.arange(len(A))
    c = dict(gamma=g, NPR=q, cell=ia, **co)
    N0, N1, N2, sub, sh, sup = L
    it = int(np.argmin(A))
    Ar = A / A.min()
    nt = q > N0
    if not ck.true(tag + "defined", np.isfinite(M) & np.isfinite(Ps) & np.isfinite(Pt) & (M > 0) & (Ps > 0), nontrivial=nt, **c):
        return False
    ok = ck.close(tag + "static", Ps * total_p_ratio(M, g), Pt, rtol=1e-11 * (1 + g / (g - 1)), nontrivial=nt, **c)
    # mass flow per unit throat section and total pressure (critical mass flow = 1)
    mf = Pt * Ar / area_ratio(M, g)
    ok &= ck.true(tag + "mass", np.abs(mf / mf[0] - 1) <= 3e-6, nontrivial=nt, **c)
    ok &= ck.true(tag + "inlet-total", np.abs(Pt[: it + 1] - 1.0) < 1e-9, gamma=g, NPR=q, cell=ia[: it + 1], **co)
    ok &= ck.true(tag + "subsonic-inlet", M[: it + 1] <= 1 + 1e-3, gamma=g, NPR=q, cell=ia[: it + 1], **co)
    lim = 1e-7
    if q < N0 * (1 - lim):
        ok &= ck.true(tag + "subsonic", (M < 1) & (np.abs(Pt - 1.0) < 1e-9), nontrivial=nt, **c)
        ok &= ck.close(tag + "exit-pressure", float(Ps[-1]), 1 / q, rtol=1e-5, gamma=g, NPR=q, **co)
        ok &= ck.true(tag + "not-choked", mf[0] < 1 + 1e-6, gamma=g, NPR=q, **co)
        # exit Mach of the pressure ratio gives the mass flow
        me = np.sqrt(2 / (g - 1) * np.expm1((g - 1) / g * np.log(q)))
        ok &= ck.close(tag + "mass-level", float(mf[0]), float(Ar[-1] / area_ratio(me, g)), rtol=1e-5, gamma=g, NPR=q, **co)
    elif q > N0 * (1 + lim):
        ok &= ck.true(tag + "choked", abs(mf[0] - 1) < 3e-6 and abs(M[it] - 1) < 1e-3, gamma=g, NPR=q, **co)
        if q >= N1 * (1 + lim):
            ok &= ck.true(tag + "supersonic", (M[it + 1 :] >= 1 - 1e-6) & (np.abs(Pt[it + 1 :] - 1.0) < 1e-9), gamma=g, NPR=q, cell=ia[it + 1 :], **co)
            ok &= ck.close(tag + "exit-adapted", float(Ps[-1]), float(1 / N2), rtol=1e-4, gamma=g, NPR=q, **co)
        elif q < N1 * (1 - lim) and A[-1] > A.min() * 1.0001:
            ok &= ck.close(tag + "exit-pressure", float(Ps[-1]), 1 / q, rtol=1e-5, gamma=g, NPR=q, **co)
            ms = bisect(lambda m: float(total_p_ratio(m, g) * Ar[-1] / area_ratio(m, g)) / q - 1, 1e-4, 1.0)
            loss = float(total_p_ratio(ms, g)) / q
            m1 = shock_mach(min(loss, 1.0), g)
            d = Pt < 1.0 - 1e-13
            if loss < 1 - 1e-7:
                ok &= ck.true(tag + "one-loss", np.all(np.diff(d.astype(int)) >= 0) and np.allclose(Pt[d], loss, rtol=1e-6) and d[-1], gamma=g, NPR=q, **co)
                msup = supersonic(Ar, g)
                i = np.arange(len(A)) > it
                up = i & (msup < m1 - 0.02) & (ia < len(A) - 1)
                dn = i & (msup > m1 + 0.02)
                ok &= ck.true(tag + "shock-place", (M[up] > 1 - 1e-3) & ~d[up], gamma=g, NPR=q, cell=ia[up], shock_Mach=m1, **co)
                ok &= ck.true(tag + "shock-place", (M[dn] < 1) & d[dn], gamma=g, NPR=q, cell=ia[dn], shock_Mach=m1, **co)
    return bool(ok)


def run(ck):
    import aerokit.instance.nozzle as nz
    from aerokit.common import defaultgas as dg

    inspect.stack = lambda context=1: []  # cost of the library's non-convergence message
    gam = ck.pick((1.1, 1.3, 1.4, 5 / 3), (1.05, 1.1, 1.2, 1.25, 1.3, 1.33, 1.4, 1.5, 5 / 3))
    L14 = {}

    def lattice(tag, laws, gam):
        for g in gam:
            for nm, x, A in laws:
                s = float(A[-1] / A.min())
                if (s, g) not in L14:
                    L14[s, g] = limits(max(s, 1.0), g) if s > 1 else (total_p_ratio(1.0, g),) * 3 + (1.0,) * 3
                L = L14[s, g]
                if L[5] > 6:
                    continue
                x0, A0 = x.copy(), A.copy()
                n = ck.call(tag + "build", nz.nozzle, x, A, gamma=g, ctx={"law": nm})
                if isinstance(n, core.Failure):
                    continue
                for q in ratios(L, ck.thorough):
                    r = ck.call(tag + "set_NPR", n.set_NPR, q, ctx={"law": nm, "gamma": g})
                    if isinstance(r, core.Failure):
                        continue
                    facts(ck, tag, n, A, g, L, q, law=nm)
                ck.true(tag + "inputs", np.array_equal(x, x0) and np.array_equal(A, A0), law=nm, gamma=g)

    lattice("", laws(ck.thorough), gam)
    # many sections, throat away from any regular subset of them
    x = np.linspace(0, 1, ck.pick(389, 1501))
    fine = []
    for xt in (0.3333, 0.7219):
        for ratio in (1.5, 4.0):
            fine.append(("fine/xt%g/out%g" % (xt, ratio), x, np.where(x < xt, 1 + ((xt - x) / xt) ** 2, 1 + (ratio - 1) * ((x - xt) / (1 - xt)) ** 2)))
    lattice("", fine, (1.4, 1.25))
    # forms of construction
    x = np.linspace(0, 1, 15)
    A = np.where(x < 0.4, 1 + (0.4 - x), 1 + 2 * (x - 0.4))
    for g in (1.3, 1.4):
        L = limits(float(A[-1] / A.min()), g)
        for q in (1.01, 0.5 * (L[0] + L[1]), L[2]):
            ref = nz.nozzle(x, A, gamma=g)
            ref.set_NPR(q)
            R = [ref.Mach().copy(), ref.Ps().copy(), ref.Ptot().copy()]
            for form, n in (("NPR-in-constructor", lambda: nz.nozzle(x, A, gamma=g, NPR=q)), ("AsoAc", lambda: nz.nozzle(x, A, AsoAc=A[-1] / A.min(), gamma=g, NPR=q)),
                            ("scaled", lambda: nz.nozzle(10 * x, 7.0 * A, gamma=g, NPR=q)), ("references", lambda: nz.nozzle(x, A, gamma=g, NPR=q, ref_rttot=3e5, scale_ps=1.0))):
                n = ck.call("form", n, ctx={"form": form})
                if not isinstance(n, core.Failure):
                    for nm, a, b in zip(("M", "Ps", "Pt"), (n.Mach(), n.Ps(), n.Ptot()), R):
                        ck.close("form:" + nm, a, b, rtol=1e-6, form=form, gamma=g, NPR=q, cell=np.arange(len(x)))
    # section ratio given apart from the section law (throat out of the given law): unchoked flows
    for g, sec, k in itertools.product((1.25, 1.4), ([2.2, 2.1, 2.0], [1.0, 1.2, 1.5, 2.0], [3.0, 2.0, 2.5, 4.0], [2.0] * 4), (1.0, 1.01, 1.3, 3.0)):
        sec = np.array(sec)
        AsoAc = float(sec[-1] / sec.min() * k)
        if AsoAc <= 1.001:
            continue
        L = limits(AsoAc, g)
        for q in (1 + f * (float(L[0]) - 1) for f in (0.02, 0.3, 0.7, 0.95)):
            co = dict(section=str(sec), AsoAc=AsoAc, gamma=g, NPR=q, cell=np.arange(len(sec)))
            n = ck.call("AsoAc", nz.nozzle, np.arange(len(sec)), sec, AsoAc=AsoAc, gamma=g, NPR=q, ctx=co)
            if isinstance(n, core.Failure):
                continue
            M, Ps, Pt = (np.asarray(v, dtype=float) for v in (n.Mach(), n.Ps(), n.Ptot()))
            me = np.sqrt(2 / (g - 1) * np.expm1((g - 1) / g * np.log(q)))
            ck.true("AsoAc:subsonic", (M < 1) & (M > 0) & (np.abs(Pt - 1) < 1e-9), **co)
            ck.close("AsoAc:mass", area_ratio(M, g) / area_ratio(me, g), sec / sec[-1], rtol=1e-6, **co)
            ck.close("AsoAc:static", Ps * total_p_ratio(M, g), Pt, rtol=1e-11, **co)
            ck.close("AsoAc:exit", float(Ps[-1]), 1 / q, rtol=1e-6, **dict(co, cell=len(sec) - 1))
    # representation of the section law: integers, lists of both kinds
    for sec, g in itertools.product(([4, 3, 2, 1, 2, 3], [3, 2, 2, 3, 5], [5, 4, 3, 2], [1, 2, 3]), (1.3, 1.4)):
        F = np.array(sec, dtype=float)
        L = limits(F[-1] / F.min(), g) if F[-1] > F.min() else (total_p_ratio(1.0, g),) * 3
        for q in (1.01, 0.7 * L[0] + 0.3 * L[1], 0.5 * (L[1] + L[2]), 2.0 * L[2]):
            ref = nz.nozzle(np.arange(len(F)) * 1.0, F, gamma=g, NPR=float(q))
            for form, xx, aa in (("int64", np.arange(len(F)), np.array(sec)), ("int32", np.arange(len(F), dtype=np.int32), np.array(sec, dtype=np.int32)), ("float32-x", np.arange(len(F), dtype=np.float32), F), ("reversed-memory", (np.arange(len(F)) * 1.0)[::-1][::-1], F[::-1].copy()[::-1])):
                n = ck.call("representation", nz.nozzle, xx, aa, gamma=g, NPR=float(q), ctx={"form": form})
                if isinstance(n, core.Failure):
                    continue
                for nm, u, v in (("M", n.Mach(), ref.Mach()), ("Ps", n.Ps(), ref.Ps()), ("Pt", n.Ptot(), ref.Ptot())):
                    ck.close("representation:" + nm, u, v, rtol=1e-9, form=form, section=str(sec), gamma=g, NPR=q, cell=np.arange(len(F)))
    d = nz.nozzle(x, A, NPR=1.8)
    ck.true("default-gamma", np.array_equal(d.Mach(), nz.nozzle(x, A, gamma=1.4, NPR=1.8).Mach()))
    # histories of pressure ratios on one object
    for g in (1.3, 1.4):
        L = limits(float(A[-1] / A.min()), g)
        qs = [1.01, float(0.5 * (1 + L[0])), float(L[0]), float(0.9 * L[0] + 0.1 * L[1]), float(0.3 * L[0] + 0.7 * L[1]), float(L[1]), float(L[2]), float(3 * L[2])]
        fresh = {}
        for q in qs:
            n = nz.nozzle(x, A, gamma=g, NPR=q)
            fresh[q] = [n.Mach().copy(), n.Ps().copy(), n.Ptot().copy()]

        def ev(q):
            def f(I, S):
                if I["held"] is not None:
                    I["old"].append((I["held"], [a.copy() for a in I["held"]]))
                I["n"].set_NPR(q)
                I["held"] = [I["n"].Mach(), I["n"].Ps(), I["n"].Ptot()]
                S[0] = q

            return ("%.6g" % q, f)

        def obs(I, S, hist):
            if S[0] is None:
                return True
            n = I["n"]
            h = "/".join(hist)
            same = all(core.near(a, b, 1e-7) for a, b in zip((n.Mach(), n.Ps(), n.Ptot()), fresh[S[0]]))
            ok = ck.true("history=fresh", same, history=h, gamma=g)
            for a, b in I["old"]:
                ok &= ck.true("history:earlier-fields-kept", all(np.array_equal(p, q) for p, q in zip(a, b)), history=h, gamma=g)
            ok &= ck.true("history:gas", dg.gamma() == 1.4 and dg.r_ideal() == 287.1 and np.array_equal(A, A1), history=h, gamma=g)
            return bool(ok)

        A1 = A.copy()
        core.bfs(ck, "history-g%g" % g, lambda: ({"n": nz.nozzle(x, A, gamma=g), "held": None, "old": []}, [None]), [ev(q) for q in qs], ck.pick(3, 4), start=obs)
    # two nozzles used alternately
    B = np.where(x < 0.6, 1 + 2 * (0.6 - x), 1 + (x - 0.6))
    n1, n2 = nz.nozzle(x, A, gamma=1.3), nz.nozzle(x, B, gamma=1.4)

    def use(n, q):
        n.set_NPR(q)
        return np.array([n.Mach(), n.Ps(), n.Ptot()])

    core.histories(ck, "two-objects", [("A%g" % q, lambda q=q: use(n1, q)) for q in (1.01, 1.9, 20.0)] + [("B%g" % q, lambda q=q: use(n2, q)) for q in (1.01, 1.7, 20.0)], depth=ck.pick(3, 4))
    dg.set_gamma(1.2)
    dg.save_default()
    dg.set_gamma(1.25)
    lattice("default-gas-changed:", [l for l in laws(False) if l[0].startswith("cd/N12")], (1.3, 1.4))
    ck.true("default-gas-kept", dg.gamma() == 1.25)
    dg.restore_default()
    ck.true("saved-gas-kept", dg.gamma() == 1.2)
    dg.set_gamma(1.4)
    dg.save_default()
