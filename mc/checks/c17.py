import itertools

import numpy as np

from mc import core

PROP = {
    "id": "C17",
    "title": "Ordinary differential equation integrators",
    "statement": "For every right-hand side, step and range, the integrators return abscissae that go monotonically from the start to the end of the range without leaving it, starting from the given initial value. The fixed-step integrator has fourth order accuracy, never takes a step longer than asked, and is exact up to the corresponding polynomial degree; the adaptive one has a fifth order increment, keeps its error under the tolerance whatever the initial step, and adapts its step. Long integrations go to the end of the range or are refused, never silently shortened. Neither alters its arguments.",
    "quantifier": {"over": ["inputs"], "text": "problems (all polynomials up to degree 5, linear scalar and coupled systems, non-linear, time-dependent, stiff gradients) x starts x ranges x steps (dividing or not the range, longer than the range) x tolerances 1e-3..1e-11, forwards and backwards for the adaptive one"},
    "why_tests_cant": "No existing test runs the integrators.",
    "anchors": {
        "files": ["aerokit/common/_ode.py"],
        "mechanism": [{"name": "Runge-Kutta increments, step control and end of range", "where": "aerokit/common/_ode.py"}],
        "observe_at": ["RK4, RKF45"],
    },
}
LEVEL = "exploration"
TECH = "bounded exhaustive enumeration of problems, ranges, steps and tolerances on the real code, against exact solutions and order conditions"
NOTE = "Complete over the stated lattice of problems with known solutions."
RULE = "every problem x start x range x step x tolerance; non-trivial = more than one step"


def problems():
    """name, F(x, y), exact(x, x0), size"""
    out = []
    for d in range(6):
        out.append(("x^%d" % d, lambda x, y, d=d: np.array([(d + 1) * x**d]), lambda x, x0, d=d: np.array([1 + x ** (d + 1) - x0 ** (d + 1)])))
    for la in (-2.0, -0.5, 1.0):
        out.append(("exp%g" % la, lambda x, y, la=la: la * y, lambda x, x0, la=la: np.array([np.exp(la * (x - x0))])))
    out.append(("rotation", lambda x, y: np.array([y[1], -y[0]]), lambda x, x0: np.array([np.sin(x - x0), np.cos(x - x0)])))
    out.append(("logistic", lambda x, y: y * (1 - y), lambda x, x0: np.array([1 / (1 + 3 * np.exp(-(x - x0)))])))
    out.append(("gauss", lambda x, y: -2 * x * y, lambda x, x0: np.array([np.exp(x0**2 - x**2)])))
    out.append(("riccati", lambda x, y: -y * y, lambda x, x0: np.array([1 / (1 + (x - x0))])))
    out.append(("chain", lambda x, y: np.array([y[1] + x * 0, y[2], 0.0]), lambda x, x0: np.array([1 + 2 * (x - x0) + 1.5 * (x - x0) ** 2, 2 + 3 * (x - x0), 3.0])))
    # components of different difficulty, the hard one at every place
    for k in range(3):
        def F(x, y, k=k):
            d = np.array([1.0, 2.0 * x, 0.0])
            d[k] = -4.0 * y[k]
            return d

        def ex(x, x0, k=k):
            r = np.array([1.0 + x - x0, 1.0 + x**2 - x0**2, 1.0])
            r[k] = np.exp(-4.0 * (x - x0))
            return r

        out.append(("hard-component-%d" % k, F, ex))
    return out


def run(ck):
    from aerokit.common import _ode

    def onward(x):
        """monotonic, but for one step which may vanish: the one that makes up for rounding at the end of the range"""
        d = np.diff(x)
        return bool(np.all(d >= 0) and np.sum(d == 0) <= 1)

    P = problems()
    starts = (0.0, -0.7, 1.5)
    lens = (1e-3, 0.3, 1.0, 2.0)
    for nm, F, ex in P:
        for x0, ln in itertools.product(starts, lens):
            x1 = x0 + ln
            y0 = ex(x0, x0)
            errs = {}
            for div in ck.pick((0.5, 1, 1.7, 2, 5, 10, 10.3, 20, 40), (0.5, 1, 1.3, 1.7, 2, 3, 4, 5, 7, 10, 10.3, 20, 33.3, 40, 80, 160)):
                h = ln / div
                seen = []

                def G(x, y):
                    seen.append(float(x))
                    return F(x, y)

                yin = y0.copy()
                r = ck.call("RK4", _ode.RK4, G, x0, yin, x1, h, ctx={"problem": nm})
                if isinstance(r, core.Failure):
                    continue
                X, Y = np.asarray(r[0], dtype=float), np.asarray(r[1], dtype=float)
                co = dict(problem=nm, x0=x0, length=ln, h=h)
                nt = div > 1
                sp = 4 * np.finfo(float).eps * (abs(x0) + abs(x1))
                ck.true("RK4:arrays", isinstance(r[0], np.ndarray) and isinstance(r[1], np.ndarray), **co)
                if not ck.true("RK4:shape", X.ndim == 1 and Y.shape == (len(X), len(y0)), nontrivial=nt, **co):
                    continue
                ck.true("RK4:range", X[0] == x0 and abs(X[-1] - x1) <= sp and onward(X), nontrivial=nt, **co)
                ck.true("RK4:step", bool(np.all(np.diff(X) <= h * (1 + 1e-12) + sp)) and len(X) <= np.ceil(div) + 3, nontrivial=nt, **co)
                ck.true("RK4:inside", min(seen) >= x0 - sp and max(seen) <= x1 + sp, nontrivial=nt, **co)
                ck.true("RK4:start", np.array_equal(Y[0], y0) and np.array_equal(yin, y0), nontrivial=nt, **co)
                E = np.array([np.abs(Y[i] - ex(X[i], x0)).max() for i in range(len(X))])
                hm = min(h, ln)
                bound = 200.0 * hm**4 * ln * (4 if nm.startswith("gauss") or nm == "x^5" else 1) + 2e-12
                ck.true("RK4:accuracy", E <= bound, nontrivial=nt, step=np.arange(len(X)), **co)
                if nm in ("x^0", "x^1", "x^2", "x^3", "chain"):
                    ck.true("RK4:exact", E <= 1e-12 * (1 + np.abs(Y).max()), nontrivial=nt, step=np.arange(len(X)), **co)
                errs[div] = E[-1]
            if ln >= 1 and nm not in ("x^0", "x^1", "x^2", "x^3", "chain") and 40 in errs and 20 in errs and 10 in errs:
                for n1, n2 in ((10, 20), (20, 40)):
                    if errs[n2] > 1e-12:
                        ck.true("RK4:fourth-order", errs[n1] / errs[n2] > 9.0, problem=nm, x0=x0, length=ln, n=n1)
            # adaptive
            for tol in ck.pick((1e-3, 1e-6, 1e-9), (1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8, 1e-9, 1e-10, 1e-11)):
                for h, back in itertools.product((ln / 1000, ln / 10, ln / 2, ln * 0.9999999, ln, ln * 3, ln * 100), (False, True)):
                    if back and (nm in ("riccati",) or nm.startswith(("exp", "hard")) or nm == "gauss") and ln > 1:
                        continue
                    sg = -1 if back else 1
                    xe = x0 + sg * ln
                    if nm == "riccati" and back and ln >= 1:
                        continue
                    seen = []
                    yin = y0.copy()

                    def G(x, y):
                        seen.append(float(x))
                        return F(x, y)

                    r = ck.call("RKF45", _ode.RKF45, G, x0, yin, xe, sg * h, tol=tol, ctx={"problem": nm})
                    if isinstance(r, core.Failure):
                        continue
                    X, Y = np.asarray(r[0], dtype=float), np.asarray(r[1], dtype=float)
                    co = dict(problem=nm, x0=x0, length=sg * ln, h=h, tol=tol)
                    nt = len(X) > 2
                    sp = 4 * np.finfo(float).eps * (abs(x0) + abs(xe) + ln)
                    ck.true("RKF45:arrays", isinstance(r[0], np.ndarray) and isinstance(r[1], np.ndarray), **co)
                    if not ck.true("RKF45:shape", X.ndim == 1 and Y.shape == (len(X), len(y0)), nontrivial=nt, **co):
                        continue
                    ck.true("RKF45:range", X[0] == x0 and abs(X[-1] - xe) <= sp and onward(-X if back else X), nontrivial=nt, **co)
                    lo, hi = sorted((x0, xe))
                    ck.true("RKF45:inside", min(seen) >= lo - sp and max(seen) <= hi + sp, nontrivial=nt, **co)
                    ck.true("RKF45:start", np.array_equal(Y[0], y0) and np.array_equal(yin, y0), nontrivial=nt, **co)
                    E = np.array([np.abs(Y[i] - ex(X[i], x0)).max() for i in range(len(X))])
                    ck.true("RKF45:tolerance", E <= 30 * tol * len(X) * max(1.0, np.abs(Y).max()) + 1e-12, nontrivial=nt, step=np.arange(len(X)), **co)
                    # steps accepted after the first ones do not depend on the initial guess
                    # (polynomials integrated exactly and tiny intervals have only rounding errors: nothing tells to enlarge their steps)
                    ck.true("RKF45:economy", len(X) <= max(12 + 40 * ln * (1e-3 / tol) ** 0.25, ln / h + 3 if nm in ("x^0", "x^1", "x^2", "x^3", "x^4", "chain") or ln < 0.1 else 0), nontrivial=nt, **co)
    # increment of fifth order and its error estimate: linear problem, single step of given length
    for la, h in itertools.product((-1.0, 0.5, 2.0), (0.05, 0.1, 0.2, 0.4)):
        r = ck.call("RKF45", _ode.RKF45, lambda x, y: la * y, 0.0, np.array([1.0]), 2 * h, h, tol=1e30)
        if not isinstance(r, core.Failure):
            z = la * h
            t5 = sum(z**i / float(np.prod(np.arange(1, i + 1))) for i in range(6))
            ck.true("RKF45:fifth-order", abs(float(r[1][1][0]) - t5) <= 2e-3 * abs(z) ** 6 + 1e-14 and abs(r[0][1] - h) < 1e-15, rate=la, h=h)
    for nm, F, ex in P:
        for h in (0.1, 0.05):
            r = ck.call("RKF45", _ode.RKF45, F, 0.3, ex(0.3, 0.3), 0.3 + 2 * h, h, tol=1e30)
            if not isinstance(r, core.Failure):
                ck.true("RKF45:local-error", np.abs(r[1][1] - ex(0.3 + h, 0.3)).max() <= 3.0 * (40 if nm.startswith("hard") else 1) * h**6 + 1e-14, problem=nm, h=h)
            r = ck.call("RK4", _ode.RK4, F, 0.3, ex(0.3, 0.3), 0.3 + h, h)
            if not isinstance(r, core.Failure):
                ck.true("RK4:local-error", np.abs(r[1][1] - ex(0.3 + h, 0.3)).max() <= 2.0 * (10 if nm.startswith("hard") else 1) * h**5 + 1e-14, problem=nm, h=h)
    # adaptation: a narrow feature is resolved, steps are refined there and enlarged away from it
    f = lambda x, y: np.array([np.exp(-(((x - 2.0) / 0.05) ** 2)) / 0.05])
    for h in (1e-3, 0.05, 0.15):
        r = ck.call("RKF45", _ode.RKF45, f, 0.0, np.array([0.0]), 4.0, h, tol=1e-8)
        if not isinstance(r, core.Failure) and h == 1e-3:
            continue  # may step over the feature
        if not isinstance(r, core.Failure):
            X = np.asarray(r[0])
            if np.any((X > 1.9) & (X < 2.1)):
                ck.close("RKF45:feature", float(r[1][-1][0]), float(np.sqrt(np.pi)), rtol=1e-5, h=h)
    # long integrations: the whole range with the same accuracy, or an error; a modest number of steps is never refused
    for w, L, tol, sg in itertools.product((1.0, 20.0), ck.pick((5.0, 20.0, 100.0), (5.0, 10.0, 20.0, 40.0, 100.0, 300.0)), (1e-5, 1e-8), (1, -1)):
        osc = lambda x, y: np.array([y[1], -w * w * y[0]])
        co = dict(rate=w, length=sg * L, tol=tol)
        try:
            X, Y = _ode.RKF45(osc, 0.5, np.array([1.0, 0.0]), 0.5 + sg * L, sg * 0.1, tol=tol)
        except Exception as e:
            # about 1 / (1.6 tol^(1/5)) trials per unit of phase
            ck.true("RKF45:long:refused", w * L * (1e-8 / tol) ** 0.2 * 30 > 9000, error=repr(e)[:80], **co)
            continue
        ck.true("RKF45:long:range", abs(X[-1] - 0.5 - sg * L) <= 1e-12 * L and onward(sg * X), reached=float(X[-1]), **co)
        ck.true("RKF45:long:accuracy", np.abs(Y[:, 0] - np.cos(w * (X - 0.5))) <= 30 * tol * len(X) * w, **co)
    # amplitude of the solution: the tolerance is a difference of values
    for A, T, w in itertools.product((1e-6, 1e-3, 37.0, 1e4, 1e8), ck.pick((1e-5, 1e-8), (1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8, 1e-9)), (1.0, 3.3)):
        # error allowed: T of a unit of velocity of phase, between a hundred times the rounding errors and the amplitude
        for tol in {A * T, min(A, 1.0) * T, max(A, 1.0) * T}:
            if not 1e-12 * A < tol < 1e-2 * A:
                continue
            co = dict(amplitude=A, tol=tol, rate=w)
            r = ck.call("RKF45:amplitude", _ode.RKF45, lambda x, y: w * np.array([y[1], -y[0]]), 0.3, np.array([0.0, A]), 3.3, 0.1, tol=tol, ctx=co)
            if not isinstance(r, core.Failure):
                X, Y = np.asarray(r[0]), np.asarray(r[1])
                ck.true("RKF45:amplitude", np.abs(Y[:, 0] - A * np.sin(w * (X - 0.3))) <= 5 * tol * len(X), step=np.arange(len(X)), **co)
                ck.true("RKF45:amplitude:economy", len(X) <= 12 + 40 * 3 * w * (1e-3 * A / tol) ** 0.2, steps=len(X), **co)
    for A, h in itertools.product((1e-6, 1e4, 1e8), (0.1, 0.037)):
        r = ck.call("RK4:amplitude", _ode.RK4, lambda x, y: np.array([y[1], -y[0]]), 0.3, np.array([0.0, A]), 3.3, h)
        q = ck.call("RK4:amplitude", _ode.RK4, lambda x, y: np.array([y[1], -y[0]]), 0.3, np.array([0.0, 1.0]), 3.3, h)
        if not isinstance(r, core.Failure) and not isinstance(q, core.Failure):
            ck.true("RK4:amplitude", np.shape(r[1]) == np.shape(q[1]) and np.allclose(r[1], A * q[1], rtol=1e-13, atol=1e-13 * A), amplitude=A, h=h)
    # position and length of the interval: the same integration shifted and stretched
    for s0, ln, tol in itertools.product((0.0, 12.7, -250.0), (1e-6, 0.013, 1.0, 470.0), (1e-5, 1e-8)):
        co = dict(start=s0, length=ln, tol=tol)
        r = ck.call("RKF45:units", _ode.RKF45, lambda x, y: np.array([y[1], -y[0]]) * 2.0 / ln, s0, np.array([0.0, 1.0]), s0 + ln, 0.1 * ln, tol=tol, ctx=co)
        if not isinstance(r, core.Failure):
            X, Y = np.asarray(r[0]), np.asarray(r[1])
            ck.true("RKF45:units", abs(X[-1] - s0 - ln) <= 1e-14 * (abs(s0) + ln) * 10 and bool(np.all(np.abs(Y[:, 0] - np.sin(2.0 * (X - s0) / ln)) <= 5 * tol * len(X) + 1e-14 * abs(s0) / ln * 100)), **co)
    for f0, nm in ((0.0, "stationary"), (1.0, "uniform")):
        for h in (1e-2, 1e-3, 1e-5):
            try:
                X, Y = _ode.RKF45(lambda x, y: np.array([f0]), 0.0, np.array([1.0]), 1.0, h)
            except Exception as e:
                ck.true("RKF45:long:refused", h < 1e-4, problem=nm, h=h, error=repr(e)[:80])
                continue
            ck.true("RKF45:long:range", abs(X[-1] - 1.0) < 1e-12 and abs(Y[-1][0] - 1 - f0) < 1e-6, problem=nm, h=h, reached=float(X[-1]))
    for h in ck.pick((1e-3, 2e-4), (1e-3, 2e-4, 2e-5)):
        r = ck.call("RK4", _ode.RK4, lambda x, y: -y, 0.0, np.array([1.0]), 1.0, h)
        if not isinstance(r, core.Failure):
            ck.true("RK4:long", abs(r[0][-1] - 1) < 1e-12 and abs(r[1][-1][0] - np.exp(-1)) < 1e-11, h=h, reached=float(r[0][-1]))
    # scalar unknown for the fixed step integrator, empty range
    r = ck.call("RK4", _ode.RK4, lambda x, y: -y, 0.0, 1.0, 1.0, 0.05)
    if not isinstance(r, core.Failure):
        ck.close("RK4:scalar", r[1], np.exp(-np.asarray(r[0])), rtol=1e-6, step=np.arange(len(r[0])))
    r = ck.call("RK4", _ode.RK4, lambda x, y: -y, 1.0, np.array([2.0]), 1.0, 0.05)
    if not isinstance(r, core.Failure):
        ck.true("RK4:empty-range", len(r[0]) == 1 and r[1][0][0] == 2.0)
    # complex unknowns, of small and large phase
    for la, z0, h in itertools.product((1j, -0.5 + 2j, 0.3 - 1j), (1.0 + 0j, 1e-9j, 1e6 * (1 - 1j), 1.0), (0.1, 0.037)):
        for nm, f in (("RK4", lambda: _ode.RK4(lambda x, y: la * y, 0.2, np.array([z0, 2j * z0]), 1.2, h)), ("RKF45", lambda: _ode.RKF45(lambda x, y: la * y, 0.2, np.array([z0, 2j * z0]), 1.2, h, tol=1e-7 * abs(z0)))):
            co = dict(integrator=nm, rate=str(la), start=str(z0), h=h)
            r = ck.call("complex", f, ctx=co)
            if isinstance(r, core.Failure):
                continue
            X, Y = np.asarray(r[0]), np.asarray(r[1])
            w = np.exp(la * (X - 0.2))[:, None] * np.array([z0, 2j * z0])
            ck.true("complex", Y.shape == w.shape and bool(np.all(np.abs(Y - w) <= 3e-4 * abs(z0))), **co)
    F = P[9][1]
    y0 = np.array([0.0, 1.0])
    core.histories(ck, "sequence", [("RK4", lambda: np.column_stack(_ode.RK4(F, 0.0, y0, 1.0, 0.1))), ("RKF45", lambda: np.column_stack(_ode.RKF45(F, 0.0, y0, 1.0, 0.1))), ("RKF45t", lambda: np.column_stack(_ode.RKF45(F, 0.0, y0, 1.0, 0.1, tol=1e-9)))], depth=3)
