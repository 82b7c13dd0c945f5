import itertools

import numpy as np
from numpy.polynomial import chebyshev as ch

from mc import core

PROP = {
    "id": "C20",
    "title": "Incompressible stability operator and its spectrum",
    "statement": "For every velocity profile, wave number, Reynolds number, interval and number of points, the discrete operators reproduce exactly the Orr-Sommerfeld equation on every polynomial the points can represent, with two conditions of null value and null slope at each wall. The spectrum follows the symmetries of the equation (opposite wave number, mirrored profile, uniform translation, change of length scale), and the reference spectra of plane Poiseuille flow. Incomplete base states are refused.",
    "quantifier": {"over": ["inputs"], "text": "profiles (Poiseuille, Couette, combined, cubic, at rest) x real and complex wave numbers x Reynolds numbers 1..1e5 x intervals x 5..24 points x the whole polynomial basis"},
    "why_tests_cant": "Tests compare two eigenvalues of one flow with three digits.",
    "anchors": {
        "files": ["aerokit/stability/OrrSommerfeld.py", "aerokit/stability/_base.py", "aerokit/common/numspectral.py"],
        "mechanism": [{"name": "assembly of both operators and wall conditions", "where": "aerokit/stability/OrrSommerfeld.py"}],
        "observe_at": ["get_RHS_time_matrices, solve_eig"],
    },
}
LEVEL = "exploration"
TECH = "bounded exhaustive enumeration of base flows, parameters and polynomial basis on the real code, against the differential equation and its symmetries"
NOTE = "Complete over the stated lattice; exactness up to the conditioning of the fourth derivative."
RULE = "every profile x wave number x Reynolds number x interval x size x basis polynomial; non-trivial = degree above 3"

PROFILES = {"poiseuille": [1, 0, -1], "couette": [0, 1], "mixed": [0.5, 1, -0.7], "cubic": [0.2, -0.3, 0.1, 0.6], "rest": [0.0]}


def rowspace(R, W, tol):
    """same span of rows"""
    R = R / np.linalg.norm(R, axis=1, keepdims=True)
    W = W / np.linalg.norm(W, axis=1, keepdims=True)
    c = np.linalg.lstsq(W.T, R.T, rcond=None)[0]
    d = np.linalg.lstsq(R.T, W.T, rcond=None)[0]
    return np.abs(W.T @ c - R.T).max() < tol and np.abs(R.T @ d - W.T).max() < tol


def run(ck):
    import aerokit.stability.OrrSommerfeld as OS
    from aerokit.common.numspectral import ChebCollocation

    def prof(co):
        return lambda y: np.polynomial.polynomial.polyval(y, co)

    sizes = ck.pick((5, 6, 8, 13, 16), (5, 6, 7, 8, 11, 12, 16, 17, 24))
    for n, (a, b), (pn, co), al, Re in itertools.product(sizes, ((-1.0, 1.0), (0.0, 2.0), (-3.0, 0.5)), PROFILES.items(), (0.0, 0.3, 1.0, -2.0, 1 + 0.2j), ck.pick((1.0, 1e3, 1e5), (1.0, 50.0, 1e3, 1e4, 1e5))):
        kw = dict(n=n, interval=str((a, b)), profile=pn, alpha=str(al), Re=Re)
        if ck.thorough is False and n in (6, 16) and al in (0.0, 0.3):
            continue
        bs = {"alpha": al, "Reynolds": Re, "uprofile": prof(co)}
        keep = dict(bs)
        o = OS.OrrSommerfeldModel(n, a, b, bs)
        o.set_BC("wall", "wall")
        r = ck.call("operators", o.get_RHS_time_matrices, ctx=kw)
        if isinstance(r, core.Failure):
            continue
        B, A = np.asarray(r[0]), np.asarray(r[1])
        x = np.asarray(o.x)
        sc = 2 / (b - a)
        s = np.sin(np.pi * (np.arange(n) / (n - 1) - 0.5))
        U = np.polynomial.polynomial.polyval(x, co)
        U2 = np.polynomial.polynomial.polyval(x, np.polynomial.polynomial.polyder(co, 2)) * np.ones(n)
        inner = slice(2, n - 2)
        tol4 = 3e-13 * n**8 * sc**4
        tol2 = 3e-13 * n**4 * sc**2
        for d in range(n):
            e = np.zeros(d + 1)
            e[d] = 1
            D = lambda k: ch.chebval(s, ch.chebder(e, k)) * sc**k if d >= k else np.zeros(n)
            v = ch.chebval(s, e)
            L2 = D(2) - al**2 * v
            L4 = D(4) - 2 * al**2 * D(2) + al**4 * v
            # (1/(i Re) L4 - (al U - w) L2 + al U'' v = 0)  times i:  -i w L2 v = L4/Re - i al U L2 + i al U'' v
            want = L4 / Re - 1j * al * U * L2 + 1j * al * U2 * v
            m = np.abs(U).max() + 1
            i = np.arange(n)[inner]
            ck.close("equation:B", (B @ v)[inner], want[inner], rtol=1e-12, atol=tol4 / Re + abs(al) * m * tol2 * 3, nontrivial=d > 3, degree=d, row=i, **kw)
            ck.close("equation:At", (A @ v)[inner], L2[inner], rtol=1e-12, atol=tol2, nontrivial=d > 3, degree=d, row=i, **kw)
        Dm = ChebCollocation(n, a, b).matder(1)
        for i, rows in ((0, (0, 1)), (n - 1, (n - 2, n - 1))):
            ck.true("wall:time", not np.any(A[list(rows)]), side=i, **kw)
            W = np.zeros((2, n))
            W[0, i] = 1
            W[1] = Dm[i]
            ck.true("wall:conditions", rowspace(B[list(rows)], W, 1e-9), side=i, **kw)
        ck.true("base-state-kept", bs == keep, **kw)

    # --- scales: the convective part is proportional to the velocity (whatever small or large), the viscous one to 1/Re
    def mats(n, a, b, al, Re, u):
        o = OS.OrrSommerfeldModel(n, a, b, {"alpha": al, "Reynolds": Re, "uprofile": u})
        o.set_BC("wall", "wall")
        return [np.asarray(m) for m in o.get_RHS_time_matrices()]

    for n, (pn, co), al, (a, b) in itertools.product(ck.pick((8, 13), (6, 8, 13, 20)), list(PROFILES.items())[:4], (0.37, -1.9), ((-1.0, 1.0), (-2.3, 0.77))):
        kw = dict(n=n, profile=pn, alpha=al, interval=str((a, b)))
        base = ck.call("scale", mats, n, a, b, al, 1000.0, prof(co), ctx=kw)
        if isinstance(base, core.Failure):
            continue
        inner = slice(2, n - 2)
        size = np.abs(base[0][inner]).max(axis=1)
        for e in ck.pick((-12, -8, -5, -4, -3, -2, -1, 1, 3, 6, 12), range(-14, 15)):
            f = 1.0371 * 10.0**e
            r = ck.call("scale", mats, n, a, b, al, 1000.0, lambda y: f * prof(co)(y), ctx=kw)
            if not isinstance(r, core.Failure):
                # rounding of the second derivative of the profile
                im = np.abs(base[0].imag[inner]).max()
                ck.true("scale:velocity", np.abs(r[0].imag[inner] / f - base[0].imag[inner]).max() <= 1e-11 * n**2 * im, factor=f, **kw)
                ck.true("scale:viscous-part", np.abs(r[0].real[inner] - base[0].real[inner]).max() <= 1e-13 * size.max() and np.array_equal(r[1], base[1]), factor=f, **kw)
                ck.true("scale:walls", np.array_equal(r[0][[0, 1, -2, -1]], base[0][[0, 1, -2, -1]]), factor=f, **kw)
            r = ck.call("scale", mats, n, a, b, al, 1000.0 * f, prof(co), ctx=kw)
            if not isinstance(r, core.Failure):
                ck.true("scale:Reynolds", np.abs(r[0].real[inner] * f - base[0].real[inner]).max() <= 1e-12 * size.max() and np.abs(r[0].imag[inner] - base[0].imag[inner]).max() <= 1e-12 * np.abs(base[0].imag).max(), factor=f, **kw)
            if e <= 3:
                # wave number: (D2 - al^2) exactly, convective part odd
                r = ck.call("scale", mats, n, a, b, al * f, 1000.0, prof(co), ctx=kw)
                r2 = ck.call("scale", mats, n, a, b, -al * f, 1000.0, prof(co), ctx=kw)
                if not isinstance(r, core.Failure) and not isinstance(r2, core.Failure):
                    ck.true("scale:opposite", np.array_equal(r[0].real, r2[0].real) and np.array_equal(r[0].imag, -r2[0].imag) and np.array_equal(r[1], r2[1]), factor=f, **kw)
                    ck.close("scale:wave-number", np.diag(r[1])[inner] - np.diag(base[1])[inner], np.full(n - 4, -(al * f) ** 2 + al**2), rtol=1e-12, atol=1e-13 * np.abs(np.diag(base[1])).max(), factor=f, row=np.arange(n - 4), **kw)
    # superposition: the operator is affine in the profile, whatever the sizes of its parts
    for n, al in itertools.product(ck.pick((8, 16), (6, 8, 11, 16, 24)), (1.0, -0.6)):
        kw = dict(n=n, alpha=al)
        zero = ck.call("superposition", mats, n, -1.0, 1.0, al, 1000.0, lambda y: 0 * y, ctx=kw)
        one = ck.call("superposition", mats, n, -1.0, 1.0, al, 1000.0, lambda y: 1 + 0 * y, ctx=kw)
        if isinstance(zero, core.Failure) or isinstance(one, core.Failure):
            continue
        for pn, co in list(PROFILES.items())[:4]:
            ref = ck.call("superposition", mats, n, -1.0, 1.0, al, 1000.0, prof(co), ctx=kw)
            if isinstance(ref, core.Failure):
                continue
            for off, f in itertools.product((-1e4, -3.0, 0.0, 1e-3, 0.7, 40.0, 200.0, 1e4, 1e7), (1.0, 1e-3, -1.0, 50.0)):
                r = ck.call("superposition", mats, n, -1.0, 1.0, al, 1000.0, lambda y: off + f * prof(co)(y), ctx=kw)
                if isinstance(r, core.Failure):
                    continue
                want = zero[0] + off * (one[0] - zero[0]) + f * (ref[0] - zero[0])
                for part in ("real", "imag"):
                    d = np.abs(getattr(r[0] - want, part)[2:-2])
                    # rounding errors of second derivatives of the uniform part
                    ck.true("superposition", d.max() <= 1e-13 * n**4 * (abs(off) + abs(f)) * abs(al) + (1e-10 * np.abs(want.real).max() if part == "real" else 0.0), part=part, profile=pn, offset=off, factor=f, error=float(d.max()), **kw)
    # profiles which are not polynomials: curvature of the interpolation
    for n, (un, u) in itertools.product((9, 14), (("tanh", np.tanh), ("cos", lambda y: np.cos(2 * y)), ("exp", lambda y: 1e-3 * np.exp(-y)), ("kink", np.abs))):
        r = ck.call("profile", mats, n, -1.0, 1.0, 1.3, 50.0, u, ctx=dict(profile=un))
        if not isinstance(r, core.Failure):
            C = ChebCollocation(n, -1.0, 1.0)
            D2, D4 = np.asarray(C.matder(2)), np.asarray(C.matder(4))
            U = np.asarray(u(np.asarray(C.x)), dtype=float)
            Lp = D2 - 1.3**2 * np.eye(n)
            want = (D4 - 2 * 1.3**2 * D2 + 1.3**4 * np.eye(n)) / 50.0 - 1.3j * (U[:, None] * Lp) + 1.3j * np.diag(D2 @ U)
            ck.true("profile", np.abs(r[0][2:-2] - want[2:-2]).max() <= 1e-11 * np.abs(want).max() / n**2 + 1e-11 * n**2, profile=un, n=n)

    # --- spectra
    def spectrum(n, a, b, al, Re, co, k=6):
        o = OS.OrrSommerfeldModel(n, a, b, {"alpha": al, "Reynolds": Re, "uprofile": prof(co)})
        o.set_BC({"type": "wall"}, {"type": "wall"})
        v, w = o.solve_eig()
        v = np.array(v)
        v = v[np.isfinite(v) & (np.abs(v) < 1e3)]
        return v[np.argsort(-v.imag)][:k], o

    def same(v, w, tol):
        return len(v) == len(w) and all(np.min(np.abs(w - x)) < tol for x in v) and all(np.min(np.abs(v - x)) < tol for x in w)

    n = ck.pick(40, 60)
    for (pn, co), al, Re in itertools.product(PROFILES.items(), (0.5, 1.0, 2.0), (50.0, 400.0) if not ck.thorough else (10.0, 50.0, 200.0, 400.0)):
        kw = dict(profile=pn, alpha=al, Re=Re)
        k = 5
        v, _ = spectrum(n, -1.0, 1.0, al, Re, co, k + 3)
        near = np.abs(v.imag[k] - v.imag[k - 1])
        if near < 1e-5:
            k += 1
        t = 1e-5
        top = v[:k]

        def sub(w, f):
            w = f(w)
            return all(np.min(np.abs(w - x)) < t for x in top)

        ck.true("symmetry:grid", sub(spectrum(n + 5, -1.0, 1.0, al, Re, co, k + 4)[0], lambda w: w), **kw)
        if (al, Re) in ((1.0, 50.0), (1.0, 400.0)) or ck.thorough:
            for m in (61, 80) if not ck.thorough else (45, 51, 64, 65, 81, 100):
                ck.true("symmetry:grid", sub(spectrum(m, -1.0, 1.0, al, Re, co, k + 4)[0], lambda w: w), n=m, **kw)
        ck.true("symmetry:opposite-wave-number", sub(spectrum(n, -1.0, 1.0, -al, Re, co, k + 4)[0], lambda w: -np.conj(w)), **kw)
        mir = [c * (-1) ** i for i, c in enumerate(co)]
        ck.true("symmetry:mirror", sub(spectrum(n, -1.0, 1.0, al, Re, mir, k + 4)[0], lambda w: w), **kw)
        tr = list(co)
        tr[0] += 0.7
        ck.true("symmetry:translation", sub(spectrum(n, -1.0, 1.0, al, Re, tr, k + 4)[0], lambda w: w - 0.7 * al), **kw)
        # y -> 2 y: U(y/2), alpha/2, half the Reynolds number of the unit length give omega/2
        st = [c / 2.0**i for i, c in enumerate(co)]
        ck.true("symmetry:length", sub(spectrum(n, -2.0, 2.0, al / 2, Re / 2, st, k + 4)[0], lambda w: 2 * w), **kw)
        sh = np.polynomial.polynomial.Polynomial(co)(np.polynomial.polynomial.Polynomial([-3.0, 1.0]))
        ck.true("symmetry:origin", sub(spectrum(n, 2.0, 4.0, al, Re, list(np.atleast_1d(sh.coef)), k + 4)[0], lambda w: w), **kw)
        # velocity scale: 2U, Re/2 gives 2 omega
        ck.true("symmetry:velocity", sub(spectrum(n, -1.0, 1.0, al, Re / 2, [2 * c for c in co], k + 4)[0], lambda w: w / 2), **kw)
        if pn in ("poiseuille", "couette") and Re <= 50:
            ck.true("stable", v[0].imag < 0, **kw)
    # fluid at rest: viscous modes, omega = -i (alpha^2 + k^2)/Re with k tan k = -alpha tanh alpha or k cot k = alpha coth alpha
    for al, Re in itertools.product((0.5, 1.0, 2.0), (10.0, 100.0)):
        v, _ = spectrum(40, -1.0, 1.0, al, Re, [0.0], 4)
        ks = []
        kk = np.linspace(1e-3, 9, 200001)
        for f in (np.sin(kk) * kk * np.cosh(al) + al * np.sinh(al) * np.cos(kk), kk * np.cos(kk) * np.sinh(al) - al * np.cosh(al) * np.sin(kk)):
            j = np.flatnonzero(f[:-1] * f[1:] < 0)
            ks += list(kk[j] - f[j] * (kk[j + 1] - kk[j]) / (f[j + 1] - f[j]))
        w = -1j * (al**2 + np.sort(ks)[:4] ** 2) / Re
        ck.close("rest:viscous-modes", np.sort(-v.imag), -w.imag, rtol=1e-5, alpha=al, Re=Re, mode=np.arange(4))
        ck.true("rest:not-propagating", np.abs(v.real) < 1e-8, alpha=al, Re=Re, mode=np.arange(4))
    # reference values (Orszag 1971; Kirchner / Dongarra for Couette)
    for n in ck.pick((80,), (64, 81, 100, 121)):
        p = OS.Poiseuille(n, 1.0, 10000.0)
        p.solve_eig()
        v, w, o = p.select_and_sort(sort="imag")
        ref = [0.23752649 + 0.00373967j, 0.96463092 - 0.03516728j, 0.96464251 - 0.03518658j, 0.27720434 - 0.05089873j]
        for i, x in enumerate(ref):
            ck.close("reference:Poiseuille", complex(v[o[i]]), x, rtol=0, atol=2e-6, mode=i, n=n)
        r = p.converge_eigenpair(v[o[0]] + 1e-6, w[:, o[0]], niter=20)
        ck.close("reference:converged", complex(r[0]), ref[0], rtol=0, atol=1e-6, n=n)
        c = OS.Poiseuille(n, 1.02056, 5772.22)
        c.solve_eig()
        v, _, o = c.select_and_sort(sort="imag")
        ck.true("reference:critical", abs(v[o[0]].imag) < 1e-6 and abs(v[o[0]].real / 1.02056 - 0.264) < 1e-3, n=n)
    for Re, unstable in ((5000.0, False), (6000.0, True)):
        c = OS.Poiseuille(70, 1.02056, Re)
        c.solve_eig()
        v, _, o = c.select_and_sort(sort="imag")
        ck.true("reference:threshold", (v[o[0]].imag > 0) == unstable, Re=Re)
    # incomplete base states
    full = {"alpha": 1.0, "Reynolds": 100.0, "uprofile": prof([1, 0, -1])}
    for k in range(3):
        for keys in itertools.combinations(full, k):
            for how in ("constructor", "method"):
                part = {q: full[q] for q in keys}
                try:
                    if how == "constructor":
                        OS.OrrSommerfeldModel(5, -1.0, 1.0, part)
                    else:
                        OS.OrrSommerfeldModel(5, -1.0, 1.0).set_basestate(part)
                    ok = False
                except OS.DictKeyError:
                    ok = True
                except Exception:
                    ok = False
                ck.true("incomplete-refused", ok, keys=str(keys), how=how)
    o = OS.OrrSommerfeldModel(6, -1.0, 1.0, dict(full, extra=1))
    o.set_BC("wall", "wall")
    ref = OS.Poiseuille(6, 1.0, 100.0).get_RHS_time_matrices()[0]
    ck.true("extra-key-accepted", np.abs(o.get_RHS_time_matrices()[0] - ref).max() <= 1e-9 * np.abs(ref).max())
