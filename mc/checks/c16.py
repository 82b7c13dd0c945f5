import itertools

import numpy as np

from mc import core
from mc.checks.c15 import INTERVALS, bounds

PROP = {
    "id": "C16",
    "title": "Collocation points, spectral interpolation and least-squares fit",
    "statement": "For every interval and number of points the collocation points go from the first to the last bound, are the Chebyshev extrema of the interval, and the coordinate mapping is reversible. Interpolation from the points is exact for every polynomial the points can represent, returns the data at the points, and is linear. Fitting data from arbitrary abscissae gives exactly such polynomials back, and otherwise the least-squares optimum.",
    "quantifier": {"over": ["inputs"], "text": "2..33 points x intervals (symmetric, one-sided, null bounds, tiny, large, reversed) x the whole polynomial basis x evaluation points (interior, nodes, bounds, scalar and arrays, real and complex data)"},
    "why_tests_cant": "Tests use one polynomial on two intervals.",
    "anchors": {
        "files": ["aerokit/common/numspectral.py", "aerokit/common/_dev.py"],
        "mechanism": [{"name": "mapping to the reference interval and Chebyshev transform", "where": "aerokit/common/numspectral.py"}],
        "observe_at": ["ChebCollocation.x, xi, extrapol, fit_to_gauss"],
    },
}
LEVEL = "exploration"
TECH = "bounded exhaustive enumeration of sizes, intervals and polynomial basis on the real code, against polynomial algebra"
NOTE = "Complete over the stated lattice; the fit is claimed where its problem is well conditioned (many abscissae over the interval)."
RULE = "every size x interval x basis polynomial x evaluation point; non-trivial = degree above 1"


def run(ck):
    from numpy.polynomial import chebyshev as ch

    import aerokit.common.numspectral as ns

    sizes = ck.pick(list(range(2, 15)) + [20, 33], list(range(2, 40)) + [50, 64])
    for n in sizes:
        for iv in INTERVALS:
            a, b = bounds(iv)
            L = b - a
            k = dict(n=n, interval=str(iv))
            c = ns.ChebCollocation(n, *iv)
            x = np.asarray(ck.call("x", lambda: c.x), dtype=float)
            cond = 1 + max(abs(a), abs(b)) / abs(L)
            ck.true("npts", c.npts == n and x.shape == (n,), **k)
            ck.close("nodes", x, a + L * np.sin(0.5 * np.pi * np.arange(n) / (n - 1)) ** 2, rtol=0, atol=4e-16 * abs(L) * cond, node=np.arange(n), **k)
            ck.true("bounds", abs(x[0] - a) <= 4e-16 * abs(L) * cond and abs(x[-1] - b) <= 4e-16 * abs(L) * cond, **k)
            ck.true("order", (np.diff(x) * np.sign(L)) > 0, node=np.arange(n - 1), **k)
            ck.close("xi", np.asarray(c.xi), 1 - 2 * (x - a) / L, rtol=0, atol=1e-15 * cond, node=np.arange(n), **k)
            ck.true("same-nodes-again", np.array_equal(c.x, x) and np.array_equal(c.xi, ns.ChebCollocation(n, *iv).xi), **k)
            fr = np.array([0.0, 1e-9, 1e-6, 1e-4, 0.013, 0.25, 1 / 3, 0.5, 0.7071, 0.9, 0.99, 1.0])
            pts = np.concatenate([a + L * fr, x, x[1:] - L * 3e-7, x[:-1] + L * 2e-5])
            s = 2 * (pts - a) / L - 1
            sn = 2 * (x - a) / L - 1
            tol = 1e-14 * n * n * cond
            xs = a + L * np.linspace(0, 1, 6 * n + 7) ** 1.2
            ss = 2 * (xs - a) / L - 1
            for deg in range(n):
                co = np.zeros(deg + 1)
                co[deg] = 1.0
                nt = deg > 1
                fk = ch.chebval(sn, co)
                f0 = fk.copy()
                want = ch.chebval(s, co)
                ck.close("interpolation", ck.call("extrapol", c.extrapol, fk, pts), want, rtol=0, atol=tol, nontrivial=nt, degree=deg, point=np.arange(len(pts)), **k)
                ck.close("interpolation:scalar", ck.call("extrapol", c.extrapol, fk, float(pts[4])), float(want[4]), rtol=0, atol=tol, nontrivial=nt, degree=deg, **k)
                ck.close("interpolation:complex", ck.call("extrapol", c.extrapol, (2 - 1j) * fk, pts), (2 - 1j) * want, rtol=0, atol=3 * tol, nontrivial=nt, degree=deg, point=np.arange(len(pts)), **k)
                ck.true("data-unchanged", np.array_equal(fk, f0), degree=deg, **k)
                fs = ch.chebval(ss, co)
                ck.close("fit", ck.call("fit", c.fit_to_gauss, xs, fs), fk, rtol=0, atol=10 * tol, nontrivial=nt, degree=deg, node=np.arange(n), **k)
            # linear: small and large parts of the data keep their own accuracy
            big = np.ones(n)
            for i in range(1, n):
                co = np.zeros(i + 1)
                co[i] = 1.0
                fk, want = ch.chebval(sn, co), ch.chebval(s, co)
                for scale, off in ((1.0, 1e9), (1.0, 1e4), (1e-9, 0.0), (1e12, 0.0), (1e-5, -3.0), (1e-120, 0.0)):
                    ck.close("interpolation:scaled", ck.call("extrapol", c.extrapol, off * big + scale * fk, pts), off + scale * want, rtol=0, atol=tol * abs(scale) + 4e-15 * n * n * abs(off) * cond, degree=i, scale=scale, offset=off, point=np.arange(len(pts)), **k)
                    fs = ch.chebval(ss, co)
                    ck.close("fit:scaled", ck.call("fit", c.fit_to_gauss, xs, off + scale * fs), off + scale * fk, rtol=0, atol=10 * (tol * abs(scale) + 4e-15 * n * n * abs(off) * cond), degree=i, scale=scale, offset=off, node=np.arange(n), **k)
                for eps in (1e-3, 1e-7):  # parts of very different size
                    m = (i + 1) % n
                    cm = np.zeros(m + 1)
                    cm[m] = eps
                    r = ck.call("extrapol", c.extrapol, fk + 1j * ch.chebval(sn, cm), pts)
                    if not isinstance(r, core.Failure):
                        ck.close("interpolation:imaginary", np.imag(r), ch.chebval(s, cm), rtol=0, atol=tol * eps + 1e-15 * n * n, degree=i, part=eps, point=np.arange(len(pts)), **k)
                        ck.close("interpolation:real", np.real(r), want, rtol=0, atol=tol, degree=i, part=eps, point=np.arange(len(pts)), **k)
                    r = ck.call("fit", c.fit_to_gauss, xs, fs + 1j * ch.chebval(ss, cm))
                    if not isinstance(r, core.Failure):
                        ck.close("fit:imaginary", np.imag(r), ch.chebval(sn, cm), rtol=0, atol=10 * (tol * eps + 1e-15 * n * n), degree=i, part=eps, node=np.arange(n), **k)
                        ck.close("fit:real", np.real(r), fk, rtol=0, atol=10 * tol, degree=i, part=eps, node=np.arange(n), **k)
            # abscissae over a part of the interval only: the polynomial goes through the data, and is given back as far
            # as the data determine it (conditioning of the Vandermonde matrix)
            for lo, hi in ((0.0, 0.5), (0.1, 0.55), (0.4, 1.0), (0.3, 0.7)):
                xq = a + L * np.linspace(lo, hi, 6 * n + 7)
                sq = 2 * (xq - a) / L - 1
                kappa = np.linalg.cond(ch.chebvander(sq, n - 1))
                t = 1e-14 * n * n * cond * kappa
                if t > 1e-4:
                    continue
                for deg in range(n):
                    co = np.zeros(deg + 1)
                    co[deg] = 1.0
                    ck.close("fit:partial", ck.call("fit", c.fit_to_gauss, xq, ch.chebval(sq, co)), ch.chebval(sn, co), rtol=0, atol=t, nontrivial=deg > 1, degree=deg, part=str((lo, hi)), node=np.arange(n), **k)
            # any data at the nodes (unit vectors) is returned at the nodes; 2-d list of points
            for i in range(n):
                e = np.zeros(n)
                e[i] = 1.0
                ck.close("nodal", ck.call("extrapol", c.extrapol, e, x), e, rtol=0, atol=tol, unit=i, node=np.arange(n), **k)
            ck.close("points-2d", ck.call("extrapol", c.extrapol, sn**2 if n > 2 else sn, pts[:8].reshape(2, 4)), (s**2 if n > 2 else s)[:8].reshape(2, 4), rtol=0, atol=tol, **k)
            # least-squares optimum: no perturbation of the fitted polynomial does better; order of data is irrelevant
            for nm, f in (("abs", np.abs(ss - 0.1)), ("step", (ss > 0.2) * 1.0), ("runge", 1 / (1 + 25 * ss**2)), ("cubic", ss**3)):
                r = ck.call("fit", c.fit_to_gauss, xs, f)
                if isinstance(r, core.Failure):
                    continue
                co = np.linalg.solve(ch.chebvander(sn, n - 1), r)
                res = ch.chebvander(ss, n - 1).T @ (ch.chebval(ss, co) - f)
                ck.true("fit:optimum", np.abs(res) < 1e-11 * len(ss) * n * cond, data=nm, basis=np.arange(n), **k)
                p = np.argsort(np.sin(np.arange(len(xs)) * 7.3))
                ck.close("fit:data-order", ck.call("fit", c.fit_to_gauss, xs[p], f[p]), r, rtol=0, atol=1e-11 * n * cond, data=nm, node=np.arange(n), **k)
    # data given several times at the same abscissae: the mean of each is fitted; weights of unequal repetitions
    for n, iv in itertools.product((2, 3, 5, 8), ((None, None), (0.0, 1.0), (-3.0, 2.0))):
        a, b = bounds(iv)
        L = b - a
        c = ns.ChebCollocation(n, *iv)
        s0 = np.linspace(-1, 1, n + 2)
        for nm, rep in (("twice", np.full(n + 2, 2)), ("ends", np.where(np.arange(n + 2) % (n + 1) == 0, 3, 1)), ("one", np.where(np.arange(n + 2) == 1, 5, 1)), ("none", np.ones(n + 2, dtype=int))):
            ss = np.repeat(s0, rep)
            f = np.sin(3 * ss) + 0.3 * np.cos(5.1 * np.arange(len(ss)))
            for order in (np.arange(len(ss)), np.arange(len(ss))[::-1], np.argsort(np.sin(7.3 * np.arange(len(ss))))):
                k = dict(n=n, interval=str(iv), repeated=nm)
                x, g = a + L * (ss[order] + 1) / 2, f[order]
                r = ck.call("fit:repeated", c.fit_to_gauss, x, g, ctx=k)
                if isinstance(r, core.Failure):
                    continue
                sn = np.sin(np.pi * (np.arange(n) / (n - 1) - 0.5))
                w = ch.chebval(sn, np.linalg.lstsq(ch.chebvander(ss, n - 1), f, rcond=None)[0])
                ck.close("fit:repeated", r, w, rtol=0, atol=1e-11, node=np.arange(n), **k)
    # many points: the whole basis, real and complex
    for n in ck.pick((40, 49, 50, 64, 65, 96, 129), tuple(range(66, 200, 9)) + (129, 256)):
        for iv in ((None, None), (0.0, 10.0), (1.0, -1.0)):
            a, b = bounds(iv)
            L = b - a
            c = ns.ChebCollocation(n, *iv)
            k = dict(n=n, interval=str(iv))
            sn = np.sin(np.pi * (np.arange(n) / (n - 1) - 0.5))
            fr = np.concatenate([np.linspace(0, 1, 23), [1e-7, 1e-4, 1 - 1e-6]])
            pts = a + L * fr
            V, W = ch.chebvander(sn, n - 1), ch.chebvander(2 * fr - 1, n - 1)
            th = 0.5 - 0.5 * np.cos(np.pi * np.linspace(0, 1, 6 * n + 7) ** 1.05)
            X = ch.chebvander(2 * th - 1, n - 1)
            for deg in range(n):
                z = 2 - 1j if deg % 3 == 2 else 1.0
                r = ck.call("many:extrapol", c.extrapol, z * V[:, deg], pts)
                if not isinstance(r, core.Failure):
                    ck.true("many:interpolation", bool(np.abs(r - z * W[:, deg]).max() <= 3e-14 * n * n), degree=deg, **k)
                r = ck.call("many:fit", c.fit_to_gauss, a + L * th, z * X[:, deg])
                if not isinstance(r, core.Failure):
                    ck.true("many:fit", bool(np.abs(r - z * V[:, deg]).max() <= 1e-13 * n * n), degree=deg, **k)
    # every number of points, and intervals of every length and place
    def basis(tag, n, iv, degs):
        a, b = bounds(iv)
        L = b - a
        cond = 1 + max(abs(a), abs(b)) / abs(L)
        k = dict(n=n, interval=str(iv))
        c = ck.call(tag + "build", ns.ChebCollocation, n, *iv, ctx=k)
        if isinstance(c, core.Failure):
            return
        ck.close(tag + "nodes", np.asarray(c.x, dtype=float), a + L * np.sin(0.5 * np.pi * np.arange(n) / (n - 1)) ** 2, rtol=0, atol=4e-16 * abs(L) * cond, node=np.arange(n), **k)
        sn = np.sin(np.pi * (np.arange(n) / (n - 1) - 0.5))
        fr = np.concatenate([np.linspace(0, 1, 23), [1e-7, 1e-4, 1 - 1e-6]])
        th = np.sin(0.5 * np.pi * np.linspace(0.01, 0.996, 2 * n + 3)) ** 2
        V, W, X = ch.chebvander(sn, n - 1), ch.chebvander(2 * fr - 1, n - 1), ch.chebvander(2 * th - 1, n - 1)
        for deg in degs:
            r = ck.call(tag + "extrapol", c.extrapol, V[:, deg], a + L * fr, ctx=k)
            if not isinstance(r, core.Failure):
                ck.true(tag + "interpolation", np.abs(r - W[:, deg]) <= 3e-14 * n * n * cond, nontrivial=deg > 1, degree=deg, point=np.arange(len(fr)), **k)
            r = ck.call(tag + "fit", c.fit_to_gauss, a + L * th, X[:, deg], ctx=k)
            if not isinstance(r, core.Failure):
                ck.true(tag + "fit", np.abs(r - V[:, deg]) <= 1e-12 * n * n * cond, nontrivial=deg > 1, degree=deg, node=np.arange(n), **k)

    IV = ((None, None), (0.0, 10.0), (1.0, -1.0), (-200.0, 1000.0), (2.0, 2.5))
    for n in range(2, ck.pick(131, 260)):
        basis("size:", n, IV[n % 5], sorted({0, 1, min(2, n - 1), min(3, n - 1), n // 3, n // 2, n - 2, n - 1} & set(range(n))))
    for n in ck.pick((2, 3, 5, 8, 17), (2, 3, 4, 5, 6, 7, 8, 9, 13, 17, 24, 31)):
        for L in np.geomspace(1e-9, 1e9, ck.pick(55, 181)):
            for o in (0.0, -0.5, -1.0, 1.7, -3.3):
                for iv in ((float(o * L), float((o + 1) * L)), (float((o + 1) * L), float(o * L))):
                    basis("interval:", n, iv, sorted({1, n // 2, n - 1}))
    # whole numbers and lists of them
    for n in (2, 3, 4, 5, 7):
        c = ns.ChebCollocation(n, 0, 4)
        f = np.arange(n) ** 2 - 3
        for what in ("array", "list"):
            q = (lambda v: v) if what == "array" else (lambda v: [int(t) for t in v])
            for pts in (np.array([0, 1, 2, 4]), np.array([0.0, 1.0, 2.0, 4.0])):
                ck.close("whole:extrapol", ck.call("whole", c.extrapol, q(f), pts), ns.ChebCollocation(n, 0.0, 4.0).extrapol(f.astype(float), pts.astype(float)), rtol=0, atol=1e-13 * n * n, n=n, form=what, point=np.arange(4))
            xx = np.arange(5)
            ck.close("whole:fit", ck.call("whole", c.fit_to_gauss, xx, q(xx**2 - 1 if n > 2 else 3 * xx - 1)), c.x**2 - 1 if n > 2 else 3 * c.x - 1, rtol=0, atol=1e-12, n=n, form=what, node=np.arange(n)) if n <= 5 else None
    # history independence on shared objects
    c1, c2 = ns.ChebCollocation(6, 0.0, 2.0), ns.ChebCollocation(7, -1.0, 0.0)
    f1, f2 = np.cos(np.arange(6.0)), np.sin(np.arange(7.0))
    core.histories(ck, "sequence", [("x1", lambda: c1.x), ("x2", lambda: c2.x), ("e1", lambda: c1.extrapol(f1, np.array([0.3, 1.7]))), ("e2", lambda: c2.extrapol(f2, -0.4)), ("m1", lambda: c1.matder(2).copy()),
                                    ("m2", lambda: c2.matder(1).copy()), ("f1", lambda: c1.fit_to_gauss(np.linspace(0, 2, 11), np.arange(11.0))), ("xi2", lambda: c2.xi)], depth=ck.pick(3, 4))
