import numpy as np

from mc import core

PROP = {
    "id": "C15",
    "title": "Spectral differentiation matrices",
    "statement": "On every interval and for every number of points, the differentiation matrix of order k gives the exact k-th derivative of every polynomial the points can represent, and cancels polynomials of lower degree. A matrix of a given order is the same whatever orders were asked before on the same object or on other objects, and matrices already obtained keep their value.",
    "quantifier": {"over": ["inputs", "histories"], "text": "2..33 points (even and odd, 64 and more in the thorough tier) x intervals (symmetric, one-sided, null bounds, tiny, large, reversed) x orders 1..6 x the whole polynomial basis; all histories of requested orders up to a depth"},
    "why_tests_cant": "Tests take one number of points and one order; even/odd cases, intervals and the order of requests are not swept.",
    "anchors": {
        "files": ["aerokit/common/numspectral.py", "aerokit/common/_dev.py"],
        "state": [{"name": "cached matrices", "where": "aerokit/common/numspectral.py", "meaning": "orders computed so far"}],
        "mechanism": [{"name": "recursive construction of the matrices and scaling by the interval", "where": "aerokit/common/numspectral.py"}],
        "observe_at": ["ChebCollocation.matder, x"],
    },
}
LEVEL = "model_checking"
TECH = "exhaustive enumeration of sizes, intervals, orders and polynomial basis on the real code, and breadth-first search over histories of requested orders"
NOTE = "Complete over the stated lattice and histories; exactness up to the conditioning of the matrix (machine epsilon times its largest row)."
RULE = "every size x interval x order x basis polynomial; every history of requested orders up to the depth; non-trivial = non-null derivative"

INTERVALS = ((None, None), (-1.0, 1.0), (0.0, 1.0), (-1.0, 0.0), (0.0, 10.0), (-5.0, -2.0), (3.0, 3.001), (-200.0, 1000.0), (0, 2), (None, 3.0), (-4.0, None), (1.0, -1.0), (2.0, 0.0))


def bounds(iv):
    return (-1.0 if iv[0] is None else float(iv[0])), (1.0 if iv[1] is None else float(iv[1]))


def run(ck):
    from numpy.polynomial import chebyshev as ch

    import aerokit.common.numspectral as ns

    sizes = ck.pick(list(range(2, 18)) + [20, 25, 32, 33], list(range(2, 50)) + [64, 65, 100])
    for n in sizes:
        for iv in INTERVALS:
            a, b = bounds(iv)
            c = ck.call("build", ns.ChebCollocation, n, *iv)
            if isinstance(c, core.Failure):
                continue
            x = np.asarray(c.x, dtype=float)
            s = np.sin(np.pi * (np.arange(n) / (n - 1) - 0.5))  # reference coordinate
            ck.close("nodes", x, a + (b - a) * np.sin(0.5 * np.pi * np.arange(n) / (n - 1)) ** 2, rtol=0, atol=1e-15 * (abs(a) + abs(b)), n=n, interval=str(iv), node=np.arange(n))
            for k in range(1, ck.pick(4, 6) + 1):
                D = ck.call("matder", c.matder, k)
                if isinstance(D, core.Failure):
                    continue
                D = np.asarray(D)
                if not ck.true("shape", D.shape == (n, n) and bool(np.isfinite(D).all()), n=n, order=k, interval=str(iv)):
                    continue
                sc = (2 / (b - a)) ** k
                # error of the points themselves (x is rounded) and of the matrix
                tol = abs(sc) * 3e-13 * float(n) ** (2 * k)
                for deg in range(n):
                    co = np.zeros(deg + 1)
                    co[deg] = 1.0
                    dco = ch.chebder(co, k) if deg >= k else np.zeros(1)
                    want = ch.chebval(s, dco) * sc
                    got = D @ ch.chebval(s, co)
                    ck.close("exact-derivative", got, want, rtol=0, atol=tol, nontrivial=deg >= k, n=n, order=k, degree=deg, interval=str(iv), row=np.arange(n))
            # alternative numeric type of the order
            ck.true("order-type", core.near(c.matder(2), ck.call("matder", c.matder, np.int64(2))), n=n, interval=str(iv))
    # many points, many intervals: the whole basis at once
    def whole(tag, n, iv, orders):
        a, b = bounds(iv)
        c = ck.call(tag + "build", ns.ChebCollocation, n, *iv)
        if isinstance(c, core.Failure):
            return
        s = np.sin(np.pi * (np.arange(n) / (n - 1) - 0.5))
        V = ch.chebvander(s, n - 1)
        ck.close(tag + "nodes", np.asarray(c.x, dtype=float), a + (b - a) * np.sin(0.5 * np.pi * np.arange(n) / (n - 1)) ** 2, rtol=0, atol=1e-15 * (abs(a) + abs(b)), n=n, interval=str(iv), node=np.arange(n))
        for k in orders:
            D = ck.call(tag + "matder", c.matder, k)
            if isinstance(D, core.Failure) or not ck.true(tag + "shape", np.shape(D) == (n, n), n=n, order=k, interval=str(iv)):
                continue
            sc = (2 / (b - a)) ** k
            want = np.zeros((n, n))
            if k < n:
                want = ch.chebval(s, ch.chebder(np.eye(n), k)).T * sc if n > 1 else want
            e = np.abs(np.asarray(D) @ V - want).max(axis=0)
            ck.true(tag + "exact-derivative", e <= abs(sc) * 2e-13 * max(1.0, n / 100) ** 3 * float(n) ** (2 * k) * (1 + (abs(a) + abs(b)) / abs(b - a)), nontrivial=np.arange(n) >= k, n=n, order=k, degree=np.arange(n), interval=str(iv))

    for n in ck.pick(list(range(18, 131)) + [150, 160, 200, 256], list(range(18, 260)) + [300, 320, 400, 512]):
        for iv in ((None, None), (0.0, 10.0), (1.0, -1.0), (3.0, 3.001)):
            whole("many:", n, iv, range(1, ck.pick(3, 4) + 1))
    for n in ck.pick((2, 3, 4, 5, 8, 13, 24), (2, 3, 4, 5, 6, 7, 8, 9, 13, 16, 24, 31, 40)):
        for L in np.geomspace(1e-9, 1e9, ck.pick(55, 181)):
            for o in (0.0, -0.5, -1.0, 1.7, -3.3):
                whole("interval:", n, (float(o * L), float((o + 1) * L)), (1, 2, 3, 4))
                whole("interval:", n, (float((o + 1) * L), float(o * L)), (1, 2))
    for bad in (0, -1):
        try:
            r = ns.ChebCollocation(8).matder(bad)
            ck.true("null-order", r is None, order=bad)
        except Exception:
            ck.true("null-order", True, order=bad)
    # histories of requests
    for n, iv in ((5, (0.0, 2.0)), (8, (-1.0, 3.0))) if not ck.thorough else ((5, (0.0, 2.0)), (8, (-1.0, 3.0)), (13, (None, None))):
        fresh = {k: np.array(ns.ChebCollocation(n, *iv).matder(k)) for k in range(1, 7)}
        other = np.array(ns.ChebCollocation(n + 1, -3.0, 1.0).matder(2))

        def ask(k):
            def f(I, S):
                I["got"].append((k, I["c"].matder(k)))
                S.append(("c", k))

            return ("order%d" % k, f)

        def ask_other(k):
            def f(I, S):
                I["o"].matder(k)
                S.append(("o", k))

            return ("other%d" % k, f)

        def compute(k):
            def f(I, S):
                I["c"].compute_matder(k)
                S.append(("compute", k))

            return ("compute%d" % k, f)

        def use_x(I, S):
            I["c"].x
            I["c"].extrapol(np.ones(n), 0.5)

        def obs(I, S, hist):
            h = "/".join(hist)
            ok = True
            for k, D in I["got"]:
                ok &= ck.close("history:same-matrix", D, fresh[k], rtol=1e-12, atol=1e-12 * float(np.abs(fresh[k]).max()), n=n, order=k, history=h)
            ok &= ck.close("history:nodes", I["c"].x, ns.ChebCollocation(n, *iv).x, rtol=0, n=n, history=h)
            if S and S[-1][0] == "o":
                ok &= ck.close("history:other", I["o"].matder(2), other, rtol=1e-12, atol=1e-12 * float(np.abs(other).max()), history=h)
            return bool(ok)

        core.bfs(ck, "history-n%d" % n, lambda: ({"c": ns.ChebCollocation(n, *iv), "o": ns.ChebCollocation(n + 1, -3.0, 1.0), "got": []}, []),
                 [ask(k) for k in (1, 2, 3, 4, 6)] + [ask_other(1), ask_other(4), ("nodes", use_x), compute(1), compute(2), compute(4)], ck.pick(3, 4), start=obs)
