import numpy as np

from mc import core, riem

PROP = {
    "id": "C11",
    "title": "Riemann problem: sampled solution on every ray",
    "statement": "At every ray x/t, for every pair of states, the sampled density, velocity, pressure and gamma are those of the exact self-similar solution: outer states beyond the waves, intermediate states between them, isentropic fans inside expansions and the gas change at the contact. The samples are positive, do not depend on the order, number or position of the other sampled rays, and sampling changes nothing in the solved problem.",
    "quantifier": {"over": ["inputs", "histories"], "text": "the product of states and gammas of the Riemann property, and weak waves down to a relative jump of 2e-6, x rays on a dense axis, at each wave speed exactly and on both sides of it; all orders of sampling"},
    "why_tests_cant": "Tests look at extreme values of one profile; a wrong inequality at a wave, a swapped gamma or an uncovered ray needs the whole axis for each wave pattern.",
    "anchors": {
        "files": ["aerokit/instance/riemann.py"],
        "mechanism": [{"name": "masked assignment of the self-similar zones", "where": "aerokit/instance/riemann.py"}],
        "observe_at": ["state returned by the sampling function"],
    },
}
LEVEL = "exploration"
TECH = "bounded exhaustive enumeration of state pairs x rays on the real code, against an independent exact sampler"
NOTE = "Complete over the stated product; rays within 1e-9 of a discontinuity may take either side, rays exactly on a wave must take one of the two."
RULE = "every state pair x every ray of the axis; non-trivial = rays strictly between the fastest waves"


def run(ck):
    from aerokit.aero.unsteady1D import unsteady_state as US
    from aerokit.common import defaultgas as dg
    from aerokit.instance.riemann import riemann_pb

    def seen(R):
        return [float(v) for f in (R.qstarL(), R.qstarR()) for v in (f.rho, f.u, f.p, f._gamma)] + [float(v) for v in (R.pstar(), R.ustar(), R.left_fastest(), R.right_fastest())]

    def alike(a, b):
        return bool(np.all(np.abs(np.asarray(a) - b) <= 1e-12 * (1e-3 + np.abs(b))))

    def one(tag, a, gL, b, gR, n):
        case = "L%s g=%g R%s g=%g" % (a, gL, b, gR)
        if riem.vacuum(a, gL, b, gR):
            return
        R = ck.call(tag + "solve", riemann_pb, US(*a, gamma=gL), US(*b, gamma=gR))
        if isinstance(R, core.Failure):
            return
        sol = riem.solve(a, gL, b, gR)
        w = np.array(riem.speeds(a, gL, b, gR, sol), dtype=float)
        sc = max(np.sqrt(gL * a[2] / a[0]), np.sqrt(gR * b[2] / b[0]), abs(a[1]), abs(b[1]))
        ext = w[4] - w[0] + 1e-3 * sc
        own = np.array(getattr(R, "_waves", w), dtype=float)
        x = np.concatenate([np.linspace(w[0] - 0.3 * ext, w[4] + 0.3 * ext, n), own, [float(np.ravel(R.ustar())[0])], own - 1e-6 * sc, own + 1e-6 * sc, [0.0], w[0] + (w[1] - w[0]) * np.linspace(0, 1, 9), w[3] + (w[4] - w[3]) * np.linspace(0, 1, 9)])
        before = x.copy()
        snap = seen(R)
        S = ck.call(tag + "sample", R.qsol, x)
        if isinstance(S, core.Failure):
            return
        ck.true(tag + "nothing-changed", np.array_equal(x, before) and seen(R) == snap, case=case)
        want = np.array([riem.sample(v, a, gL, b, gR, sol, w) for v in x])
        lo = np.array([riem.sample(v - 2e-7 * sc, a, gL, b, gR, sol, w) for v in x])
        hi = np.array([riem.sample(v + 2e-7 * sc, a, gL, b, gR, sol, w) for v in x])
        got = np.stack([np.broadcast_to(np.asarray(v, dtype=float), x.shape) for v in (S.rho, S.u, S.p, S._gamma)], axis=-1)
        near = np.min(np.abs(x[:, None] - w[None, :]), axis=1) < 1.5e-7 * sc
        nt = (x > w[0]) & (x < w[4])
        scale = np.array([0, sc, 0, 0])
        rt = np.array([1e-7, 1e-8, 1e-7, 1e-14]) * (1 / (min(gL, gR) - 1))
        for i, nm in enumerate(("rho", "u", "p", "gamma")):
            def eq(t):
                return np.abs(got[:, i] - t[:, i]) <= rt[i] * (np.abs(t[:, i]) + scale[i]) + 1e-14 * (max(a[0], b[0]) if i == 0 else max(a[2], b[2]))
            # just at a wave both adjacent values are right (and the own speeds differ from the reference by rounding)
            ok = np.where(near, eq(want) | eq(lo) | eq(hi) | (np.abs(got[:, i] - want[:, i]) <= 1e-5 / (min(gL, gR) - 1) * (np.abs(want[:, i]) + scale[i])), eq(want))
            ck.true(tag + "sample:" + nm, ok, nontrivial=nt, x=x, got=got[:, i], want=want[:, i], case=case)
        # a ray on the contact takes the whole state of one of its two sides
        con = np.flatnonzero(np.abs(x - w[2]) < 1.5e-7 * sc)
        for i in con:
            sides = [np.all(np.abs(got[i] - t[i]) <= 1e-5 / (min(gL, gR) - 1) * (np.abs(t[i]) + scale)) and got[i, 3] == t[i, 3] for t in (lo, hi)]
            ck.true(tag + "contact-side", any(sides), x=float(x[i]), got=got[i], left=lo[i], right=hi[i], case=case) if not any(sides) else ck.true(tag + "contact-side", True, x=float(x[i]), case=case)
        ck.true(tag + "positive", (got[:, 0] > 0) & (got[:, 2] > 0), x=x, case=case)
        # order and grouping of rays do not matter
        perm = np.concatenate([np.arange(len(x))[1::2], np.arange(len(x))[::2]])
        T = R.qsol(x[perm])
        ck.true(tag + "order-free", alike(T.rho, np.asarray(S.rho)[perm]) and alike(T.u, np.asarray(S.u)[perm]) and alike(T.p, np.asarray(S.p)[perm]) and np.array_equal(np.broadcast_to(T._gamma, x.shape), np.broadcast_to(S._gamma, x.shape)[perm]), case=case)
        # rays given as whole numbers, as a sequence of another type or of other shapes of array
        k = np.unique(np.round(np.linspace(w[0] - 1, w[4] + 1, 9))).astype(int)
        F = R.qsol(k.astype(float))
        for kn, kx in () if np.abs(k).max() > 1e6 else (("int", k), ("int32", k.astype(np.int32)), ("float32", k.astype(np.float32)), ("view", np.repeat(k.astype(float), 2)[::2]), ("reversed", k[::-1].copy()[::-1])):
            T = ck.call(tag + "rays:" + kn, R.qsol, kx)
            if not isinstance(T, core.Failure):
                tol = 1e-5 if kn == "float32" else 1e-12
                ck.true(tag + "rays:" + kn, all(np.allclose(np.asarray(getattr(T, f), dtype=float), getattr(F, f), rtol=tol, atol=1e-15) for f in ("rho", "u", "p", "_gamma")), case=case)
        for j in range(0, len(x), 7):
            T = R.qsol(x[j : j + 1])
            ck.true(tag + "single-ray", alike(T.rho[0], S.rho[j]) and alike(T.u[0], S.u[j]) and alike(T.p[0], S.p[j]), case=case, x=float(x[j]))

    lat = riem.lattice(ck.thorough)
    for c in lat:
        one("", *c, n=ck.pick(41, 201))
    # weak waves: the pressure of one side differs from the other one by a small part only
    for e in (0.1, 1e-2, 1e-3, 1e-4, 3e-5, 1e-5, 5e-6, 2e-6):
        for gL, gR in ((1.4, 1.4), (1.3, 1.6), (1.1, 1.1), (1.67, 1.2)):
            for u in (0.0, 0.7, -2.0):
                for sgn in (-1, 1):
                    one("weak:", (1.0, u, 1.0), gL, (1.0, u, 1.0 + sgn * e), gR, n=21)
                    one("weak:", (1.0, u - sgn * e, 1.0), gL, (0.8, u + sgn * e, 1.0), gR, n=21)
    # the same problems in other units
    for kr, kp in ((1e14, 1.0), (1e-14, 1.0), (1.0, 1e12), (1e-6, 1e-9), (1e3, 1e5), (1.0, 1e-12)):
        ku = np.sqrt(kp / kr)
        for a, gL, b, gR in lat[:: ck.pick(29, 5)]:
            one("scaled:", (a[0] * kr, a[1] * ku, a[2] * kp), gL, (b[0] * kr, b[1] * ku, b[2] * kp), gR, n=31)
    dg.set_gamma(1.3)
    for c in lat[::9]:
        one("default-gas-changed:", *c, n=31)
    dg.set_gamma(1.4)
    # two problems sampled alternately
    p1 = riemann_pb(US(1.0, 0.0, 1.0, 1.4), US(0.125, 0.0, 0.1, 1.4))
    p2 = riemann_pb(US(1.0, 0.75, 1.0, 1.2), US(0.125, 0.0, 0.1, 1.6))
    x = np.linspace(-2, 3, 101)

    def f(p):
        q = p.qsol(x)
        return np.array([q.rho, q.u, q.p])

    core.histories(ck, "sequence", [("A", lambda: f(p1)), ("B", lambda: f(p2)), ("A'", lambda: f(riemann_pb(US(1.0, 0.0, 1.0, 1.4), US(0.125, 0.0, 0.1, 1.4))))], depth=3)
