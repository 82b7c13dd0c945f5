import itertools

import numpy as np
from numpy.polynomial import chebyshev as ch

from mc import core
from mc.checks.c20 import rowspace

PROP = {
    "id": "C21",
    "title": "Compressible stability operator and its boundary conditions",
    "statement": "For every base flow, gas and interval, the discrete operator is exactly the linearisation of the one-dimensional Euler equations on every polynomial the points can represent. The boundary rows state respectively a symmetry (null slopes and velocity), periodicity of values and slopes, or the linearised jump relations of a shock free to move, and nothing else. Spectra of uniform channels and their symmetries are the acoustic ones, and missing or unknown boundary parameters are refused.",
    "quantifier": {"over": ["inputs"], "text": "uniform and varying base flows x gamma 1.1..5/3 x Mach numbers of both signs x intervals x 4..16 points x the whole polynomial basis; shock boundary: downstream Mach numbers x upstream gradients"},
    "why_tests_cant": "Tests compare frequencies of a uniform periodic channel only; varying base flow, other gas, symmetry and shock boundaries are not exercised.",
    "anchors": {
        "files": ["aerokit/stability/Euler.py", "aerokit/stability/_base.py", "aerokit/aero/model1D.py", "aerokit/aero/ShockWave.py"],
        "mechanism": [{"name": "assembly of the operator, boundary rows and shock displacement unknown", "where": "aerokit/stability/Euler.py"}],
        "observe_at": ["get_RHS_time_matrices, solve_eig"],
    },
}
LEVEL = "exploration"
TECH = "bounded exhaustive enumeration of base flows, boundary conditions and polynomial basis on the real code, against the numerical linearisation of the conservation laws"
NOTE = "Complete over the stated lattice. The shock condition is claimed on the left boundary only, with a given upstream Mach gradient."
RULE = "every base flow x gamma x interval x size x basis perturbation and every boundary pair; non-trivial = varying base flow"


def jump(rho, u, p, s, g):
    """state behind a shock moving at speed s into (rho, u, p)"""
    m2 = (u - s) ** 2 * rho / (g * p)
    R = (g + 1) * m2 / (2 + (g - 1) * m2)
    return np.array([rho * R, s + (u - s) / R, p * (1 + 2 * g / (g + 1) * (m2 - 1))])


def cderiv(f, x, h):
    return (8 * (f(x + h) - f(x - h)) - (f(x + 2 * h) - f(x - 2 * h))) / (12 * h)


def run(ck):
    import aerokit.aero.model1D as m1
    import aerokit.stability.Euler as Eu
    from aerokit.common.numspectral import ChebCollocation

    # base flows as Chebyshev coefficients of rho, u, p on the reference interval
    FLOWS = {
        "rest": ([1.4], [0.0], [1.0]),
        "uniform": ([1.2], [0.4], [1.0]),
        "uniform-back": ([1.2], [-0.6], [2.0]),
        "density": ([1.4, 0.2], [0.3], [1.0]),
        "velocity": ([1.4], [0.5, 0.1, -0.05], [1.0]),
        "pressure": ([1.0], [0.2], [1.5, -0.2, 0.1]),
        "all": ([1.3, 0.2, -0.1], [0.5, -0.2, 0.04], [1.2, 0.1, 0.15]),
        "supersonic": ([1.0, -0.2], [2.5, 0.3], [1.0, -0.1, 0.02]),
        # units of the international system, small density, small gradients
        "SI": ([1.2, 0.1], [120.0, -30.0, 7.0], [1e5, 7e3]),
        "thin": ([1e-4, 3e-5], [15.0, 4.0], [0.1, 0.02]),
        "slight": ([1.3, 3e-5], [0.4, -2e-5, 1e-6], [1.0, 1e-5]),
    }
    # heat ratio of each cell
    GAMMAS = {"linear": ([1.35, 0.1],), "curved": ([1.3, 0.05, -0.1],)}
    BCS = {"sym": ("sym", "sym"), "per": ("per", "per")}
    sizes = ck.pick((4, 5, 8, 11), (4, 5, 6, 7, 8, 12, 15, 16))
    for n, (a, b), (fn, F), g in itertools.product(sizes, ((0.0, 1.0), (-1.0, 1.0), (-2.0, 3.0)), FLOWS.items(), ck.pick((1.2, 1.4, 5 / 3), (1.1, 1.2, 1.3, 1.4, 5 / 3)) + tuple(GAMMAS)):
        sc = 2 / (b - a)
        s = np.sin(np.pi * (np.arange(n) / (n - 1) - 0.5))
        val = lambda c, k=0: ch.chebval(s, ch.chebder(c, k) if len(c) > k else [0.0]) * sc**k * np.ones(n)
        rho, u, p = [val(c) for c in F]
        rx, ux, px = [val(c, 1) for c in F]
        g = val(GAMMAS[g][0]) if g in GAMMAS else g
        amp = [rho.min(), np.abs(u).max() + np.sqrt(np.max(g * p / rho)), p.min()]
        Dm = np.asarray(ChebCollocation(n, a, b).matder(1))
        for bn, bc in BCS.items():
            kw = dict(n=n, interval=str((a, b)), flow=fn, gamma=str(g), bc=bn)
            st = m1.state(rho.copy(), u.copy(), p.copy(), gamma=g.copy() if np.ndim(g) else g)
            o = Eu.Euler1D(n, a, b, basestate=st)
            o.set_BC(*bc)
            r = ck.call("operators", o.get_RHS_time_matrices, ctx=kw)
            if isinstance(r, core.Failure):
                continue
            B, A = np.asarray(r[0]), np.asarray(r[1])
            if not ck.true("shape", B.shape == (3 * n, 3 * n) and A.shape == (3 * n, 3 * n), **kw):
                continue
            brows = [0, n - 1, n, 2 * n - 1, 2 * n, 3 * n - 1]
            inner = np.setdiff1d(np.arange(3 * n), brows)
            I = np.eye(3 * n)
            ck.true("time-matrix", np.array_equal(A[inner], I[inner]), **kw)
            tol = 3e-13 * n**2 * sc * 10
            for d, var in itertools.product(range(n), range(3)):
                e = np.zeros(d + 1)
                e[d] = 1
                f, fx = val(e), val(e, 1)
                z = np.zeros(n)
                w, wx = [z, z, z], [z, z, z]
                w[var], wx[var] = f, fx
                # exact linearisation: derivative with respect to a small amplitude of the residual of the
                # equations  rho_t + (rho u)_x, u_t + u u_x + p_x / rho, p_t + u p_x + g p u_x
                def resid(t):
                    R, U, P = rho + t * w[0], u + t * w[1], p + t * w[2]
                    Rx, Ux, Px = rx + t * wx[0], ux + t * wx[1], px + t * wx[2]
                    return -np.concatenate([R * Ux + U * Rx, U * Ux + Px / R, U * Px + g * P * Ux])

                h = 1e-3 * amp[var] / (1 + np.abs(f).max())
                want = cderiv(resid, 0.0, h)
                # rounding errors of the differences above, of the slopes of the base flow
                noise = 1e-3 * n**2 * sc * np.repeat([np.abs(rho * u).max(), (u * u + p / rho).max(), (np.abs(u) * p * (1 + g)).max()], n) * (1 + np.abs(f).max())
                noise += np.repeat([(np.abs(rho * ux) + np.abs(u * rx)).max(), (np.abs(u * ux) + np.abs(px / rho)).max(), (np.abs(u * px) + np.abs(g * p * ux)).max()], n) * (1 + np.abs(f).max())
                q = np.zeros(3 * n)
                q[var * n : (var + 1) * n] = f
                ck.close("linearised", (B @ q)[inner], want[inner], rtol=1e-8, atol=(1e-13 * n * (np.abs(B) @ np.abs(q)) + 1e-12 * noise / amp[var])[inner], nontrivial=len(F[0]) + len(F[1]) + len(F[2]) > 3, degree=d, variable=var, row=inner, **kw)
            ck.true("boundary:time", not np.any(A[brows]), **kw)
            W = np.zeros((6, 3 * n))
            if bn == "per":
                for v in range(3):
                    W[2 * v, v * n], W[2 * v, v * n + n - 1] = 1, -1
                    W[2 * v + 1, v * n : (v + 1) * n] = Dm[0] - Dm[n - 1]
            else:
                for k, i in enumerate((0, n - 1)):
                    W[3 * k, :n] = Dm[i]
                    W[3 * k + 1, n + i] = 1
                    W[3 * k + 2, 2 * n :] = Dm[i]
            ck.true("boundary:" + bn, rowspace(B[brows], W, 1e-9), **kw)
            ck.true("base-state-kept", np.array_equal(st.rho, rho) and np.array_equal(st.u, u) and np.array_equal(st.p, p) and np.array_equal(st._gamma, g), **kw)

    # --- shock boundary
    def shock_case(n, L, g, M0, dM, grads, right, tight):
        kw = dict(n=n, length=L, gamma=g, M0=M0, dM0dx=dM, gradients=str(grads))
        rho0, p0 = 1.1, 0.9
        u0 = M0 * np.sqrt(g * p0 / rho0)
        q1 = jump(rho0, u0, p0, 0.0, g)
        x = np.asarray(ChebCollocation(n, 0.0, L).x)
        rho, u, p = [q1[k] * (1 + grads[k] * x / L) for k in range(3)]
        st = m1.state(rho, u, p, gamma=g)
        o = Eu.Euler1D(n, 0.0, L, basestate=st)
        bc = {"type": "RH", "dM0dx": dM}
        o.set_BC(bc, right)
        r = ck.call("RH:operators", o.get_RHS_time_matrices, ctx=kw)
        if isinstance(r, core.Failure):
            return
        ck.true("RH:description-kept", bc == {"type": "RH", "dM0dx": dM}, **kw)
        B, A = np.asarray(r[0]), np.asarray(r[1])
        if not ck.true("RH:shape", B.shape == (3 * n + 1, 3 * n + 1) and A.shape == B.shape, **kw):
            return
        rows = [0, 2 * n, 3 * n]
        # unknowns: q1m' (3) at the boundary, dxs, s=dxs/dt
        #   q1m' + dq1/dx dxs - d(jump)/dq0 . dq0/dx dxs - d(jump)/ds s = 0
        rt0 = p0 / rho0 * (1 + 0.5 * (g - 1) * M0**2)
        pt0 = p0 * (1 + 0.5 * (g - 1) * M0**2) ** (g / (g - 1))

        def up(M):
            T = 1 + 0.5 * (g - 1) * M**2
            P, rt = pt0 / T ** (g / (g - 1)), rt0 / T
            return np.array([P / rt, M * np.sqrt(g * rt), P])

        dJx = cderiv(lambda t: jump(*up(M0 + dM * t), 0.0, g), 0.0, 1e-3 / (1 + abs(dM)))
        dJs = cderiv(lambda t: jump(rho0, u0, p0, t, g), 0.0, 1e-3)
        slope = np.array([q1[k] * grads[k] / L for k in range(3)])
        W = np.zeros((3, 2 * (3 * n + 1)))
        for k in range(3):
            W[k, k * n] = 1.0
            W[k, 3 * n] = slope[k] - dJx[k]
            W[k, 3 * n + 1 + 3 * n] = dJs[k]  # A row: At dq/dt = B q
        R = np.concatenate([B[rows], A[rows]], axis=1)
        dx = abs(x[1] - x[0])
        tol = 1e-8 + 300 * dx * dM * dM
        if tight:
            # coefficients of the displacement are compared after elimination
            X = np.linalg.lstsq(R[:, [0, n, 2 * n]].T, np.eye(3), rcond=None)[0].T @ R
            ck.close("RH:displacement", X[:, 3 * n], W[:, 3 * n], rtol=1e-6, atol=tol, row=np.arange(3), **kw)
            ck.close("RH:speed", X[:, -1], W[:, -1], rtol=1e-7, atol=1e-9, row=np.arange(3), **kw)
            other = np.setdiff1d(np.arange(2 * (3 * n + 1)), [0, n, 2 * n, 3 * n, 6 * n + 1])
            ck.true("RH:local", not np.any(np.abs(R[:, other]) > 1e-12), **kw)
        # momentum row at the shock and everything else are those of a channel
        o2 = Eu.Euler1D(n, 0.0, L, basestate=m1.state(rho, u, p, gamma=g))
        o2.set_BC("sym", right)
        B2, A2 = o2.get_RHS_time_matrices()
        keep = np.setdiff1d(np.arange(3 * n), [0, n, 2 * n])
        ck.true("RH:other-rows", np.allclose(B[keep, : 3 * n], B2[keep]) and np.allclose(A[keep, : 3 * n], A2[keep]) and not np.any(B[keep, 3 * n]) and not np.any(A[keep, 3 * n]), **kw)

    for n, L, g, M0, dM, gr in itertools.product(ck.pick((20,), (12, 20, 40)), (1.0, 3.0), ck.pick((1.2, 1.4), (1.1, 1.2, 1.3, 1.4, 5 / 3)), ck.pick((1.1, 1.5, 3.0), (1.05, 1.1, 1.3, 1.5, 2.0, 3.0, 5.0)), (0.0, 1e-3, -0.05, 0.3), ((0, 0, 0), (0.1, 0, 0), (0, -0.1, 0.0), (0.1, -0.2, 0.3))):
        shock_case(n, L, g, M0, dM, gr, "sym", True)
    for bad in ({"type": "RH"}, {"type": "RH", "dM0dx": 0.1, "other": 2}, {"type": "sym", "other": 1}):
        st = m1.state(1.4 * np.ones(6), 0.6 * np.ones(6), np.ones(6))
        o = Eu.Euler1D(6, 0.0, 1.0, basestate=st)
        for rep in (1, 2):
            try:
                o.set_BC(bad, "sym")
                o.get_RHS_time_matrices()
                ok = False
            except Exception:
                ok = True
            ck.true("refused", ok, bc=str(bad), rep=rep)
    for l, r_ in (("per", "sym"), ("sym", "per"), ("none", "sym"), ("sym", "none")):
        o = Eu.Euler1D(6, 0.0, 1.0, basestate=m1.state(1.4 * np.ones(6), 0.6 * np.ones(6), np.ones(6)))
        try:
            o.set_BC(l, r_)
            o.get_RHS_time_matrices()
            ok = False
        except Exception:
            ok = True
        ck.true("refused", ok, bc=l + "/" + r_)

    # --- spectra of uniform channels: sound waves
    def freqs(n, L, rho, u, p, g, bc, x0=0.0):
        o = Eu.Euler1D(n, x0, x0 + L, basestate=m1.state(rho * np.ones(n), u * np.ones(n), p * np.ones(n), gamma=g))
        o.set_BC(*bc)
        v = np.array(o.solve_eig()[0])
        return v[np.isfinite(v)]

    n = ck.pick(30, 45)
    for g, L, x0, a in itertools.product((1.2, 1.4, 5 / 3), (1.0, 2.5), (0.0, -1.0), (1.0, 340.0)):
        p, rho = 1.0, g / a**2
        kw = dict(gamma=g, length=L, origin=x0, a=a)
        v = freqs(n, L, rho, 0.0, p, g, BCS["sym"], x0)
        for k in range(1, 5):
            for sg in (1, -1):
                w = sg * np.pi * k * a / L
                ck.true("channel:closed", np.min(np.abs(v - w)) < 1e-6 * abs(w), mode=k * sg, **kw)
        ck.true("channel:neutral", np.max(np.abs(v[np.abs(v) < 4.5 * np.pi * a / L].imag)) < 1e-4 * a / L, **kw)
        for M in (-0.8, -0.2, 0.3, 1.5):
            v = freqs(n, L, rho, M * a, p, g, BCS["per"], x0)
            for k, c in itertools.product((1, 2, 3), (M, M + 1, M - 1)):
                w = 2 * np.pi * k * c * a / L
                ck.true("channel:periodic", np.min(np.abs(v - w)) < 1e-5 * a / L and np.min(np.abs(v + w)) < 1e-5 * a / L, mode=k, wave=c, Mach=M, **kw)
