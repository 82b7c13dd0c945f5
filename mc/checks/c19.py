import itertools

import numpy as np

from mc import core

PROP = {
    "id": "C19",
    "title": "Eigenvalues: resolution, selection, sort and convergence of pairs",
    "statement": "Eigenpairs computed for a stability operator satisfy its generalised problem with time dependence exp(-i omega t). Selection returns exactly the eigenvalues inside the requested ranges of growth rate and frequency, with their own modes, and an order that sorts them by increasing frequency or by decreasing growth rate. Iterative convergence starting near a pair returns that pair, with a mode of unit norm, also when started exactly on it, without altering its arguments.",
    "quantifier": {"over": ["inputs"], "text": "operators of size 2..8 with prescribed spectra (real, complex, repeated, infinite eigenvalues; symmetric, triangular, companion and complex matrices; singular mass matrices) x all selection windows of a lattice x sort keys x start pairs around each eigenpair"},
    "why_tests_cant": "Tests converge a single 3x3 real matrix and select one window.",
    "anchors": {
        "files": ["aerokit/stability/_base.py"],
        "mechanism": [{"name": "selection condition, sort keys and Rayleigh quotient iterations", "where": "aerokit/stability/_base.py"}],
        "observe_at": ["solve_eig, select_and_sort, converge_eigenpair"],
    },
}
LEVEL = "exploration"
TECH = "bounded exhaustive enumeration of operators, selection windows and starting pairs on the real code, against the prescribed spectra"
NOTE = "Complete over the stated lattice."
RULE = "every operator x window x sort key and every operator x eigenpair x perturbation of the start; non-trivial = non-empty, non-total selection"


def operators():
    """name, B, A (time matrix), eigenvalues omega with B v = -1j omega A v"""
    out = []
    spectra = {
        "real": [1.0, 2.5, -3.0, 0.5],
        "pairs": [1 + 1j, 1 - 1j, -2 + 0.5j, -2 - 0.5j, 3.0],
        "damped": [0.5 - 0.1j, 1.5 - 0.3j, 2.5 + 0.2j, 0.1 + 0.01j, -0.7 - 1j, 4.0 + 0j],
        "repeated-frequency": [1 + 0.1j, 1 + 0.2j, 1 - 0.4j, 2.0],
        "imag": [1j, -1j, 0.5j],
        "two": [2.0, 5.0],
    }
    for nm, w in spectra.items():
        w = np.array(w, dtype=complex)
        n = len(w)
        V = {
            "diag": np.eye(n, dtype=complex),
            "triangular": np.eye(n, dtype=complex) + 0.3 * np.triu(np.ones((n, n)), 1),
            "full": np.eye(n) + 0.4 * np.cos(np.outer(np.arange(n) + 1, np.arange(n) + 2)) + 0.2j * np.sin(np.outer(np.arange(n), np.arange(n) + 1.0)),
        }
        for vn, v in V.items():
            for an, A in (("identity", np.eye(n)), ("scaled", np.diag(1.0 + np.arange(n))), ("full", np.eye(n) + 0.2 * np.cos(np.add.outer(np.arange(n), 2 * np.arange(n))))):
                B = -1j * A @ v @ np.diag(w) @ np.linalg.inv(v)
                out.append(("%s/%s/%s" % (nm, vn, an), B, A, w))
        # one constraint row: infinite eigenvalue
        B = np.zeros((n + 1, n + 1), dtype=complex)
        A = np.zeros((n + 1, n + 1))
        B[:n, :n] = -1j * np.diag(w)
        A[:n, :n] = np.eye(n)
        B[n, n] = 1.0
        B[n, 0] = 0.5
        out.append(("%s/constraint" % nm, B, A, w))
    return out


def run(ck):
    import aerokit.stability as stab

    class Op(stab.LinOperator):
        def __init__(self, B, A):
            super().__init__(len(B))
            self.B0, self.A0 = B, A

        def compute_operators(self):
            self._B, self._At = self.B0, self.A0

    inf = [(0.0, 1.0e99), (-1e9, 1e9), (-2.5, 1.2), (0.7, 1.8), (100.0, 200.0), (-1e9, 0.3)]
    imw = [(-1e10, 1e10), (-0.35, 0.15), (0.05, 10.0), (-5.0, -0.05)]
    for nm, B, A, w in operators():
        B0, A0 = B.copy(), A.copy()
        op = Op(B, A)
        r = ck.call("solve", op.solve_eig, ctx={"operator": nm})
        if isinstance(r, core.Failure):
            continue
        vals, vec = np.array(r[0]), np.array(r[1])
        fin = np.isfinite(vals) & (np.abs(vals) < 1e8)
        ck.true("solve:spectrum", int(fin.sum()) == len(w) and all(np.min(np.abs(vals[fin] - x)) < 1e-8 for x in w), operator=nm)
        if int(fin.sum()) != len(w):
            continue
        for i in np.flatnonzero(fin):
            ck.true("solve:pair", np.linalg.norm(B @ vec[:, i] + 1j * vals[i] * (A @ vec[:, i])) < 1e-9 * np.linalg.norm(vec[:, i]) * (1 + np.abs(B).max()), operator=nm, eigenvalue=complex(vals[i]))
        for (r0, r1), (i0, i1), sort in itertools.product(inf, imw, ("real", "imag", None)):
            kw = dict(realmin=r0, realmax=r1, imagmin=i0, imagmax=i1)
            if sort:
                kw["sort"] = sort
            s = ck.call("select", op.select_and_sort, **kw)
            if isinstance(s, core.Failure):
                continue
            sv, sw, order = np.asarray(s[0]), np.asarray(s[1]), np.asarray(s[2])
            edge = 1e-7
            want = [x for x in w if r0 < x.real < r1 and i0 < x.imag < i1]
            amb = any(min(abs(x.real - r0), abs(x.real - r1), abs(x.imag - i0), abs(x.imag - i1)) < edge for x in w)
            co = dict(operator=nm, realmin=r0, realmax=r1, imagmin=i0, imagmax=i1, sort=str(sort))
            if amb and r0 != 0.0:
                continue
            nt = 0 < len(want) < len(w)
            if amb:
                want = [x for x in w if x.real > -edge and x.real < r1 and i0 < x.imag < i1]
                ck.true("select:inside", all(v.real >= r0 and v.real < r1 and i0 < v.imag < i1 for v in sv), nontrivial=nt, **co)
                continue
            ck.true("select:exact", len(sv) == len(want) and all(np.min(np.abs(sv - x)) < 1e-8 for x in want), nontrivial=nt, **co)
            ck.true("select:modes", sw.shape == (len(B), len(sv)) and all(np.linalg.norm(B @ sw[:, j] + 1j * sv[j] * (A @ sw[:, j])) < 1e-9 * (1 + np.abs(B).max()) for j in range(len(sv))), nontrivial=nt, **co)
            key = sv[order].real if sort != "imag" else -sv[order].imag
            ck.true("select:order", sorted(order.tolist()) == list(range(len(sv))) and bool(np.all(np.diff(key) >= 0)), nontrivial=nt, **co)
        d = op.select_and_sort()
        ck.true("select:default", all(v.real >= 0 for v in d[0]) and len(d[0]) == int(np.sum(vals[fin].real >= 0)), operator=nm)
        ck.true("select:keeps-spectrum", np.array_equal(op.select_and_sort(-1e12, 1e12)[0], vals[np.isfinite(vals) & (np.abs(vals.real) < 1e12) & (np.abs(vals.imag) < 1e10) & (vals.imag > -1e10)]), operator=nm)
        # convergence
        for i in np.flatnonzero(fin):
            others = np.delete(vals[fin], np.flatnonzero(np.flatnonzero(fin) == i)[0])
            gap = np.min(np.abs(others - vals[i])) if len(others) else 1.0
            if gap < 1e-6:
                continue
            v0 = vec[:, i] / np.linalg.norm(vec[:, i])
            for eps in (0.0, 1e-12, 1e-6, 1e-4 if nm.split("/")[-1] == "scaled" or "diag" not in nm else 0.02):
                for ph in (1.0, -1.0, 1j):
                    om = vals[i] + eps * gap * ph
                    st = v0 * (3.0 * ph) + eps * np.cos(np.arange(len(B)) + 0.3) / np.sqrt(len(B))
                    st0 = st.copy()
                    r = ck.call("converge", op.converge_eigenpair, om, st, niter=40 if "diag" in nm else 150, ctx={"operator": nm})
                    if isinstance(r, core.Failure):
                        continue
                    co = dict(operator=nm, eigenvalue=complex(vals[i]), eps=eps, phase=str(ph))
                    ck.true("converge:eigenvalue", abs(complex(r[0]) - vals[i]) < 1e-8 * (1 + abs(vals[i])), **co)
                    ck.true("converge:mode", abs(np.linalg.norm(r[1]) - 1) < 1e-10 and np.linalg.norm(B @ r[1] + 1j * r[0] * (A @ r[1])) < 1e-7 * (1 + np.abs(B).max()), **co)
                    ck.true("converge:argument", np.array_equal(st, st0), **co)
            r0 = op.converge_eigenpair(vals[i] + 0.05 * gap, v0 + 0.05 * np.ones(len(B)), niter=0)
            ck.true("converge:none", abs(r0[0] - vals[i] - 0.05 * gap) < 1e-12 * (1 + abs(vals[i])) and abs(np.linalg.norm(r0[1]) - 1) < 1e-12, operator=nm)
            # modes of any amplitude, at any number of iterations
            for amp in (1e-150, 1e-30, 1e-15, 1e-9, 1e9, 1e150):
                for k, at in ((0, 0.05), (1, 0.02), (3, 0.02), (None, 0.0)):
                    st = amp * (v0 + at * np.cos(np.arange(len(B)) + 0.3))
                    r1 = ck.call("amplitude", op.converge_eigenpair, vals[i] + at * gap, st, **({} if k is None else {"niter": k}), ctx=dict(operator=nm, amplitude=amp, iterations=k))
                    if isinstance(r1, core.Failure):
                        continue
                    ck.true("amplitude:unit", abs(np.linalg.norm(r1[1]) - 1) < 1e-10, operator=nm, amplitude=amp, iterations=str(k))
                    r2 = op.converge_eigenpair(vals[i] + at * gap, st / amp, **({} if k is None else {"niter": k}))
                    ck.true("amplitude:same", abs(r1[0] - r2[0]) < 1e-7 * (1 + abs(vals[i])), operator=nm, amplitude=amp, iterations=str(k))
            res = []
            for k in (1, 2, 4):
                r = op.converge_eigenpair(vals[i] + 0.02 * gap, v0 + 0.02 * np.cos(np.arange(len(B))), niter=k)
                res.append(abs(r[0] - vals[i]))
            ck.true("converge:improves", res[1] <= res[0] + 1e-12 and res[2] <= res[1] + 1e-12, operator=nm, eigenvalue=complex(vals[i]))
        ck.true("operators-unchanged", np.array_equal(B, B0) and np.array_equal(A, A0), operator=nm)
    # other units, close eigenvalues, modes given with any amplitude
    base = np.array([1.0 + 0.3j, 1.004 + 0.3j, -2.0 - 0.6j, 0.4 + 0.8j, 3.0], dtype=complex)
    P = np.eye(5) + 0.25 * np.cos(np.outer(np.arange(5) + 1, np.arange(5) + 2)) + 0.1j * np.sin(np.outer(np.arange(5), np.arange(5) + 1.0))
    for sc, mass in itertools.product((1e-9, 1e-6, 1e-3, 0.13, 31.0, 1e3, 1e6, 1e9), (1.0, 1e-6, 1e6)):
        w = base * sc
        A = mass * (np.eye(5) + 0.2 * np.cos(np.add.outer(np.arange(5), 2 * np.arange(5))))
        B = -1j * A @ P @ np.diag(w) @ np.linalg.inv(P)
        op = Op(B, A)
        co = dict(scale=sc, mass=mass)
        r = ck.call("units:solve", op.solve_eig, ctx=co)
        if isinstance(r, core.Failure):
            continue
        vals, vec = np.array(r[0]), np.array(r[1])
        if not ck.true("units:spectrum", len(vals) == 5 and all(np.min(np.abs(vals - x)) < 1e-9 * sc for x in w), **co):
            continue
        for r0, r1, i0, i1, sort in itertools.product((-2.5, 0.0, 1.002), (1.002, 2.0, 5.0), (-1.0, 0.1), (0.5, 1.0), ("real", "imag", None)):
            kw = dict(realmin=r0 * sc, realmax=r1 * sc, imagmin=i0 * sc, imagmax=i1 * sc)
            s = ck.call("units:select", op.select_and_sort, **dict(kw, **({"sort": sort} if sort else {})))
            if isinstance(s, core.Failure):
                continue
            sv, sw, order = np.asarray(s[0]), np.asarray(s[1]), np.asarray(s[2])
            want = [x for x in base if r0 < x.real < r1 and i0 < x.imag < i1]
            cw = dict(co, sort=str(sort), window=str((r0, r1, i0, i1)))
            if not ck.true("units:select", len(sv) == len(want) and all(np.min(np.abs(sv / sc - x)) < 1e-8 for x in want), nontrivial=0 < len(want) < 5, **cw):
                continue
            key = sv[order].real if sort != "imag" else -sv[order].imag
            ck.true("units:order", sorted(order.tolist()) == list(range(len(sv))) and bool(np.all(np.diff(key) >= 0)), **cw)
            ck.true("units:modes", sw.shape == (5, len(sv)) and all(np.linalg.norm(B @ sw[:, j] + 1j * sv[j] * (A @ sw[:, j])) < 1e-8 * np.abs(B).max() * np.linalg.norm(sw[:, j]) for j in range(len(sv))), **cw)
        for i in range(5):
            gap = np.min(np.abs(np.delete(vals, i) - vals[i]))
            v0 = vec[:, i] / np.linalg.norm(vec[:, i])
            for eps, amp in itertools.product((0.0, 1e-8, 1e-3), (1e-9, 1.0, 1e9)):
                st = amp * (v0 + 1e-2 * eps * np.cos(np.arange(5) + 0.3))
                st0 = st.copy()
                r = ck.call("units:converge", op.converge_eigenpair, vals[i] + eps * gap * 1j, st, niter=60, ctx=co)
                if isinstance(r, core.Failure):
                    continue
                cw = dict(co, eigenvalue=complex(base[i]), eps=eps, amplitude=amp)
                ck.true("units:converge", abs(complex(r[0]) - vals[i]) < 1e-7 * sc and abs(np.linalg.norm(r[1]) - 1) < 1e-9 and np.linalg.norm(B @ r[1] + 1j * r[0] * (A @ r[1])) < 1e-6 * np.abs(B).max() and np.array_equal(st, st0), got=complex(r[0]), **cw)
    # real symmetric operator, started exactly on its eigenpairs (singular linear system), and integer operators
    for d in ([1, 2, 4], [3, 5, 7, 11]):
        D = np.diag(d)
        op = Op(D, np.eye(len(d)) / op._harmonic_time_coef)
        for i, x in enumerate(d):
            for start in (np.eye(len(d))[i], np.eye(len(d), dtype=int)[i].tolist()):
                r = ck.call("converge:exact", op.converge_eigenpair, float(x), start)
                if not isinstance(r, core.Failure):
                    ck.true("converge:exact-start", abs(complex(r[0]) - x) < 1e-10 and abs(abs(r[1][i]) - 1) < 1e-10, eigenvalue=x, dim=len(d))
