import numpy as np

from mc import core

PROP = {
    "id": "C18",
    "title": "Stability operators follow the current base state and boundary conditions",
    "statement": "After any sequence of base state changes, boundary condition changes (valid or refused), operator requests, eigenvalue computations and eigenpair convergences, a stability model gives exactly the operators and the spectrum that a fresh model with the current base state and boundary conditions gives, or refuses while one of them is missing. A refused request changes nothing, models do not influence each other, and base states and boundary condition descriptions given by the user are never altered.",
    "quantifier": {"over": ["histories"], "text": "all sequences of lifecycle events up to depth 4 (quick) or 5 (thorough) on compressible and incompressible models, with several base states, boundary conditions and a second live model"},
    "why_tests_cant": "Tests follow the single order base state, boundary conditions, eigenvalues, once.",
    "anchors": {
        "files": ["aerokit/stability/_base.py", "aerokit/stability/Euler.py", "aerokit/stability/OrrSommerfeld.py"],
        "state": [{"name": "base state, boundary conditions, computed operators", "where": "aerokit/stability/_base.py", "meaning": "current definition of the problem"}],
        "mechanism": [{"name": "lazy computation of the operators", "where": "aerokit/stability/_base.py"}],
        "observe_at": ["get_RHS_time_matrices, solve_eig, converge_eigenpair"],
    },
}
LEVEL = "model_checking"
TECH = "breadth-first search over all lifecycle histories of the real objects, each state compared with a freshly built model (reference model: current base state and boundary conditions)"
NOTE = "Complete over all event sequences up to the depth."
RULE = "every event sequence up to the depth, states deduplicated by deep snapshot; non-trivial = both base state and boundary conditions set"


def run(ck):
    import aerokit.aero.model1D as m1
    import aerokit.stability as stab
    import aerokit.stability.Euler as Eu
    import aerokit.stability.OrrSommerfeld as OS

    n = 6
    z = (1 - np.cos(np.arange(n) * np.pi / (n - 1))) / 2
    STATES = {
        "uniform": lambda: m1.state(1.4 * np.ones(n), 0.6 * np.ones(n), np.ones(n)),
        "varying": lambda: m1.state(1.2 + 0.1 * z, 0.5 - 0.2 * z, 1.0 + 0.3 * z),
        "varying~": lambda: m1.state(1.2 + 0.1 * z, (0.5 - 0.2 * z) * (1 + 1e-7), 1.0 + 0.3 * z),
        "gamma": lambda: m1.state(1.4 * np.ones(n), 0.6 * np.ones(n), np.ones(n), gamma=1.3),
    }
    BC = {
        "sym": lambda: ("sym", "sym"),
        "per": lambda: ("per", "per"),
        "symdict": lambda: ({"type": "sym"}, {"type": "sym"}),
        "RH": lambda: ({"type": "RH", "dM0dx": 0.1}, {"type": "sym"}),
        "RH2": lambda: ({"type": "RH", "dM0dx": -0.3}, "sym"),
        "RH~": lambda: ({"type": "RH", "dM0dx": 0.1 * (1 + 1e-6)}, "sym"),
        "RHmissing": lambda: ({"type": "RH"}, "sym"),
    }
    FRESH = {}

    def fresh(cls, s, b):
        if (cls, s, b) not in FRESH:
            o = make[cls]()
            o.set_basestate(states[cls][s]())
            o.set_BC(*bcs[cls][b]())
            try:
                B, A = o.get_RHS_time_matrices()
            except Exception:
                FRESH[cls, s, b] = None
            else:
                v = np.array(o.solve_eig()[0])
                FRESH[cls, s, b] = (np.array(B), np.array(A), v)
        return FRESH[cls, s, b]

    OST = {
        "plane": lambda: {"alpha": 1.0, "Reynolds": 1000.0, "uprofile": pois},
        "alpha~": lambda: {"alpha": 1.0 + 1e-7, "Reynolds": 1000.0, "uprofile": pois},
        "Re~": lambda: {"alpha": 1.0, "Reynolds": 1000.0 * (1 + 1e-6), "uprofile": pois},
        "alpha": lambda: {"alpha": 0.5, "Reynolds": 1000.0, "uprofile": pois},
        "Re": lambda: {"alpha": 1.0, "Reynolds": 50.0, "uprofile": pois},
        "couette": lambda: {"alpha": 1.0, "Reynolds": 1000.0, "uprofile": coue},
    }
    OBC = {"wall": lambda: ("wall", "wall"), "walldict": lambda: ({"type": "wall"}, {"type": "wall"})}
    make = {"Euler": lambda: Eu.Euler1D(n, 0.0, 1.0), "OS": lambda: OS.OrrSommerfeldModel(n, -1.0, 1.0)}
    states = {"Euler": STATES, "OS": OST}
    bcs = {"Euler": BC, "OS": OBC}

    def explore(cls, depth, ready_with=None):
        def base(s):
            def f(I, S):
                st = states[cls][s]()
                I["given"].append((st, core.snapshot(st)))
                I["op"].set_basestate(st)
                S["s"] = s

            return ("base:" + s, f)

        def again(s):
            # the object given last is modified by the user to another base state, then given again
            def f(I, S):
                if not I["given"] or S["s"] is None or S["s"] == s:
                    raise core.Skip()
                j = max(i for i, g in enumerate(I["given"]) if not isinstance(g[0], tuple))
                st, new = I["given"][j][0], states[cls][s]()
                if isinstance(st, dict):
                    st.update(new)
                else:
                    st.__dict__.update(new.__dict__)
                I["given"][j] = (st, core.snapshot(st))
                I["op"].set_basestate(st)
                S["s"] = s

            return ("again:" + s, f)

        def bc(b):
            def f(I, S):
                t = bcs[cls][b]()
                I["given"].append((t, core.snapshot(t)))
                I["op"].set_BC(*t)
                S["b"] = b

            return ("bc:" + b, f)

        def refused(nm, g):
            def f(I, S):
                try:
                    g(I["op"])
                except Exception:
                    return
                S["accepted"] = nm

            return ("refused:" + nm, f)

        def ready(S):
            return S["s"] is not None and S["b"] is not None and fresh(cls, S["s"], S["b"]) is not None

        def get(I, S):
            try:
                B, A = I["op"].get_RHS_time_matrices()
            except Exception:
                if ready(S):
                    raise
                return
            if not ready(S):
                S["accepted"] = "incomplete"

        def eig(I, S):
            if not ready(S):
                raise core.Skip()
            v, w = I["op"].solve_eig()
            S["sel"] = 1
            I["op"].select_and_sort(-1e9, 1e9, sort="imag")

        def conv(I, S):
            if not ready(S):
                raise core.Skip()
            v = fresh(cls, S["s"], S["b"])[2]
            v = v[np.isfinite(v)]
            I["op"].converge_eigenpair(v[np.argsort(np.abs(v))[0]] * 1.001 + 1e-3, np.ones(fresh(cls, S["s"], S["b"])[0].shape[0]), niter=2)

        def other(I, S):
            k = sorted(states[cls])[-1]
            b = sorted(bcs[cls])[1 if cls == "OS" else 4]
            I["op2"].set_basestate(states[cls][k]())
            I["op2"].set_BC(*bcs[cls][b]())
            I["op2"].get_RHS_time_matrices()

        ev = [base(s) for s in states[cls]] + [again(s) for s in list(states[cls])[:2]] + [bc(b) for b in bcs[cls]] + [("get", get), ("eig", eig), ("converge", conv), ("other-model", other)]
        ev.append(refused("unknown-bc", lambda o: o.set_BC("nothing", "nothing")))
        ev.append(refused("unknown-right-bc", lambda o: o.set_BC(list(bcs[cls])[0].replace("dict", ""), {"type": "nothing"})))
        if cls == "OS":
            ev.append(refused("missing-key", lambda o: o.set_basestate({"alpha": 3.0, "Reynolds": 10.0})))

        def obs(I, S, hist):
            h = "/".join(hist)
            ok = ck.true(cls + ":refuses", "accepted" not in S, history=h, what=S.get("accepted", ""))
            for g, sn in I["given"]:
                ok &= ck.true(cls + ":given-unchanged", core.kept(sn, core.snapshot(g)), history=h)
            # observed on the object itself, twice; the search rebuilds objects by replay
            for rep in (1, 2):
                try:
                    B, A = I["op"].get_RHS_time_matrices()
                except Exception as e:
                    ok &= ck.true(cls + ":available", not ready(S), history=h, rep=rep, error=repr(e)[:80])
                    continue
                if not ready(S):
                    ok &= ck.true(cls + ":incomplete-refused", False, history=h, rep=rep)
                    continue
                F = fresh(cls, S["s"], S["b"])
                same = B.shape == F[0].shape and A.shape == F[1].shape and np.allclose(B, F[0], rtol=1e-11, atol=1e-12 * np.abs(F[0]).max()) and np.allclose(A, F[1], rtol=1e-12, atol=1e-13 * np.abs(F[1]).max())
                ok &= ck.true(cls + ":operators=fresh", bool(same), history=h, rep=rep)
            if ready(S) and (hist[-1:] and hist[-1] in ("eig", "converge", "get")):
                F = fresh(cls, S["s"], S["b"])
                v = np.array(I["op"].solve_eig()[0])
                ok &= ck.true(cls + ":spectrum=fresh", bool(np.allclose(np.sort_complex(v[np.isfinite(v)]), np.sort_complex(F[2][np.isfinite(F[2])]), rtol=1e-7, atol=1e-9)), history=h)
            ok &= ck.true(cls + ":dimension", I["op"].dim == n and len(I["op"].x) == n, history=h)
            return bool(ok)

        def init():
            I, S = {"op": make[cls](), "op2": make[cls](), "given": []}, {"s": None, "b": None}
            if ready_with:  # a model already used
                base(ready_with[0])[1](I, S)
                bc(ready_with[1])[1](I, S)
                eig(I, S) if ready_with[2] == "eig" else get(I, S)
            return I, S

        core.bfs(ck, cls + (":used-" + "-".join(ready_with) if ready_with else ""), init, ev, depth, start=obs)

    def pois(x):
        return 1 - x**2

    def coue(x):
        return x * 1.0

    explore("Euler", ck.pick(3, 4))
    explore("OS", ck.pick(3, 5))
    for b in ("RH", "RH2", "sym", "per"):
        for u in ("get", "eig"):
            explore("Euler", ck.pick(2, 3), ("varying", b, u))
    explore("OS", ck.pick(3, 4), ("plane", "wall", "get"))
    explore("OS", ck.pick(3, 4), ("plane", "walldict", "eig"))
    # base state and conditions given in the constructor are the ones given by the methods
    a = Eu.Euler1D(n, 0.0, 1.0, basestate=STATES["varying"]())
    a.set_BC("sym", "sym")
    ck.true("constructor", np.allclose(a.get_RHS_time_matrices()[0], fresh("Euler", "varying", "sym")[0]))
    b = OS.OrrSommerfeldModel(n, -1.0, 1.0, basestate=OST["couette"]())
    b.set_BC("wall", "wall")
    ck.true("constructor", np.allclose(b.get_RHS_time_matrices()[0], fresh("OS", "couette", "wall")[0]))
    p = OS.Poiseuille(n, 1.0, 1000.0)
    ck.true("constructor", np.allclose(p.get_RHS_time_matrices()[0], fresh("OS", "plane", "wall")[0]))
    ck.true("abstract-refuses", refuses(stab.LinOperator(5).get_RHS_time_matrices))


def refuses(f):
    try:
        f()
    except Exception:
        return True
    return False
