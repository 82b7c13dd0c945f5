import itertools

import numpy as np

from mc import core
from mc.ref import total_p_ratio, total_T_ratio

PROP = {
    "id": "C09",
    "title": "One-dimensional flow state through any sequence of transformations",
    "statement": "Along any sequence of copies, indexings, jumps through a normal shock, isentropic changes of Mach number and re-computations from total quantities, a flow state keeps its gamma and its density, velocity and pressure follow the conservation laws: totals are kept by isentropic changes, mass flux, momentum and total enthalpy by shocks. Its derived quantities (sound speed, acoustic speeds, Mach number, mass flow, total pressure and temperature) always match its density, velocity and pressure. Copies are independent, and an operation producing a new state never alters the old one.",
    "quantifier": {"over": ["histories", "inputs"], "text": "all sequences of transformations up to a depth, scalar and array states, several gammas (uniform or one per cell)"},
    "why_tests_cant": "Tests apply one transformation to one state at gamma 1.4; gamma loss, aliasing or stale values need a sequence.",
    "anchors": {
        "files": ["aerokit/aero/model1D.py", "aerokit/aero/unsteady1D.py"],
        "state": [{"name": "density, velocity, pressure, gamma", "where": "aerokit/aero/model1D.py", "meaning": "the flow state"}],
        "mechanism": [{"name": "state class and its methods", "where": "aerokit/aero/model1D.py"}],
        "observe_at": ["attributes and derived quantities of the state"],
    },
}
LEVEL = "model_checking"
TECH = "explicit-state breadth-first search over operation histories of the real objects against a conservation-law model"
NOTE = "Complete up to the stated depth over the listed events and initial states; each history is replayed on fresh objects of the real class and compared with the model after each step."
RULE = "every history of transformations up to the depth for each initial state"


class M:
    """model state"""

    def __init__(s, rho, u, p, g):
        s.rho, s.u, s.p, s.g = rho, u, p, g

    def mach(s):
        return s.u / np.sqrt(s.g * s.p / s.rho)

    def pt(s):
        return s.p * total_p_ratio(s.mach(), s.g)

    def rtt(s):
        return s.p / s.rho * total_T_ratio(s.mach(), s.g)


def from_totals(pt, rtt, m, g):
    p = pt / total_p_ratio(m, g)
    rt = rtt / total_T_ratio(m, g)
    return M(p / rt, m * np.sqrt(g * rt), p, g)


def shock(s):
    m = s.mach()
    ps = 1 + 2 * s.g / (s.g + 1) * (m * m - 1)
    r = (s.g + 1) * m * m / (2 + (s.g - 1) * m * m)
    return M(s.rho * r, s.u / r, s.p * ps, s.g)


def mach_of_u(rtt, u, g):
    a2 = g * rtt - 0.5 * (g - 1) * u * u
    return u / np.sqrt(a2)


def mach_of_p(x, g):
    return np.sqrt(2 / (g - 1) * np.expm1((g - 1) / g * np.log(x)))


class Impl:
    def __init__(s, q):
        s.q = q
        s.old = []  # earlier objects with the values they must keep

    def keep(s):
        s.old.append((s.q, values(s.q)))


def values(q):
    return tuple(np.array(v, dtype=float, copy=True) for v in (q.rho, q.u, q.p, q._gamma))


def run(ck):
    from aerokit.aero import model1D, unsteady1D
    from aerokit.common import defaultgas as dg

    def events(cls, arr):
        ev = []

        def add(nm, impl, model, new):
            def f(I, S):
                if new:
                    I.keep()
                    I.q = impl(I.q)
                else:
                    impl(I.q)
                r = model(S[0])
                S[0] = r

            ev.append((nm, f))

        add("copy", lambda q: q.copy(), lambda s: s, True)

        def rh(I, S):
            if np.any(np.abs(S[0].mach()) < 0.6):
                raise core.Skip
            I.keep()
            I.q = I.q.state_RH()
            S[0] = shock(S[0])

        ev.append(("state_RH", rh))
        for m in (0.4, 1.0, 2.5):
            mm = lambda q, m=m: m if not arr else np.array([m, m * 1.1, m * 1.3])[: np.size(q.u + 0 * q.p)]
            add("isentropic_Mach(%g)" % m, lambda q, mm=mm: q.state_isentropic_Mach(mm(q)), lambda s, mm=mm: from_totals(s.pt(), s.rtt(), mm(s), s.g), True)
        mn = lambda q: -0.3 if not arr else -np.array([0.3, 0.5, 0.8])[: np.size(q.u + 0 * q.p)]
        add("isentropic_Mach(<0)", lambda q: q.state_isentropic_Mach(mn(q)), lambda s: from_totals(s.pt(), s.rtt(), -0.3 if not arr else -np.array([0.3, 0.5, 0.8])[: np.size(s.u + 0 * s.p)], s.g), True)
        add("pt_rtt_M(<0)", lambda q: q.compute_from_pt_rtt_M(3.0, 1.2, -0.7), lambda s: from_totals(3.0, 1.2, -0.7, s.g), False)
        add("pt_rtt_M", lambda q: q.compute_from_pt_rtt_M(3.0, 1.2, 0.7), lambda s: from_totals(3.0, 1.2, 0.7, s.g), False)
        add("own_pt_rtt_M", lambda q: q.compute_from_pt_rtt_M(q.Ptot(), q.rTtot(), 1.7), lambda s: from_totals(s.pt(), s.rtt(), 1.7, s.g), False)
        add("pt_rtt_u", lambda q: q.compute_from_pt_rtt_u(3.0, 1.2, 0.9), lambda s: from_totals(3.0, 1.2, mach_of_u(1.2, 0.9, s.g), s.g), False)
        add("own_pt_rtt_u", lambda q: q.compute_from_pt_rtt_u(q.Ptot(), q.rTtot(), -0.5), lambda s: from_totals(s.pt(), s.rtt(), mach_of_u(s.rtt(), -0.5, s.g), s.g), False)
        add("pt_rtt_p", lambda q: q.compute_from_pt_rtt_p(3.0, 1.2, 1.5), lambda s: from_totals(3.0, 1.2, mach_of_p(2.0, s.g), s.g), False)
        add("own_pt_rtt_p", lambda q: q.compute_from_pt_rtt_p(q.Ptot(), q.rTtot(), 0.5 * q.Ptot()), lambda s: from_totals(s.pt(), s.rtt(), mach_of_p(2.0, s.g), s.g), False)
        add("scale_p", lambda q: setattr(q, "p", q.p * 1.5), lambda s: M(s.rho, s.u, s.p * 1.5, s.g), False)
        if cls is unsteady1D.unsteady_state:
            def sym(I, S):
                if not hasattr(I.q, "copysymmetric"):  # jumps return the base class
                    raise core.Skip
                I.keep()
                I.q = I.q.copysymmetric()
                S[0] = M(S[0].rho, -S[0].u, S[0].p, S[0].g)

            ev.append(("copysymmetric", sym))
        if arr:
            def idx(I, S):
                if np.ndim(S[0].u) == 0 or np.size(S[0].u) < 3 or any(np.ndim(getattr(I.q, k)) == 0 for k in ("rho", "u", "p")):
                    raise core.Skip
                I.keep()
                I.q = I.q[1:]
                s = S[0]
                S[0] = M(*[v[1:] if np.ndim(v) else v for v in (s.rho + 0 * s.u, s.u + 0 * s.rho, s.p + 0 * s.u, s.g)])

            def inplace(I, S):
                I.keep()
                I.q = I.q.copy()
                for k in ("rho", "u", "p"):
                    if np.ndim(getattr(I.q, k)) == 0:
                        raise core.Skip
                    getattr(I.q, k)[...] *= 1.1
                s = S[0]
                S[0] = M(s.rho * 1.1, s.u * 1.1, s.p * 1.1, s.g)

            def own(I, S):
                # the arrays of the state itself, changed in place
                if any(np.ndim(getattr(I.q, k)) == 0 for k in ("rho", "u", "p")) or any(o.u is I.q.u or np.shares_memory(o.u, I.q.u) or np.shares_memory(o.rho, I.q.rho) or np.shares_memory(o.p, I.q.p) for o, _ in I.old):
                    raise core.Skip
                I.q.Ptot(), I.q.Mach(), I.q.rTtot()
                s = S[0]
                I.q.u *= 0.9
                I.q.p[...] = 1.2 * I.q.p
                I.q.rho += 0.05
                S[0] = M(s.rho + 0.05, s.u * 0.9, s.p * 1.2, s.g)

            ev += [("index", idx), ("copy-then-write", inplace), ("write", own)]
        return ev

    def observer(kind, cls_gamma):
        def obs(I, S, hist):
            q, s = I.q, S[0]
            tol = 1e-9
            h = "/".join(hist)
            g = np.asarray(q._gamma, dtype=float)
            ok = ck.close(kind + ":gamma", g, s.g if np.ndim(s.g) == 0 else s.g, rtol=0, history=h)
            w = {"rho": s.rho, "u": s.u, "p": s.p}
            for k, v in w.items():
                ok &= ck.close(kind + ":" + k, getattr(q, k), v, rtol=tol, atol=1e-12 * np.sqrt(s.g * s.p / s.rho) if k == "u" else 0, history=h)
            a = np.sqrt(s.g * s.p / s.rho)
            cz = {"left_acoustic": a, "right_acoustic": a, "Mach": 1.0, "massflow": s.rho * a}
            for k, got, v in (("asound", q.asound(), a), ("left_acoustic", q.left_acoustic(), s.u - a), ("right_acoustic", q.right_acoustic(), s.u + a), ("Mach", q.Mach(), s.u / a),
                              ("massflow", q.massflow(), s.rho * s.u), ("Ptot", q.Ptot(), s.pt()), ("rTtot", q.rTtot(), s.rtt())):
                ok &= ck.close(kind + ":" + k, got, v, rtol=tol * 30, atol=1e-9 * cz.get(k, 0.0), history=h)
            ok &= ck.true(kind + ":size", q.size == (np.size(q.rho) if isinstance(q.rho, np.ndarray) else 1), history=h)
            for o, v in I.old:
                same = all(np.array_equal(np.asarray(x, dtype=float), y) for x, y in zip((o.rho, o.u, o.p, o._gamma), v))
                ok &= ck.true(kind + ":old-state-unchanged", same and o is not q, history=h)
            return bool(ok)

        return obs

    inits = [("sub", (1.2, 0.8, 1.0)), ("sup", (1.0, 3.0, 1.3)), ("neg", (0.9, -2.5, 0.8)), ("rest", (1.1, 0.0, 1.0))]
    scaled = [("si", (1.2, -200.0, 1e5)), ("si-sup", (0.4, 900.0, 2e4)), ("light", (1e-12, -0.05, 1e-12)), ("dense", (1e9, 60.0, 1e12)), ("hypersonic", (1.0, -60.0, 1.0)), ("creeping", (1.0, 1e-6, 1.0))]
    gam = ck.pick((1.4, 1.25), (1.4, 1.25, 5 / 3, 1.1))
    depth = ck.pick(3, 4)
    for cls in (model1D.state, unsteady1D.unsteady_state):
        for nm, v in inits + scaled:
            for g in gam:
                kind = "%s:%s" % (cls.__name__, nm)
                core.bfs(ck, kind, lambda: (Impl(cls(v[0], v[1], v[2], g)), [M(v[0], v[1], v[2], g)]), events(cls, False), depth if nm in ("sup", "neg") else depth - 1 if len(nm) < 8 or ck.thorough else 1, start=observer(kind, g))
        for gnm, g in (("uniform", 1.3), ("per-cell", np.array([1.2, 1.4, 1.6]))):
            av = (np.array([1.0, 0.8, 1.3]), np.array([0.5, 2.2, -1.9]), np.array([1.0, 1.1, 0.7]))
            kind = "%s:array-%s" % (cls.__name__, gnm)
            core.bfs(ck, kind, lambda: (Impl(cls(*[x.copy() for x in av], gamma=g if np.ndim(g) == 0 else g.copy())), [M(*[x.copy() for x in av], g)]),
                     [e for e in events(cls, True) if not (gnm == "per-cell" and e[0] == "index")], ck.pick(2, 3), start=observer(kind, g))
        # default gamma, one-cell indexing (each cell keeps its own gamma), keyword construction
        q = cls(1.0, 0.5, 1.0)
        ck.true("default-gamma", q._gamma == 1.4, cls=cls.__name__)
        g = np.array([1.2, 1.4, 1.6])
        q = cls(np.array([1.0, 2.0, 3.0]), np.array([0.1, 0.2, 0.3]), np.array([4.0, 5.0, 6.0]), gamma=g)
        for i in (0, 1, 2, -1):
            c = q[i]
            ck.true("index", (c.rho, c.u, c.p, c._gamma) == (q.rho[i], q.u[i], q.p[i], g[i]), cls=cls.__name__, i=i)
        c = cls(np.array([1.0, 2.0]), np.array([0.1, 0.2]), np.array([4.0, 5.0]), gamma=1.25)[1]
        ck.true("index:uniform", (c.rho, c.u, c.p, c._gamma) == (2.0, 0.2, 5.0, 1.25), cls=cls.__name__)
        # every shape x way of giving gamma x kind of index
        for shape in ((1,), (2,), (3,), (5,), (1, 1), (1, 3), (3, 1), (2, 2), (2, 3)):
            k = np.arange(np.prod(shape), dtype=float).reshape(shape)
            v = (1.0 + 0.1 * k, 0.3 - 0.2 * k, 2.0 + 0.5 * k)
            for gn, g in (("scalar", 1.3), ("np-scalar", np.float64(1.3)), ("default", None), ("cells", 1.2 + 0.01 * k)):
                mk = lambda: cls(*[a.copy() for a in v], **({} if g is None else {"gamma": np.array(g) if np.ndim(g) else g}))
                gv = 1.4 if g is None else g
                co = dict(cls=cls.__name__, shape=str(shape), gamma=gn)
                for ix in ([0, -1, shape[0] - 1, np.int64(0), slice(None), slice(0, 1), slice(None, None, -1), [0], np.array([0, -1]), v[1][(slice(None),) + (0,) * (len(shape) - 1)] <= 0.3] + ([(0, 0), (slice(None), 0), v[0] > 1.05] if len(shape) > 1 else [v[0] > 1.05])):
                    q = mk()
                    c = ck.call("index:shapes", lambda: q[ix], ctx=dict(co, index=str(ix)))
                    if isinstance(c, core.Failure):
                        continue
                    ck.true("index:shapes", all(np.array_equal(x, a[ix]) for x, a in zip((c.rho, c.u, c.p), v)) and np.array_equal(np.asarray(c._gamma, dtype=float) + 0 * c.rho, (gv + 0 * v[0])[ix]), index=str(ix), **co)
                    ck.close("index:sound", np.asarray(c.asound()), np.sqrt((gv * v[2] / v[0])[ix]), rtol=1e-13, index=str(ix), **co)
                # copies share nothing with the original, whatever is written in either of them
                for wr in ("rho", "u", "p", "_gamma"):
                    if wr == "_gamma" and np.ndim(g if g is not None else 0) == 0:
                        continue
                    for side in (0, 1):
                        q = mk()
                        ops = [("copy", q.copy())] + ([("copysymmetric", q.copysymmetric())] if hasattr(q, "copysymmetric") else [])
                        for on, c in ops:
                            w = (q, c)[side]
                            o = (q, c)[1 - side]
                            keep = values(o)
                            getattr(w, wr)[...] = 7.0
                            ck.true(on + ":write", all(np.array_equal(x, y) for x, y in zip(values(o), keep)), written=wr, side=side, **co)
                # transformations of every shape, element by element: values, heat ratio and every reading
                vs = (v[0], 3.0 + abs(v[1]), v[2])
                one = v[0] / v[0]
                for on, f, start, w in (
                    ("copy", lambda q: q.copy(), v, lambda s: s),
                    ("copysymmetric", lambda q: q.copysymmetric(), v, lambda s: M(s.rho, -s.u, s.p, s.g)),
                    ("RH", lambda q: q.state_RH(), vs, shock),
                    ("isen", lambda q: q.state_isentropic_Mach(0.6), v, lambda s: from_totals(s.pt(), s.rtt(), 0.6, s.g)),
                    ("isen-cells", lambda q: q.state_isentropic_Mach(0.6 + 0.2 * k), v, lambda s: from_totals(s.pt(), s.rtt(), 0.6 + 0.2 * k, s.g)),
                    ("pt_rtt_M", lambda q: q.compute_from_pt_rtt_M(3.0 + k, 1.2 * one, 0.7 * one), v, lambda s: from_totals(3.0 + k, 1.2, 0.7 * one, s.g)),
                    ("pt_rtt_u", lambda q: q.compute_from_pt_rtt_u(3.0 + k, 1.2 * one, 0.9 * one), v, lambda s: from_totals(3.0 + k, 1.2 * one, mach_of_u(1.2 * one, 0.9, s.g), s.g)),
                    ("pt_rtt_p", lambda q: q.compute_from_pt_rtt_p(3.0 + k, 1.2 * one, 1.5 + 0.5 * k), v, lambda s: from_totals(3.0 + k, 1.2 * one, mach_of_p(2.0 * one, s.g), s.g)),
                ):
                    q = cls(*[x.copy() for x in start], **({} if g is None else {"gamma": np.array(g) if np.ndim(g) else g}))
                    if not hasattr(q, on) and on == "copysymmetric":
                        continue
                    c = ck.call("shapes:" + on, f, q, ctx=co)
                    if isinstance(c, core.Failure):
                        continue
                    c = q if c is None else c
                    e = w(M(*start, gv))
                    for x, got, y in (("rho", c.rho, e.rho), ("u", c.u, e.u), ("p", c.p, e.p), ("gamma", np.asarray(c._gamma, dtype=float) + 0 * v[0], gv + 0 * v[0]), ("asound", c.asound(), np.sqrt(gv * e.p / e.rho)),
                                      ("left", c.left_acoustic(), e.u - np.sqrt(gv * e.p / e.rho)), ("right", c.right_acoustic(), e.u + np.sqrt(gv * e.p / e.rho)), ("Mach", c.Mach(), e.mach()), ("massflow", c.massflow(), e.rho * e.u),
                                      ("Ptot", c.Ptot(), e.pt()), ("rTtot", c.rTtot(), e.rtt())):
                        if ck.true("shapes:%s:form" % on, np.shape(got) == shape, what=x, **co):
                            ck.close("shapes:" + on, np.asarray(got), y, rtol=1e-11, atol=1e-12, what=x, **co)
    # totals and Mach numbers over their whole range, scalar and array
    MM = np.unique(np.concatenate([np.geomspace(1e-4, 30.0, ck.pick(60, 400)), np.arange(1.0, 11.0), 1 + np.geomspace(1e-7, 0.1, 8), 1 - np.geomspace(1e-7, 0.1, 8), np.linspace(0.5, 1.5, 41)]))
    for g in (1.13, 1.27, 1.4, 5.0 / 3.0):
        for pt, rtt in ((3.0, 1.2), (1.7e6, 3.1e5), (1e-3, 0.02)):
            for form in ("array", "scalar"):
                for m in [MM] if form == "array" else [float(x) for x in MM]:
                    e = from_totals(pt, rtt, m, g)
                    mk = lambda: model1D.state(1.0 + 0 * m, 0.5 + 0 * m, 1.0 + 0 * m, g)
                    co = dict(gamma=g, pt=pt, rtt=rtt, form=form, M=m)
                    for on, f in (("pt_rtt_M", lambda q: q.compute_from_pt_rtt_M(pt, rtt, m)), ("pt_rtt_u", lambda q: q.compute_from_pt_rtt_u(pt, rtt, e.u)), ("pt_rtt_p", lambda q: q.compute_from_pt_rtt_p(pt, rtt, e.p))):
                        q = mk()
                        if isinstance(ck.call("range:" + on, f, q, ctx=co), core.Failure):
                            continue
                        tl = 1e-9 if on == "pt_rtt_M" else 1e-8
                        at = 1e-7 * np.sqrt(g * rtt) if on == "pt_rtt_p" else 0.0
                        ck.close("range:" + on, q.p, e.p, rtol=tl * g / (g - 1), what="p", **co)
                        ck.close("range:" + on, q.rho, e.rho, rtol=tl * g / (g - 1), what="rho", **co)
                        ck.close("range:" + on, q.u, e.u, rtol=tl, atol=at, what="u", **co)
                        ck.close("range:" + on, q.Ptot(), pt, rtol=1e-8 * g / (g - 1), what="Ptot", **co)
                        ck.close("range:" + on, q.rTtot(), rtt, rtol=1e-8, what="rTtot", **co)
                    q = model1D.state(e.rho, e.u, e.p, g)
                    for m2 in (0.3, 1.0, 4.0):
                        c = ck.call("range:isentropic", q.state_isentropic_Mach, m2, ctx=co)
                        if not isinstance(c, core.Failure):
                            w = from_totals(pt, rtt, m2, g)
                            ck.close("range:isentropic", c.p, w.p + 0 * m, rtol=1e-9 * g / (g - 1), to=m2, what="p", **co)
                            ck.close("range:isentropic", c.u, w.u + 0 * m, rtol=1e-9, to=m2, what="u", **co)
                            ck.close("range:isentropic", c.rho, w.rho + 0 * m, rtol=1e-9 * g / (g - 1), to=m2, what="rho", **co)
                    if np.all(np.asarray(m) >= 1) or form == "array":
                        i = np.asarray(m) >= 1
                        c = ck.call("range:RH", q.state_RH, ctx=co)
                        if not isinstance(c, core.Failure):
                            w = shock(e)
                            for x in ("rho", "u", "p"):
                                ck.close("range:RH", np.asarray(getattr(c, x))[i], np.asarray(getattr(w, x))[i], rtol=1e-11, what=x, gamma=g, pt=pt, rtt=rtt, form=form, M=np.asarray(m)[i])
    # explicit gamma does not depend on the default gas
    dg.set_gamma(1.3)
    for g in (1.2, 1.4):
        kind = "default-gas-changed"
        core.bfs(ck, kind, lambda: (Impl(model1D.state(1.0, 3.0, 1.3, gamma=g)), [M(1.0, 3.0, 1.3, g)]), events(model1D.state, False), 2, start=observer(kind, g))
    dg.set_gamma(1.4)
