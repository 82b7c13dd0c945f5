import contextlib
import inspect
import io
import itertools
import re

import numpy as np

from mc import core
from mc.table import axis, table

PROP = {
    "id": "C27",
    "title": "Array, scalar and integer arguments give the same values",
    "statement": "Every function of the library gives, for an array of any shape in any of its arguments that accept one, an array of the broadcast shape holding exactly the values of the separate scalar calls, whatever the other elements (also elements without answer), their order, their memory layout or their type (integer, single or double precision, within that precision), and whether arguments are given by position or by name. A single element array or a zero dimensional one gives the scalar value.",
    "quantifier": {"over": ["inputs"], "text": "every public function x every subset of its array arguments x forms (1-D, reversed, 2-D, broadcast, strided, single, zero-dimensional, integer, single precision, with holes, read-only)"},
    "why_tests_cant": "Tests use one array in the first argument of a few functions; mixing of elements shows only for particular shapes or combinations.",
    "anchors": {
        "files": ["aerokit/aero/Isentropic.py", "aerokit/aero/MassFlow.py", "aerokit/aero/Supersonic.py", "aerokit/aero/ShockWave.py", "aerokit/aero/Fanno.py", "aerokit/aero/Rayleigh.py", "aerokit/aero/Propulsion.py", "aerokit/aero/IterativeSolve.py", "aerokit/aero/degree.py"],
        "mechanism": [{"name": "vectorised formulas and solvers", "where": "aerokit/aero"}],
        "observe_at": ["return values"],
    },
}
LEVEL = "exploration"
TECH = "bounded exhaustive enumeration of functions x argument subsets x array forms on the real code, compared with scalar executions"
NOTE = "Complete over the table; arguments documented or observed as scalar only (closed-form shock angles, total pressure inverse, heat ratio of some iterative solvers) are left out."
RULE = "every function x subset x form x element; non-trivial = at least one array argument with more than one element"

# array arguments not supported: subsets are left out when the predicate holds
SCALAR_ONLY = {
    "WeightMassFlow": lambda s: "r" in s,  # no influence
    "maxTiratio_Mach": lambda s: "gamma" in s,  # known finding of C08
    "Mn_Pt_ratio": lambda s: True,
    "weaksigma_Mach_deflection": lambda s: True,
    "strongsigma_Mach_deflection": lambda s: True,
    "sigma_Mach_deflection": lambda s: s != {"deflection"},
    "Mach_ThrustFunction": lambda s: "gamma" in s,
}


# arguments (first array) without answer
HOLES = {
    "MachSub_Sigma": (0.5,),
    "MachSup_Sigma": (0.5,),
    "Mach_PrandtlMeyer": (200.0,),
    "PrandtlMeyer_Mach": (0.5,),
    "sigma_Mach_deflection": (60.0,),
    "SubMach_TiTicri": (1.5,),
    "SupMach_TiTicri": (1.5,),
}

# the number of steps depends on rounding
STEPS = ("RK4", "RKF45")

LENGTHS = (16, 17, 33, 64, 65, 100, 128, 257, 512, 1025, 2048, 4099, 6001, 20011)


def named(f, names):
    """f called with these names, or in this order if its parameters are named otherwise"""
    try:
        par = inspect.signature(getattr(f, "pyfunc", f)).parameters
    except (TypeError, ValueError):
        return f
    if any(p.kind == p.VAR_KEYWORD for p in par.values()) and not any(p.kind == p.VAR_POSITIONAL for p in par.values()):
        return f
    byname = [n for n, p in par.items() if p.kind in (p.POSITIONAL_OR_KEYWORD, p.KEYWORD_ONLY)]
    if all(n in byname for n in names):
        return f

    def g(*a, **kw):
        return f(*a, *[kw[n] for n in names if n in kw])

    g.__name__ = getattr(f, "__name__", "f")
    return g


def flat(o):
    """numbers of a result, in order (arrays, tuples, mappings, states)"""
    if isinstance(o, dict):
        return [x for k in sorted(o) for x in flat(o[k])]
    if isinstance(o, (list, tuple)):
        return [x for v in o for x in flat(v)]
    if hasattr(o, "rho") and hasattr(o, "p"):
        return flat((o.rho, o.u, o.p))
    if isinstance(o, (int, float, complex, np.generic, np.ndarray)):
        return [complex(x) for x in np.ravel(o)]
    return []


def positions():
    """(name, callable, arguments in the documented order, how the result is read): objects and functions that are
    not in the table; every argument is distinct and away from its default"""
    import aerokit.aero.IterativeSolve as its
    import aerokit.aero.Isentropic as Is
    import aerokit.aero.MassFlow as mf
    import aerokit.aero.Propulsion as pr
    import aerokit.aero.ShockWave as sw
    import aerokit.aero.Supersonic as sup
    import aerokit.aero.model1D as m1
    import aerokit.aero.unsteady1D as us
    import aerokit.common._ode as ode
    import aerokit.engine.Cycle_Turbofan as ct
    import aerokit.engine.gasgenerator as gg
    import aerokit.engine.propu_be as pb
    import aerokit.engine.propu_be_double_corps as pd
    import aerokit.engine.turbofan as tf
    import aerokit.engine.turbojet as tj
    import aerokit.instance.nozzle as nz
    import aerokit.instance.riemann as rm
    import aerokit.stability as stab
    import aerokit.stability.Euler as eu
    from aerokit.common.numspectral import ChebCollocation
    import aerokit.instance.unsteady_inflow as inf

    def attrs(*names):
        def get(o):
            v = [getattr(o, n) for n in names]
            return [x() if callable(x) else x for x in v]

        return get

    same = lambda o: o
    st = lambda **k: us.unsteady_state(**k)
    one = lambda: m1.state(1.3, 0.4, 0.9, 1.27)
    x = np.linspace(0.0, 1.0, 21)
    A = 1.0 + (x - 0.4) ** 2
    prim = attrs("rho", "u", "p", "asound", "Mach")

    def method(make, name):
        def f(*a, **k):
            o = make()
            r = getattr(o, name)(*a, **k)
            return o if r is None else r

        f.__name__ = name
        return f

    yield "model1D.state", m1.state, dict(rho=1.3, u=0.4, p=0.9, gamma=1.27), prim
    yield "unsteady_state", us.unsteady_state, dict(rho=1.3, u=0.4, p=0.9, gamma=1.27), prim
    yield "compute_from_pt_rtt_M", method(one, "compute_from_pt_rtt_M"), dict(pt=2.3, rtt=1.7, M=0.6), prim
    yield "compute_from_pt_rtt_u", method(one, "compute_from_pt_rtt_u"), dict(pt=2.3, rtt=1.7, u=0.6), prim
    yield "compute_from_pt_rtt_p", method(one, "compute_from_pt_rtt_p"), dict(pt=2.3, rtt=1.7, p=1.9), prim
    L, R = st(rho=1.0, u=0.3, p=1.4, gamma=1.3), st(rho=0.4, u=-0.2, p=0.6, gamma=1.3)
    yield "riemann_pb", rm.riemann_pb, dict(qL=L, qR=R), lambda o: [o.ustar(), o.pstar(), o.qsol(np.linspace(-2, 2, 9))]
    yield "solve_with_pt0_rtt0", method(lambda: inf.inflow_pb(st(rho=1.0, u=0.1, p=1.0, gamma=1.4)), "solve_with_pt0_rtt0"), dict(pt0=2.5, rtt0=1.2), lambda o: [o.ustar(), o.pstar()]
    noz = attrs("Mach", "Ps", "Ptot")
    yield "nozzle", nz.nozzle, dict(x=x, section=A, AsoAc=1.7, gamma=1.3, NPR=2.1, ref_rttot=3.0, scale_ps=0.7), lambda o: noz(o) + [o.NPR0, o.NPR1, o.NPRsw] if hasattr(o, "NPRsw") else noz(o)
    yield "Ms_from_AsAc_NPR", nz.Ms_from_AsAc_NPR, dict(AsAc=2.5, NPR=3.0), same
    yield "Madapt_from_AsAc_NPR", nz.Madapt_from_AsAc_NPR, dict(AsAc=2.5, NPR=1.05), same
    yield "ChebCollocation", ChebCollocation, dict(npts=9, xmin=0.5, xmax=2.0), lambda o: [o.x, o.matder(1)]
    cheb = lambda: ChebCollocation(9, 0.5, 2.0)
    xs = np.linspace(0.6, 1.9, 9)
    yield "extrapol", method(cheb, "extrapol"), dict(fk=np.exp(cheb().x), x=xs), same
    yield "fit_to_gauss", method(cheb, "fit_to_gauss"), dict(x=xs, f=np.exp(xs)), same
    def eul(*a, **k):
        o = eu.Euler1D(*a, **k)
        o.set_BC("sym", "sym")
        o.compute_operators()
        return o

    nb = 8
    yield "Euler1D", eul, dict(n=nb, xmin=0.5, xmax=2.0, basestate=m1.state(np.linspace(1, 2, nb), np.linspace(0.1, 0.2, nb), np.ones(nb))), lambda o: [o.x, o._B]
    os_ = lambda *a, **k: stab.OrrSommerfeldModel(*a, **k)
    prof = lambda y: 1 - y**2
    bs = {"alpha": 1.0, "Reynolds": 900.0, "uprofile": prof}

    def orr(*a, **k):
        o = os_(*a, **k)
        o.set_BC("wall", "wall")
        o.compute_operators()
        return o

    if hasattr(stab, "OrrSommerfeldModel"):
        yield "OrrSommerfeldModel", orr, dict(n=12, xmin=-1.0, xmax=1.5, basestate=bs), lambda o: [o.x, o._B]
    import aerokit.stability.OrrSommerfeld as osm

    def poi(*a, **k):
        o = osm.Poiseuille(*a, **k)
        v, _ = o.solve_eig()
        return np.sort_complex(v[np.isfinite(v) & (np.abs(v) < 10)])

    yield "Poiseuille", poi, dict(n=24, alpha=1.1, Reynolds=700.0), same

    def eig():
        o = osm.Poiseuille(24, 1.1, 700.0)
        o.solve_eig()
        return o

    yield "select_and_sort", method(eig, "select_and_sort"), dict(realmin=0.05, realmax=0.9, imagmin=-0.8, imagmax=0.1, sort="imag"), lambda o: [o[0], o[2]]

    def bcs(*a, **k):
        o = eu.Euler1D(8, 0.5, 2.0, basestate=m1.state(np.linspace(1, 2, 8), np.linspace(2.6, 2.2, 8) * 0.3, np.ones(8)))
        o.set_BC(*a, **k)
        o.compute_operators()
        return o._B

    yield "set_BC", bcs, dict(Ltype={"type": "RH", "dM0dx": 0.3}, Rtype="sym"), same
    F = lambda x, y: np.array([y[1], -0.3 * y[0] + x])
    y0 = np.array([1.0, 0.2])
    yield "RK4", ode.RK4, dict(F=F, x=0.1, y=y0, xStop=1.0, h=0.07), same
    yield "RKF45", ode.RKF45, dict(F=F, x=0.1, y=y0, xStop=1.0, h=0.07, tol=1e-4), same
    yield "secant_solve", its.secant_solve, dict(f=lambda v: v**3, y=5.0, x=1.2, tol=1e-3), same
    yield "conical_deflection_Mach_sigma", sw.conical_deflection_Mach_sigma, dict(Mach=2.5, sigma=35.0, gamma=1.3, tol=1e-4), same
    yield "conical_Mach_walldeflection_sigma", sw.conical_Mach_walldeflection_sigma, dict(deflection=10.0, sigma=35.0, gamma=1.3), same
    yield "sigma_Mach_deflection", sw.sigma_Mach_deflection, dict(Mach=2.5, deflection=10.0, init=40.0, gamma=1.3), same
    yield "weaksigma_Mach_deflection", sw.weaksigma_Mach_deflection, dict(Mach=2.5, deflection=10.0, gamma=1.3), same
    yield "strongsigma_Mach_deflection", sw.strongsigma_Mach_deflection, dict(Mach=2.5, deflection=10.0, gamma=1.3), same
    yield "WeightMassFlow", mf.WeightMassFlow, dict(Mach=0.6, r=518.0, gamma=1.3), same
    yield "Velocity_MachTt", Is.Velocity_MachTt, dict(Mach=0.6, Tt=700.0, r=518.0, gamma=1.3), same
    yield "Mach_Sigma", mf.Mach_Sigma, dict(sigma=1.6, Mach=0.4, gamma=1.3), same
    yield "Mach_ThrustFunction", pr.Mach_ThrustFunction, dict(thrust=1.32, Mach=1.7, gamma=1.3), same
    yield "old_Mach_PrandtlMeyer", sup.old_Mach_PrandtlMeyer, dict(omega=20.0, gamma=1.3), same
    heat = dict(gam_cold=1.39, gam_hot=1.31, r_cold=288.0, r_hot=291.0, xi_inlet=0.97)
    rest = dict(eta_cc=0.98, Pci=41e6, etapolCHP=0.91, etapolTHP=0.89)

    def engine(cls):
        def f(*a, **k):
            o = cls(*a, **k)
            o.flight_conditions(250.0, 30000.0, 0.8)
            o.update()
            return {k: v for k, v in vars(o).items() if isinstance(v, (float, int, np.generic))}

        return f

    yield "gasgenerator", engine(gg.base), dict(OPR=22.0, Tt4=1510.0, **heat, xi_cc=0.95, **rest, eta_shaft=0.985), same
    yield "turbojet_opt", engine(tj.turbojet_opt), dict(OPR=22.0, Tt4=1510.0, **heat, xi_nozzle=0.96, xi_cc=0.95, **rest, eta_shaft=0.985), same
    yield "turbofan_adapt", engine(tf.turbofan_adapt), dict(OPR=22.0, Tt4=1510.0, bpr=5.0, fanpower_ratio=0.7, **heat, xi_nozzle=0.96, xi_cc=0.95, **rest, etapolTBP=0.9, etapolfan=0.88, eta_shaft=0.985), same
    tjo = lambda: tj.turbojet_opt(22.0, 1510.0)

    def flight(*a, **k):
        o = tjo()
        o.flight_conditions(*a, **k)
        o.update()
        return [o.T0, o.P0, o.M0, o.spec_thrust()]

    yield "flight_conditions", flight, dict(T0=250.0, P0=30000.0, M0=0.8), same
    yield "Gaz", ct.Gaz, dict(gamma=1.33, r=291.0, P_k=42.8e6), lambda o: [o.gamma, o.r, o.P_k]
    air, fuel = ct.Gaz(1.4, 287.0), ct.Gaz(1.33, 291.6, 42.8e6)

    def cyc(cls):
        def f(*a, **k):
            o = cls(*a, **k)
            with core.quiet():
                o.calculs_1_to_4()
                o.calculs_5_to_9()
            return {k: v for k, v in vars(o).items() if isinstance(v, (float, int, np.generic))}

        return f

    base = dict(lambda_=5.0, pi_c=30.0, Tt4=1410.0, m=170.0, g=air, g_fuel=fuel)
    yield "cycle_taux_fan_fixe", cyc(ct.cycle_taux_fan_fixe), dict(**base, pi_f=1.5), same
    yield "cycle_taux_fan_calcule", cyc(ct.cycle_taux_fan_calcule), dict(**base, taux_meca=0.45), same
    def printed(f):
        def g(*a, **k):
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                r = f(*a, **k)
            return flat(r) + [float(t) for t in re.findall(r"[-+]?\d+\.?\d*(?:[eE][-+]?\d+)?", out.getvalue())]

        return g

    yield "propu_be.calculs", printed(pb.calculs), dict(lambda_=5.0, pi_c=30.0, Tt4=1410.0, pi_f=1.5, m=170.0), same
    yield "double_corps.calculs", printed(pd.calculs), dict(lambda_=5.0, pi_c=30.0, Tt4=1410.0, m=170.0, taux_meca=0.45), same
    yield "double_corps.calculs_tau_optimum", printed(pd.calculs_tau_optimum), dict(lambda_=5.0, pi_c=30.0, Tt4=1410.0, m=170.0), same
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    import aerokit.aero.plot.isentropicpolar as ip
    import aerokit.aero.plot.shockpolar as sp

    def drawn(f):
        def g(*a, **k):
            plt.close("all")
            plt.figure()
            f(*a, **k)
            r = [(*flat(np.asarray(l.get_xdata(), float)), *flat(np.asarray(l.get_ydata(), float)), float(l.get_color() == "g"), float(l.get_linestyle() == "--")) for l in plt.gca().lines]
            plt.close("all")
            return r

        return g

    tail = dict(color="g", linestyle="--")
    yield "plot_theta_sigma", drawn(sp.plot_theta_sigma), dict(mach=2.4, gamma=1.3, npts=7, curve="left", devmax=True, sonic=False, **tail), same
    pol = dict(npts=7, thet_init=3.0, p_init=1.6)
    yield "shock.plot_theta_pressure", drawn(sp.plot_theta_pressure), dict(mach=2.4, gamma=1.3, **pol, curve="left", devmax=True, sonic=False, **tail), same
    yield "isentropic.plot_theta_pressure", drawn(ip.plot_theta_pressure), dict(mach=2.4, dev_range=np.array([-5.0, 5.0]), gamma=1.3, **pol, curve="C-", devmax=False, sonic=True, **tail), same


def by_position(ck):
    """every prefix of the documented order given by position and the rest by name"""
    n = 0
    for name, f, args, read in positions():
        names = list(args)
        with np.errstate(all="ignore"):
            w = ck.call("named:" + name, lambda: flat(read(f(**args))))
            if isinstance(w, core.Failure) or not ck.true("named:" + name, len(w) > 0):
                continue
            n += 1
            ck.true("finite:" + name, bool(np.all(np.isfinite(np.array(w)[:4]))))
            for k in range(1, len(names) + 1):
                a = [args[m] for m in names[:k]]
                r = ck.call("position:" + name, lambda: flat(read(f(*a, **{m: args[m] for m in names[k:]}))), ctx=dict(positional=k))
                if not isinstance(r, core.Failure):
                    ck.true("position:" + name, len(r) == len(w) and bool(np.allclose(r, w, rtol=1e-12, atol=1e-13, equal_nan=True)), positional=k)
            # single precision arguments: the same within that precision
            down = lambda v: np.float32(v) if isinstance(v, float) else v.astype(np.float32) if isinstance(v, np.ndarray) and v.dtype.kind == "f" else v
            r = ck.call("single:" + name, lambda: flat(read(f(**{k: down(v) for k, v in args.items()}))))
            if not isinstance(r, core.Failure) and name not in STEPS and ck.true("single:" + name, len(r) == len(w)):
                e = np.abs(np.array(r) - np.array(w)) / (np.abs(w) + 1e-2 * np.max(np.abs(w)))
                ck.true("single:" + name, bool(np.nanmax(e) < 5e-3) and bool(np.array_equal(np.isnan(r), np.isnan(w))), error=float(np.nanmax(e)))
    ck.notes["positional"] = n


def run(ck):
    by_position(ck)
    vals = {}

    def scalar(name, f, kw, finite=True):
        key = (name, tuple(sorted(kw.items())))
        if key not in vals:
            r = ck.call("scalar:" + name, f, **kw)
            if not isinstance(r, core.Failure):
                ck.true("scalar:size", np.size(r) == 1, function=name, args=str(kw))
                r = float(np.asarray(r).ravel()[0]) if np.size(r) else np.nan
                if finite:
                    ck.true("scalar:finite", np.isfinite(r), function=name, args=str(kw))
            vals[key] = r
        return vals[key]

    def single(name, f, sub, A, mid):
        """single precision: the same values within that precision"""
        co = dict(function=name, arrays="+".join(sub))
        w = [scalar(name, f, {**mid, **{k: float(np.float32(v[i])) for k, v in A.items()}}) for i in range(3)]
        if any(isinstance(t, core.Failure) for t in w):
            return
        got = ck.call("array:float32", f, ctx=co, **{**mid, **{k: v.astype(np.float32) for k, v in A.items()}})
        if not isinstance(got, core.Failure) and ck.true("shape:float32", np.shape(got) == (3,), **co):
            for i in range(3):
                ck.close("array:float32", float(got[i]), w[i], rtol=2e-4, atol=1e-5, index=i, **co)
        for i in range(3):
            got = ck.call("scalar:float32", f, ctx=co, **{**mid, **{k: np.float32(v[i]) for k, v in A.items()}})
            if not isinstance(got, core.Failure) and ck.true("size:float32", np.size(got) == 1, **co):
                ck.close("scalar:float32", float(np.ravel(got)[0]), w[i], rtol=2e-4, atol=1e-5, index=i, **co)

    def holes(name, f, sub, A, mid, hole, i, rt, at):
        """an element without answer leaves the other elements as they are"""
        co = dict(function=name, arrays="+".join(sub), hole=repr(hole), position=i)
        w = [scalar(name, f, {**mid, **{k: float(v[j]) for k, v in A.items()}}) for j in range(3)]
        if any(isinstance(t, core.Failure) for t in w):
            return
        args = {k: v.astype(float) for k, v in A.items()}
        args[sub[0]][i] = hole
        got = ck.call("array:hole", f, ctx=co, **{**mid, **args})
        if not isinstance(got, core.Failure) and ck.true("shape:hole", np.shape(got) == (3,), **co):
            for j in range(3):
                if j != i:
                    ck.close("array:hole", float(got[j]), w[j], rtol=rt, atol=at, index=j, **co)
                elif np.isnan(hole) and not (short == "Mach_Sigma" and sub[0] == "Mach"):
                    ck.true("hole-kept", not np.isfinite(got[j]), got=repr(got[j]), **co)

    def reused(name, f, sub, A, mid, rt, at):
        """the same array objects, given again after their content changed, and results written over"""
        for order in (sub, sub[::-1]) if len(sub) > 1 else (sub,):
            buf = {k: np.array(v, dtype=float) for k, v in A.items()}
            co = dict(function=name, arrays="+".join(order))
            first = ck.call("reused", f, **{**mid, **buf}, ctx=co)
            if isinstance(first, core.Failure):
                return
            past = [(first, np.array(first, copy=True))]
            for step, (k, perm) in enumerate([(k, [1, 2, 0]) for k in order] + [(None, [2, 1, 0]), (None, [0, 2, 1])]):
                for q in buf if k is None else (k,):
                    buf[q][...] = buf[q][perm]
                got = ck.call("reused", f, **{**mid, **buf}, ctx=co)
                want = ck.call("reused", f, **{**mid, **{q: np.array(v) for q, v in buf.items()}}, ctx=co)
                if isinstance(got, core.Failure) or isinstance(want, core.Failure):
                    return
                cold = [scalar(name, f, {**mid, **{q: float(v[i]) for q, v in buf.items()}}) for i in range(3)]
                ck.close("reused:same-arrays", got, want, rtol=1e-14, step=step, **co)
                if not any(isinstance(c, core.Failure) for c in cold):
                    ck.close("reused:cells", got, np.array(cold), rtol=rt, atol=at, step=step, **co)
                for r, w in past:
                    ck.true("reused:former-result", np.array_equal(r, w, equal_nan=True), step=step, **co)
                if isinstance(got, np.ndarray) and got.flags.writeable:
                    got[...] = -7.0
                    again = ck.call("reused", f, **{**mid, **buf}, ctx=co)
                    ck.close("reused:result-overwritten", again, want, rtol=1e-14, step=step, **co)
                    past.append((again, np.array(again, copy=True)))

    TAB = table()
    ck.notes["functions"] = len(TAB)
    for name, f, args, kind in TAB:
        short = name.split(".")[1]
        names = list(args)
        f = named(f, names)
        rt = 1e-12 if kind == "closed" else 1e-7
        at = 1e-13
        excl = SCALAR_ONLY.get(short, lambda s: False)

        def compare(form, sub, kw, rtol=rt, how=None):
            """kw holds arrays for sub, scalars elsewhere"""
            shape = np.broadcast_shapes(*[np.shape(v) for v in kw.values()])
            co = dict(function=name, arrays="+".join(sub), form=form)
            keep = {k: np.array(v, copy=True) for k, v in kw.items() if isinstance(v, np.ndarray)}
            r = ck.call("array:" + form, how or f, ctx=co, **kw)
            if isinstance(r, core.Failure):
                return
            for k, v in keep.items():
                ck.true("argument-kept", np.array_equal(kw[k], v), **co)
            if shape == () or np.prod(shape) == 1:
                if not ck.true("shape:" + form, np.size(r) == 1, got=str(np.shape(r)), **co):
                    return
                r = np.reshape(r, shape)
            elif not ck.true("shape:" + form, np.shape(r) == shape, got=str(np.shape(r)), want=str(shape), **co):
                return
            B = {k: np.broadcast_to(v, shape) for k, v in kw.items()} if shape != () else {k: np.asarray(v).ravel()[0] for k, v in kw.items()}
            r = np.asarray(r)
            for idx in np.ndindex(*shape):
                one = {k: float(v[idx]) if shape != () else float(v) for k, v in B.items()}
                w = scalar(name, f, one)
                if not isinstance(w, core.Failure):
                    ck.close("array:" + form, float(r[idx]), w, rtol=rtol, atol=at, nontrivial=r.size > 1, index=str(idx), **co)

        mid = {k: v[1] for k, v in args.items()}
        # types of a scalar, position and name
        for i in range(3):
            one = {k: v[i] for k, v in args.items()}
            w = scalar(name, f, one)
            if isinstance(w, core.Failure):
                continue
            r = w if short == "sigma_Mach_deflection" else ck.call("by-position", f, *one.values(), ctx=dict(function=name))
            ck.close("by-position", r if isinstance(r, core.Failure) else float(np.ravel(r)[0]), w, rtol=1e-12, function=name)
            r = ck.call("numpy-scalar", f, **{k: np.float64(v) for k, v in one.items()}, ctx=dict(function=name))
            ck.close("numpy-scalar", r if isinstance(r, core.Failure) else float(np.ravel(r)[0]), w, rtol=1e-12, function=name)
        # integers
        for k, v in args.items():
            ints = sorted({int(round(t)) for t in v} - {0})
            if k in ("gamma", "Pratio", "Tiratio", "ptratio") or "acos" in name or "asin" in name:
                continue
            for n in ints:
                if k in ("Mach", "Mn") and n == 1:
                    continue
                a = dict(mid)
                a[k] = float(n)
                w = scalar(name, f, a)
                if isinstance(w, core.Failure) or not np.isfinite(w):
                    continue
                r = ck.call("integer", f, **{**a, k: n}, ctx=dict(function=name))
                ck.close("integer", r if isinstance(r, core.Failure) else float(np.ravel(r)[0]), w, rtol=1e-12 if kind == "closed" else 1e-9, function=name, argument=k, value=n)
                if not excl({k}) and kind == "closed":
                    compare("integer-array", (k,), {**a, k: np.array([n, n + 1, n])} if k not in ("Mach", "Mn", "deflection") else {**a, k: np.array([n, n])})
        # single precision along every axis, scalar by scalar
        for k, v in args.items():
            if (k == "gamma" and short == "maxTiratio_Mach") or (k == "Mach" and short == "sigma_Mach_deflection"):
                continue
            for t in axis(v, ck.pick(129, 1025), k, short):
                one = {**{q: np.float32(z) for q, z in mid.items()}, k: np.float32(t)}
                w = scalar(name, f, {q: float(z) for q, z in one.items()}, False)
                if isinstance(w, core.Failure) or not np.isfinite(w):
                    continue
                for part in ({k}, set(one)):
                    r = ck.call("float32", f, ctx=dict(function=name), **{q: z if q in part else float(z) for q, z in one.items()})
                    ck.close("float32", r if isinstance(r, core.Failure) else float(np.ravel(r)[0]), w, rtol=2e-2, atol=2e-3, function=name, argument=k)
        # dense axis: sorted neighbours, whole range, against separate calls
        for k, v in args.items():
            if excl({k}):
                continue
            with core.quiet(), np.errstate(all="ignore"):
                w = ck._each(name, f, 1e-11 if kind == "closed" else 1e-6, 1e-12 if kind == "closed" else 1e-6, [400], False)
                r = ck.call("dense", w, ctx=dict(function=name, argument=k), **{**mid, k: axis(v, ck.pick(65, 401), k, short)})
                if not isinstance(r, core.Failure):
                    ck.true("dense", np.shape(r) == (ck.pick(65, 401),), function=name, argument=k)
        for r in range(1, len(names) + 1):
            for sub in itertools.combinations(names, r):
                if excl(set(sub)):
                    continue
                A = {k: np.array(args[k]) for k in sub}
                for perm, form in (((0, 1, 2), "1-D"), ((2, 1, 0), "reversed"), ((1, 1, 0), "repeated")):
                    compare(form, sub, {**mid, **{k: v[list(perm)] for k, v in A.items()}})
                compare("view", sub, {**mid, **{k: v[::-1] for k, v in A.items()}})
                compare("strided", sub, {**mid, **{k: np.repeat(v, 2)[::2] for k, v in A.items()}})
                compare("2-D", sub, {**mid, **{k: np.stack([v, v[::-1]]) for k, v in A.items()}})
                compare("fortran", sub, {**mid, **{k: np.asfortranarray(np.stack([v, v[::-1]])) for k, v in A.items()}})
                compare("single", sub, {**mid, **{k: v[2:] for k, v in A.items()}})
                compare("zero-d", sub, {**mid, **{k: np.array(v[0]) for k, v in A.items()}})
                ro = {k: v.copy() for k, v in A.items()}
                for v in ro.values():
                    v.setflags(write=False)
                compare("read-only", sub, {**mid, **ro})
                if len(sub) >= 2:
                    for a, b in itertools.permutations(sub, 2):
                        rest = {k: args[k][0] for k in sub if k not in (a, b)}
                        compare("outer", (a, b), {**mid, **rest, a: A[a][:, None], b: A[b]}) if not excl({a, b}) else None
                        compare("outer-3D", (a, b), {**mid, **rest, a: A[a][:, None, None], b: A[b][None, :2, None]}) if not excl({a, b}) else None
                compare("uniform", sub, {**mid, **{k: v[[1, 1, 1, 1]] for k, v in A.items()}})
                single(name, f, sub, A, mid)
                reused(name, f, sub, A, mid, rt, at)
                for hole in (np.nan, *HOLES.get(short, ())):
                    for i in range(3):
                        holes(name, f, sub, A, mid, hole, i, rt, at)
                if len(sub) == 1 and kind == "closed":
                    long = np.resize(A[sub[0]], 1001)
                    compare("long", sub, {**mid, sub[0]: long})
                # very long arrays: each of the three values at every position modulo 3
                w = [scalar(name, f, {**mid, **{k: float(v[i]) for k, v in A.items()}}) for i in range(3)]
                if any(isinstance(t, core.Failure) for t in w):
                    continue
                for n in LENGTHS if len(sub) == 1 else LENGTHS[-1:]:
                    co = dict(function=name, arrays="+".join(sub), size=n)
                    got = ck.call("array:very-long", f, ctx=co, **{**mid, **{k: np.resize(v, n) for k, v in A.items()}})
                    if not isinstance(got, core.Failure) and ck.true("shape:very-long", np.shape(got) == (n,), **co):
                        bad = ~(np.abs(got - np.resize(w, n)) <= at + rt * np.abs(np.resize(w, n)))
                        ck.true("array:very-long", not bad.any(), position=int(np.argmax(bad)), **co)
                        ck.evaluations += n
