import itertools

import numpy as np

from mc import core
from mc.ref import area_ratio, prandtl_meyer, total_p_ratio, total_T_ratio

PROP = {
    "id": "C28",
    "title": "Legacy names and modules give the current results",
    "statement": "Every function and class of the legacy modules and every legacy name gives, for any arguments given by position or by name and with its default gas, the result of the function or class that replaces it. Objects of legacy and current modules can be used together.",
    "quantifier": {"over": ["inputs"], "text": "every legacy function, class and name x lattice of arguments x omitted and given heat ratio and gas constant, positional and by name"},
    "why_tests_cant": "Tests compare five names at one value and only check that two legacy classes build.",
    "anchors": {
        "files": ["aerokit/aero/CompressibleFlow.py", "aerokit/aero/riemann.py", "aerokit/aero/nozzle.py", "aerokit/aero/Isentropic.py", "aerokit/aero/ShockWave.py"],
        "mechanism": [{"name": "delegation", "where": "aerokit/aero"}],
        "observe_at": ["return values", "attributes of objects"],
    },
}
LEVEL = "exploration"
TECH = "bounded exhaustive enumeration of legacy calls on the real code against the current functions and independent relations"
NOTE = "Complete over the lattice."
RULE = "every legacy name x arguments x call form; non-trivial = heat ratio different from the default"


def raises(f, a):
    try:
        f(*a)
    except Exception:
        return True
    return False


def run(ck):
    import aerokit.aero.CompressibleFlow as cf
    import aerokit.aero.Isentropic as Is
    import aerokit.aero.MassFlow as mf
    import aerokit.aero.ShockWave as sw
    import aerokit.aero.Supersonic as sup
    import aerokit.aero.nozzle as onz
    import aerokit.aero.riemann as orm
    import aerokit.instance.nozzle as nz
    import aerokit.instance.riemann as rm
    from aerokit.aero.unsteady1D import unsteady_state as US

    n = ck.pick(9, 31)
    GS = (None, 1.1, 1.27, 1.3, 1.4, 5.0 / 3.0)
    sub = np.concatenate([np.linspace(0.05, 0.98, n), [1e-6, 3.7e-3, 0.137, 0.9913, 0.9999]])
    sp = np.concatenate([np.linspace(1.02, 6.0, n), [1.0001, 1.0087, 1.37, 2.713]])
    anyM = np.concatenate([sub, [1.0], sp])
    TT = lambda M, g: total_T_ratio(M, g)
    PP = lambda M, g: total_p_ratio(M, g)

    # (legacy name, current function, argument columns, independent value, order of arguments before gamma)
    def cases(g):
        gg = 1.4 if g is None else g
        for M in anyM:
            M = float(M)
            yield "TtTs_Mach", Is.TtTs_Mach, dict(Mach=M), TT(M, gg), 1e-12
            yield "PtPs_Mach", Is.PtPs_Mach, dict(Mach=M), PP(M, gg), 1e-11
            yield "Mach_TtTs", Is.Mach_TtTs, dict(TtTs=float(TT(M, gg))), M, 1e-9
            yield "Mach_PtPs", Is.Mach_PtPs, dict(PtPs=float(PP(M, gg))), M, 1e-9
            for T, r in ((300.0, None), (800.0, 518.0)):
                yield "Velocity_MachTi", Is.Velocity_MachTt, dict(Mach=M, Ti=T, **({} if r is None else {"r": r})), M * np.sqrt(gg * (r or 287.1) * T / TT(M, gg)), 1e-11
            yield "Sigma_Mach", mf.Sigma_Mach, dict(Mach=M), area_ratio(M, gg), 1e-10
            for r in (None, 518.0):
                yield "WeightMassFlow", mf.WeightMassFlow, dict(Mach=M, **({} if r is None else {"r": r})), np.sqrt(gg) * M * np.sqrt(TT(M, gg)) / PP(M, gg), 1e-10
        for M in sp:
            M = float(M)
            nu = float(prandtl_meyer(M, gg))
            yield "PrandtlMeyer_Mach", sup.PrandtlMeyer_Mach, dict(Mach=M), nu, 1e-9
            if M < 4 and gg >= 1.3:
                yield "Mach_PrandtlMeyer", sup.Mach_PrandtlMeyer, dict(omega=nu), M, 1e-6
                for d in (-5.0, 0.5 * nu):
                    m2n = nu - d
                    yield "IsentropicPsratio_Mach_deflection", sup.IsentropicPsratio_Mach_deflection, dict(Mach=M, dev=d), None, 1e-9
            for p in (0.3, 0.8, 1.0):
                m2 = np.sqrt((np.exp(np.log(PP(M, gg) / p) * (gg - 1) / gg) - 1) * 2 / (gg - 1))
                yield "deflection_Mach_IsentropicPsratio", sup.deflection_Mach_IsentropicPsratio, dict(Mach=M, Pratio=p), prandtl_meyer(m2, gg) - nu, 1e-8
            for guess in (M, None):
                if guess is None and not (1.5 < M < 3):
                    continue
                yield "Mach_Sigma", mf.Mach_Sigma, dict(sigma=float(area_ratio(M, gg)), **({} if guess is None else {"Mach": guess * 1.01})), M, 1e-6

    NEWARG = {"Ti": "Tt"}
    ORDER = {
        "Velocity_MachTi": ("Mach", "Ti", "r"),
        "WeightMassFlow": ("Mach", "r"),
        "IsentropicPsratio_Mach_deflection": ("Mach", "dev"),
        "deflection_Mach_IsentropicPsratio": ("Mach", "Pratio"),
        "Mach_Sigma": ("sigma", "Mach"),
    }
    ck.true("legacy-functions", {c[0] for c in cases(None)} <= set(dir(cf)))
    for g in GS:
        for name, new, kw, want, tol in cases(g):
            f = getattr(cf, name, None)
            co = dict(function=name, args=str(kw), gamma=1.4 if g is None else g, omitted=g is None)
            if f is None:
                ck.violation("missing", **co)
                continue
            gk = {} if g is None else {"gamma": g}
            v = ck.call("legacy:" + name, f, **kw, **gk, ctx=co)
            ref = ck.call("current:" + name, new, **{NEWARG.get(k, k): a for k, a in kw.items()}, gamma=1.4 if g is None else g)
            if isinstance(v, core.Failure) or isinstance(ref, core.Failure):
                continue
            ck.close("legacy:" + name, float(np.real(v)), float(np.real(ref)), rtol=1e-13, atol=1e-14, nontrivial=g not in (None, 1.4), **co)
            if want is not None:
                ck.close("value:" + name, float(np.real(v)), float(want), rtol=tol, atol=1e-9, nontrivial=g not in (None, 1.4), **co)
            # by position: full argument list in the documented order
            order = ORDER.get(name, tuple(kw)) + ("gamma",)
            full = dict(kw, **gk)
            k = len(full)
            if set(order[:k]) == set(full):
                w = ck.call("position:" + name, f, *[full[o] for o in order[:k]], ctx=co)
                if not isinstance(w, core.Failure):
                    ck.close("position:" + name, float(np.real(w)), float(np.real(v)), rtol=1e-14, **co)
            elif g is not None:  # some optional arguments left out: given their defaults
                given = {**{"r": 287.1, "Mach": 2.0}, **full}
                w = ck.call("position:" + name, f, *[given[o] for o in order], ctx=co)
                if not isinstance(w, core.Failure):
                    ck.close("position:" + name, float(np.real(w)), float(np.real(v)), rtol=1e-14, **co)
    # the whole range of every argument, scalars and arrays: legacy against current, whatever the others
    CUR = {"TtTs_Mach": Is, "PtPs_Mach": Is, "Mach_TtTs": Is, "Mach_PtPs": Is, "Velocity_MachTi": Is, "WeightMassFlow": mf, "Sigma_Mach": mf, "Mach_Sigma": mf}
    AX = {
        "Mach": np.concatenate([np.geomspace(1e-6, 300.0, ck.pick(160, 900)), 1 + np.geomspace(1e-9, 1e-2, 15), 1 - np.geomspace(1e-9, 1e-2, 15), [1.0, 2.0, 3.0]]),
        "TtTs": np.concatenate([1 + np.geomspace(1e-6, 2e4, ck.pick(160, 900)), [1.0, 2.0, 3.0]]),
        "PtPs": np.concatenate([1 + np.geomspace(1e-6, 1e8, ck.pick(160, 900)), [1.0, 2.0, 3.0]]),
        "Ti": np.geomspace(0.5, 2e5, ck.pick(160, 900)),
        "r": np.geomspace(1.0, 1e5, ck.pick(160, 900)),
        "gamma": np.linspace(1.02, 2.0, ck.pick(80, 600)),
        "omega": np.concatenate([np.geomspace(1e-3, 85.0, ck.pick(60, 400)), [1.0, 2.0, 30.0]]),
        "Pratio": np.concatenate([np.geomspace(1e-4, 1.0, ck.pick(60, 400)), 1 + np.geomspace(1e-6, 0.3, 20)]),
        "dev": np.concatenate([-np.geomspace(1e-4, 40.0, ck.pick(40, 300)), [0.0, 1.0, 2.0, -1.0], np.geomspace(1e-4, 5.0, 20)]),
        "sigma": np.concatenate([1 + np.geomspace(1e-4, 200.0, ck.pick(40, 300)), [1.5, 2.0]]),
    }
    for name, (order, bases) in {
        "TtTs_Mach": (("Mach", "gamma"), ((0.5, 1.4), (3.0, 1.25))),
        "PtPs_Mach": (("Mach", "gamma"), ((0.5, 1.4), (3.0, 1.25))),
        "Mach_TtTs": (("TtTs", "gamma"), ((1.2, 1.4), (3.0, 1.25))),
        "Mach_PtPs": (("PtPs", "gamma"), ((1.2, 1.4), (9.0, 1.25))),
        "Velocity_MachTi": (("Mach", "Ti", "r", "gamma"), ((0.5, 300.0, 287.1, 1.4), (3.0, 1234.5, 518.0, 1.25))),
        "WeightMassFlow": (("Mach", "r", "gamma"), ((0.5, 287.1, 1.4), (3.0, 518.0, 1.25))),
        "Sigma_Mach": (("Mach", "gamma"), ((0.5, 1.4), (3.0, 1.25))),
        "Mach_Sigma": (("sigma", "Mach", "gamma"), ((1.7, 2.0, 1.4), (3.3, 2.5, 1.25), (1.7, 0.3, 1.4))),
        "PrandtlMeyer_Mach": (("Mach", "gamma"), ((1.5, 1.4), (3.0, 1.25))),
        "Mach_PrandtlMeyer": (("omega", "gamma"), ((12.0, 1.4), (33.0, 1.25))),
        "deflection_Mach_IsentropicPsratio": (("Mach", "Pratio", "gamma"), ((1.5, 0.7, 1.4), (3.0, 0.2, 1.25))),
        "IsentropicPsratio_Mach_deflection": (("Mach", "dev", "gamma"), ((2.5, -6.0, 1.4), (3.0, -11.0, 1.25))),
    }.items():
        f, new = getattr(cf, name, None), getattr(CUR.get(name, sup), name)
        if f is None:
            continue
        for base, arg in itertools.product(bases, order):
            ax = AX[arg]
            if arg == "Mach" and CUR.get(name, sup) is sup:
                ax = np.concatenate([ax[ax > 1], [1.0]])
                if name == "IsentropicPsratio_Mach_deflection":  # deflections stay below the maximum turning
                    ax = ax[(ax < 8.0) & (ax > 1.35)]
            if name == "Mach_Sigma" and arg == "Mach":
                ax = np.concatenate([np.linspace(0.2, 0.6, 9), np.linspace(1.4, 3.0, 9)])
            if name == "Mach_Sigma" and arg == "sigma":
                ax = ax[ax < 20]
            co = dict(function=name, base=str(base), argument=arg)

            def args(v):
                return [v if o == arg else b for o, b in zip(order, base)]

            for v in [ax] + [float(v) for v in ax]:
                nm = "dense:" + name if v is ax else "dense:scalar:" + name
                try:
                    c = new(*args(v))
                except Exception as e:  # guess too far for the current function: so it is for the legacy one
                    ck.true(nm + ":raised", raises(f, args(v)), error=str(e)[:80], value=v, **co)
                    continue
                o = ck.call(nm, f, *args(v), ctx=co)
                if not isinstance(o, core.Failure):
                    ck.true(nm, np.shape(o) == np.shape(c), **co)
                    ck.close(nm, o, c, rtol=1e-13, value=v, **co)
    for g, M in itertools.product((None, 1.25, 1.4), AX["Mach"]):
        gk = {} if g is None else {"gamma": g}
        M = float(M)
        for old, new, a in ((Is.TiTs_Mach, Is.TtTs_Mach, (M,)), (Is.PiPs_Mach, Is.PtPs_Mach, (M,)), (Is.Mach_TiTs, Is.Mach_TtTs, (1 + M,)), (Is.Mach_PiPs, Is.Mach_PtPs, (1 + M * M,)), (Is.Velocity_MachTi, Is.Velocity_MachTt, (0.7, 100 * M, 30 + M)), (Is.Velocity_MachTi, Is.Velocity_MachTt, (M, 345.0))) + (((sw.Pi_ratio, sw.Pt_ratio, (M,)),) if M > 1 else ()):
            ck.close("dense:alias:" + old.__name__, old(*a, **gk), new(*a, **gk), rtol=1e-14, nontrivial=g is not None, args=str(a))
    # names kept in the current modules
    for g in GS:
        gk = {} if g is None else {"gamma": g}
        for M in anyM:
            M = float(M)
            gg = 1.4 if g is None else g
            for old, new, a in (("TiTs_Mach", Is.TtTs_Mach, (M,)), ("PiPs_Mach", Is.PtPs_Mach, (M,)), ("Mach_TiTs", Is.Mach_TtTs, (1 + M,)), ("Mach_PiPs", Is.Mach_PtPs, (1 + M,)), ("Velocity_MachTi", Is.Velocity_MachTt, (M, 300.0)), ("Velocity_MachTi", Is.Velocity_MachTt, (M, 300.0, 500.0))):
                ck.close("alias:" + old, ck.call("alias", getattr(Is, old), *a, **gk), float(new(*a, **gk)), rtol=1e-14, nontrivial=g is not None, Mach=M, gamma=gg)
            if M > 1:
                ck.close("alias:Pi_ratio", ck.call("alias", sw.Pi_ratio, M, **gk), float(sw.Pt_ratio(M, **gk)), rtol=1e-14, Mach=M, gamma=gg)
                mn = sw.downstream_Mn(M, gg)
                ck.close("alias:Pi_ratio:value", sw.Pi_ratio(M, **gk), float(sw.Ps_ratio(M, gg) * PP(mn, gg) / PP(M, gg)), rtol=1e-10, Mach=M, gamma=gg)
    # classes
    for mod, new in ((orm, rm), (onz, nz)):
        for k in ("riemann_pb", "nozzle", "Madapt_from_AsAc_NPR", "Ms_from_AsAc_NPR", "NPR_choked_subsonic", "NPR_choked_supersonic", "NPR_shock_at_exit"):
            if hasattr(new, k):
                ck.true("legacy-class", hasattr(mod, k), module=mod.__name__, name=k)
    x = np.linspace(0, 1, 41)
    A = 1 + 2 * (x - 0.4) ** 2
    for g, npr in itertools.product((1.3, 1.4), (1.02, 1.3, 2.0, 5.0, 30.0)):
        o, c = (ck.call("nozzle", m.nozzle, x, A, NPR=npr, gamma=g) for m in (onz, nz))
        if isinstance(o, core.Failure) or isinstance(c, core.Failure):
            continue
        for at in ("Mach", "Ps", "Ptot"):
            try:
                a, b = getattr(o, at)(), getattr(c, at)()
            except (AttributeError, TypeError):
                a, b = getattr(o, at, 0.0), getattr(c, at, 0.0)
            ck.close("nozzle:" + at, np.asarray(a, float), np.asarray(b, float), rtol=1e-13, gamma=g, NPR=npr)
    for g in (1.3, 1.4):
        for q in itertools.product((0.5, 1.0), (-0.5, 0.8), (0.4, 1.0)):
            L, R = US(*q, gamma=g), US(1.0, 0.0, 0.7, gamma=g)
            xs = np.linspace(-3, 3, 31)
            o, c = (ck.call("riemann", lambda m: m.riemann_pb(L, R).qsol(xs), m) for m in (orm, rm))
            if isinstance(o, core.Failure) or isinstance(c, core.Failure):
                continue
            for at in ("rho", "u", "p"):
                ck.close("riemann:" + at, getattr(o, at), getattr(c, at), rtol=1e-13, left=str(q), gamma=g)
