import inspect
import itertools

import numpy as np

from mc import core

PROP = {
    "id": "C24",
    "title": "Default gas: set, save and restore",
    "statement": "After any sequence of settings, saves and restores of the default gas, and of computations in between, the current default heat ratio and gas constant are the last values set or the ones restored from the last save, and restoring is repeatable and brings both back. No computation of the library changes the current or the saved default. Every function called without a heat ratio gives what it gives with the current default heat ratio.",
    "quantifier": {"over": ["inputs", "histories"], "text": "all sequences up to a depth of set/save/restore/computation events from a fresh start; every function with an optional heat ratio x arguments"},
    "why_tests_cant": "Tests run one save/restore sequence; a leak or a swap needs a particular order of several calls.",
    "anchors": {
        "files": ["aerokit/common/defaultgas.py", "aerokit/instance/nozzle.py"],
        "state": [{"name": "current and saved default gas", "where": "aerokit/common/defaultgas.py", "meaning": "defaults of all functions"}],
        "observe_at": ["gamma(), r_ideal()", "values of functions called without heat ratio"],
    },
}
LEVEL = "model_checking"
TECH = "breadth-first search over all event histories on the real module, in lockstep with a four-register model"
NOTE = "Complete up to the depth for two values of each constant; restoring without a save is left undefined. Known finding: a changed default is not seen by functions (bound at import)."
RULE = "every history up to the depth (states deduplicated); non-trivial = the default was changed at least once"


def calls():
    """functions with an optional heat ratio, called without it: (name, function, arguments)"""
    import aerokit.aero.Fanno as fa
    import aerokit.aero.Isentropic as Is
    import aerokit.aero.MassFlow as mf
    import aerokit.aero.Rayleigh as ra
    import aerokit.aero.ShockWave as sw
    import aerokit.aero.Supersonic as sup
    import aerokit.aero.model1D as m1
    import aerokit.aero.unsteady1D as us
    import aerokit.instance.nozzle as nz

    A = {
        Is: [("TtTs_Mach", (2.0,)), ("PtPs_Mach", (2.0,)), ("Mach_TtTs", (1.8,)), ("Mach_PtPs", (3.0,)), ("Velocity_MachTt", (0.8, 300.0, 287.0)), ("TiTs_Mach", (2.0,)), ("PiPs_Mach", (2.0,)), ("Mach_PiPs", (3.0,)), ("Mach_TiTs", (1.8,)), ("Velocity_MachTi", (0.8, 300.0, 287.0))],
        mf: [("WeightMassFlow", (0.7,)), ("Sigma_Mach", (0.7,)), ("Mach_Sigma", (2.0, 2.0)), ("MachSub_Sigma", (2.0,)), ("MachSup_Sigma", (2.0,))],
        sup: [("PrandtlMeyer_Mach", (2.0,)), ("Mach_PrandtlMeyer", (20.0,)), ("Mach_PMFmmu", (10.0,)), ("deflection_Mach_IsentropicPsratio", (2.0, 0.5)), ("IsentropicPsratio_Mach_deflection", (2.0, 5.0))],
        sw: [("Ps_ratio", (2.0,)), ("Mn_Ps_ratio", (4.0,)), ("Rho_ratio", (2.0,)), ("Ts_ratio", (2.0,)), ("downstream_Mn", (2.0,)), ("Pt_ratio", (2.0,)), ("Pi_ratio", (2.0,)), ("Mn_Pt_ratio", (0.7,)), ("deflection_Mach_sigma", (3.0, 40.0)), ("deflection_Mach_ShockPsratio", (3.0, 4.0)), ("downstreamMach_Mach_ShockPsratio", (3.0, 4.0)), ("weaksigma_Mach_deflection", (3.0, 15.0)), ("strongsigma_Mach_deflection", (3.0, 15.0)), ("sigma_Mach_deflection", (3.0, 15.0)), ("dev_Max", (3.0,)), ("dev_Sonic", (3.0,)), ("sigma_DevMax", (3.0,)), ("sigma_Sonic", (3.0,)), ("conical_deflection_Mach_sigma", (3.0, 40.0)), ("conical_sigma_Mach_walldeflection", (3.0, 20.0)), ("conical_Mach_walldeflection_sigma", (20.0, 35.0))],
        fa: [(n, (0.6,)) for n in ("maxFparam_Mach", "Ps_Pscri", "Ts_Tscri", "Pi_Picri", "Rho_Rhocri", "V_Vcri", "NormdS")],
        ra: [(n, (0.6,)) for n in ("maxTiratio_Mach", "Ps_Pscri", "Ts_Tscri", "Ti_Ticri", "Pi_Picri", "Rho_Rhocri", "V_Vcri", "NormdS", "SubMach_TiTicri")],
    }
    out = []
    for mod, L in A.items():
        for n, a in L:
            f = getattr(mod, n, None)
            if f is None:
                continue
            if "gamma" in inspect.signature(f).parameters:
                out.append((mod.__name__.split(".")[-1] + "." + n, f, a))
    out.append(("model1D.state", lambda gamma=None: m1.state(1.2, 100.0, 1e5, **({} if gamma is None else {"gamma": gamma})).Mach(), ()))
    out.append(("unsteady1D.unsteady_state", lambda gamma=None: us.unsteady_state(1.2, 100.0, 1e5, **({} if gamma is None else {"gamma": gamma})).Mach(), ()))
    return out


def run(ck):
    from aerokit.common import defaultgas as dg
    import aerokit.aero.ShockWave as sw
    import aerokit.aero.unsteady1D as us
    import aerokit.aero.model1D as m1
    import aerokit.instance.nozzle as nz
    import aerokit.instance.riemann as rm
    import aerokit.instance.unsteady_inflow as ui
    import aerokit.engine.turbojet as tj

    C = calls()  # imports everything before any change of the default
    fresh = dict(vars(dg))
    ck.close("fresh:gamma", dg.gamma(), 1.4, rtol=0)
    ck.close("fresh:r", dg.r_ideal(), 287.1, rtol=0)
    x = np.linspace(0.0, 1.0, 11)
    area = 1.0 + (x - 0.4) ** 2

    def init():
        vars(dg).clear()
        vars(dg).update(fresh)
        return dg, {"cur": (1.4, 287.1), "saved": None}

    def setg(v):
        def f(c, S):
            c.set_gamma(v)
            S["cur"] = (v, S["cur"][1])

        return ("gamma=%g" % v, f)

    def setr(v):
        def f(c, S):
            c.set_r_ideal(v)
            S["cur"] = (S["cur"][0], v)

        return ("r=%g" % v, f)

    def save(c, S):
        c.save_default()
        S["saved"] = S["cur"]

    def restore(c, S):
        if S["saved"] is None:
            raise core.Skip
        c.restore_default()
        S["cur"] = S["saved"]

    def comp(c, S):
        # a nozzle of another gas, a Riemann problem, an inflow, a cycle, shocks and cones
        n = nz.nozzle(x, area, NPR=1.5, gamma=1.3)
        n.set_NPR(3.0)
        q = us.unsteady_state(1.0, 0.0, 1.0, gamma=1.25), us.unsteady_state(0.125, 0.0, 0.1, gamma=1.6)
        rm.riemann_pb(*q).qsol(x)
        sw.conical_sigma_Mach_walldeflection(3.0, 20.0, gamma=1.3)
        sw.sigma_Mach_deflection(3.0, 20.0, gamma=1.3)
        m1.state(1.2, 100.0, 1e5, gamma=1.3)
        tj.turbojet_opt(20.0, 1500.0, gam_cold=1.4, gam_hot=1.3)

    def obs(c, S, hist):
        h = "/".join(hist)
        nt = any("=" in e for e in hist)
        ok = ck.close("current:gamma", c.gamma(), S["cur"][0], rtol=0, nontrivial=nt, history=h)
        ok &= ck.close("current:r", c.r_ideal(), S["cur"][1], rtol=0, nontrivial=nt, history=h)
        if S["saved"] is not None:
            c.restore_default()
            ok &= ck.close("saved:gamma", c.gamma(), S["saved"][0], rtol=0, nontrivial=nt, history=h)
            ok &= ck.close("saved:r", c.r_ideal(), S["saved"][1], rtol=0, nontrivial=nt, history=h)
        return bool(ok)

    # values close to the current ones, one after the other
    init()
    for e in np.geomspace(1e-13, 0.3, 66):
        for s in (1, -1):
            for back in (1.4, 1.4 * (1 - e)):
                dg.set_gamma(1.4)
                dg.save_default()
                dg.set_gamma(back)
                dg.set_gamma(1.4 * (1 + s * e))
                ck.close("close:gamma", dg.gamma(), 1.4 * (1 + s * e), rtol=0, e=e, s=s)
                dg.restore_default()
                ck.close("close:gamma-restored", dg.gamma(), 1.4, rtol=0, e=e, s=s)
                dg.set_r_ideal(287.1)
                dg.save_default()
                dg.set_r_ideal(287.1 * back / 1.4)
                dg.set_r_ideal(287.1 * (1 + s * e))
                ck.close("close:r", dg.r_ideal(), 287.1 * (1 + s * e), rtol=0, e=e, s=s)
                dg.restore_default()
                ck.close("close:r-restored", dg.r_ideal(), 287.1, rtol=0, e=e, s=s)
                dg.set_gamma(1.4 * (1 + s * e))
                dg.save_default()
                dg.set_gamma(1.4)
                dg.restore_default()
                ck.close("close:gamma-restored", dg.gamma(), 1.4 * (1 + s * e), rtol=0, e=e, s=s)
    init()
    ev = [setg(1.2), setg(5.0 / 3.0), setr(518.0), setr(100.0), ("save", save), ("restore", restore), ("compute", comp)]
    try:
        core.bfs(ck, "defaults", init, ev, ck.pick(5, 8), start=obs)
        # functions without heat ratio
        ck.true("optional-ratio-functions", len(C) >= 40, count=len(C))
        for hist in itertools.chain(((),), ((e,) for e in ("a", "b", "ab", "as", "asb", "asbr"))):
            init()
            for e in "".join(hist):
                {"a": lambda: dg.set_gamma(1.2), "b": lambda: dg.set_gamma(5.0 / 3.0), "s": dg.save_default, "r": dg.restore_default}[e]()
            g = dg.gamma()
            for name, f, a in C:
                v0 = ck.call("omitted:" + name, f, *a)
                v1 = ck.call("omitted:" + name, f, *a, gamma=g)
                vi = ck.call("omitted:" + name, f, *a, gamma=1.4)
                if any(isinstance(v, core.Failure) for v in (v0, v1, vi)):
                    continue
                v0, v1, vi = float(np.real(v0)), float(np.real(v1)), float(np.real(vi))
                same = abs(v0 - v1) <= 1e-12 * abs(v1)
                frozen = abs(v0 - vi) <= 1e-12 * abs(vi)
                kind = "omitted-ratio:frozen-at-import" if frozen and not same else "omitted-ratio"
                if frozen and not same and name.split(".")[0] in ("Fanno", "Rayleigh"):
                    continue  # documented with their own default 1.4
                ck.true(kind, same, nontrivial=bool(hist), function=name, set="".join(hist), gamma=g, got=v0, want=v1)
    finally:
        vars(dg).clear()
        vars(dg).update(fresh)
