import itertools
import os
import random
import sys
import warnings

import numpy as np

from mc import core
from mc.programs import programs

PROP = {
    "id": "C26",
    "title": "Computations are independent of each other and alter nothing they are given",
    "statement": "Whatever computations were done before, in any order and on any objects, a computation on new objects gives exactly the result it gives alone. No computation alters the arrays, states or dictionaries it is given, the default gas, the variable name database, or global settings of the interpreter, of numpy, of warnings or of random generators, even if it fails.",
    "quantifier": {"over": ["histories", "inputs"], "text": "all ordered pairs (and triples, thorough) of complete computations covering every module, with repetition, plus failing calls"},
    "why_tests_cant": "Tests run in one order with their own settings; interference needs a particular earlier computation.",
    "anchors": {
        "files": ["aerokit/instance/nozzle.py", "aerokit/common/numspectral.py", "aerokit/common/defaultgas.py", "aerokit/stability/_base.py", "aerokit/aero/model1D.py", "aerokit/aero/IterativeSolve.py"],
        "state": [{"name": "module level variables", "where": "aerokit", "meaning": "must not carry anything from one computation to the next"}],
        "observe_at": ["results, arguments, module variables, global settings"],
    },
}
LEVEL = "model_checking"
TECH = "exhaustive enumeration of computation histories on the real code (states: deep snapshots of all library modules and global settings), bit-for-bit comparison with the computation alone"
NOTE = "Complete over all histories of two (three) of the listed computations."
RULE = "every history; non-trivial = at least two computations"


def refused():
    """(name, call): computations without solution, at the end of their range, or with unusable arguments"""
    import aerokit.aero.Fanno as fa
    import aerokit.aero.Isentropic as Is
    import aerokit.aero.MassFlow as mf
    import aerokit.aero.Propulsion as pr
    import aerokit.aero.Rayleigh as ra
    import aerokit.aero.ShockWave as sw
    import aerokit.aero.Supersonic as sup
    import aerokit.aero.model1D as m1
    import aerokit.common._ode as ode
    import aerokit.common.numspectral as ns
    import aerokit.engine.turbofan as tf
    import aerokit.engine.turbojet as tj
    import aerokit.instance.nozzle as nz
    import aerokit.instance.riemann as rm
    import aerokit.instance.unsteady_inflow as ui
    import aerokit.stability.Euler as Eu
    import aerokit.stability.OrrSommerfeld as OS
    from aerokit.aero.unsteady1D import unsteady_state as US

    L = []
    vals = (2.0, np.array([2.0, 2.5]), np.array([1.5, 5.0, 2.0]))
    for j, M in enumerate(vals):
        for d in (0.0, 5.0, -5.0, 22.0, 23.5, 40.0, -40.0, 89.0, 90.0, float("nan"), np.array([5.0, 40.0]), np.array([40.0, 60.0]), np.array([])):
            for nm in ("sigma_Mach_deflection", "weaksigma_Mach_deflection", "strongsigma_Mach_deflection"):
                L.append(("%s(%d,%s)" % (nm, j, d), lambda nm=nm, M=M, d=d: getattr(sw, nm)(M, d)))
            L.append(("sigma(%d,%s,init)" % (j, d), lambda M=M, d=d: sw.sigma_Mach_deflection(M, d, init=80.0)))
    for M in (0.5, 1.0, 1.01, 2.0, 0.0, -1.0, float("nan")):
        for nm in ("dev_Max", "dev_Sonic", "sigma_DevMax", "sigma_Sonic", "downstream_Mn", "Ps_ratio", "Pt_ratio"):
            L.append(("%s(%g)" % (nm, M), lambda nm=nm, M=M: getattr(sw, nm)(M)))
        for s in (10.0, 30.0, 60.0, 90.0):
            if M > 0.0:
                L.append(("conical(%g,%g)" % (M, s), lambda M=M, s=s: sw.conical_deflection_Mach_sigma(M, s)))
            if M > 1.0:
                L.append(("walldeflection(%g,%g)" % (M, s), lambda M=M, s=s: sw.conical_sigma_Mach_walldeflection(M, s)))
        for nm in ("PrandtlMeyer_Mach", "Mach_PrandtlMeyer", "Mach_PMFmmu", "PMFmmu_Mach"):
            for s in (1.0, 70.0, 200.0):
                L.append(("%s(%g)" % (nm, M * s), lambda nm=nm, M=M, s=s: getattr(sup, nm)(M * s)))
        for nm in ("SubMach_TiTicri", "SupMach_TiTicri"):
            L.append(("%s(%g)" % (nm, M), lambda nm=nm, M=M: getattr(ra, nm)(M)))
        L.append(("fanno(%g)" % M, lambda M=M: fa.maxFparam_Mach(M)))
        L.append(("thrust(%g)" % M, lambda M=M: pr.Mach_ThrustFunction(np.array([M]), np.array([1.5]))))
        for nm in ("MachSub_Sigma", "MachSup_Sigma", "Mach_Sigma"):
            L.append(("%s(%g)" % (nm, M), lambda nm=nm, M=M: getattr(mf, nm)(M)))
        for nm in ("Mach_PtPs", "Mach_TtTs"):
            L.append(("%s(%g)" % (nm, M), lambda nm=nm, M=M: getattr(Is, nm)(M)))
    for r in (0.0, 0.5, 1.0, 1.5, -1.0, float("nan"), np.array([0.5, 1.5]), np.array([2.0, 3.0])):
        L.append(("Mn_Pt_ratio(%s)" % r, lambda r=r: sw.Mn_Pt_ratio(r)))
        L.append(("Mn_Ps_ratio(%s)" % r, lambda r=r: sw.Mn_Ps_ratio(r)))
        L.append(("oblique-isentropic(%s)" % r, lambda r=r: sup.deflection_Mach_IsentropicPsratio(2.0, r)))
        L.append(("isentropic-deflection(%s)" % r, lambda r=r: sup.IsentropicPsratio_Mach_deflection(2.0, 40 * r)))
        for nm in ("Ms_from_AsAc_NPR", "Madapt_from_AsAc_NPR"):
            for a in (0.5, 1.0, 2.0):
                L.append(("%s(%g,%s)" % (nm, a, r), lambda nm=nm, a=a, r=r: getattr(nz, nm)(a, r)))
    x = np.linspace(0, 1, 9)
    for sec in (1 + (x - 0.4) ** 2, 2 - x, 1 + x, x * 0 + 1, x - 0.5, x * np.nan, np.ones(3)):
        for npr in (None, 0.0, 0.5, 1.0, 1.2, 5.0, 1e9, "x"):
            L.append(("nozzle(%s,%s)" % (sec[:2], npr), lambda s=sec, npr=npr: nz.nozzle(x, s, NPR=npr)))
    for u in (-50.0, -5.0, 0.0, 5.0, 50.0):
        L.append(("riemann(%g)" % u, lambda u=u: rm.riemann_pb(US(1.0, u, 1.0), US(1.0, -u, 1.0)).qsol(np.linspace(-2, 2, 5))))
        L.append(("riemann-gas(%g)" % u, lambda u=u: rm.riemann_pb(US(1.0, u, 1.0, gamma=1.3), US(1.0, -u, -1.0)).qsol(0.0)))
        for pt, rt in ((1.2, 1.0), (0.5, 1.0), (0.0, 1.0), (1.5, 0.0), (1.5, -1.0)):
            L.append(("inflow(%g,%g,%g)" % (u, pt, rt), lambda u=u, pt=pt, rt=rt: ui.inflow_pb(US(1.0, u, 1.0)).solve_with_pt0_rtt0(pt, rt)))
        L.append(("state(%g)" % u, lambda u=u: m1.state(1.0, u, -1.0).state_RH()))
    for n in (0, 1, 2, -3, "x"):
        L.append(("cheb(%s)" % n, lambda n=n: ns.ChebCollocation(n, 1.0, 1.0).matder(3)))
        L.append(("cheb-order(%s)" % n, lambda n=n: ns.ChebCollocation(8).matder(n)))
        L.append(("cheb-fit(%s)" % n, lambda n=n: ns.ChebCollocation(8).fit_to_gauss(np.linspace(0, 1, 3), np.ones(4))))
    for bc in ("x", "sym", None, {"type": "x"}, {}, 3):
        L.append(("euler-bc(%s)" % bc, lambda bc=bc: Eu.Euler1D(6, 0.0, 1.0).set_BC(bc, bc)))
        L.append(("orr-bc(%s)" % bc, lambda bc=bc: OS.OrrSommerfeldModel(6).set_BC(bc, bc)))

    def euler(v, sort="real", niter=3, guess=1.0):
        e = Eu.Euler1D(6, 0.0, 1.0)
        e.set_basestate(v)
        e.set_BC("sym", "sym")
        e.solve_eig()
        e.select_and_sort(sort=sort)
        e.converge_eigenpair(guess, np.zeros(18), niter=niter)

    one = np.ones(6)
    good, nan = m1.state(one, 0.3 * one, one), m1.state(one, 0.3 * one, one * np.nan)
    for nm, v, kw in (("good", good, {}), ("nan", nan, {}), ("missing", {"rho": 1.0}, {}), ("none", None, {}), ("sort", good, dict(sort="x")), ("guess", good, dict(guess=np.nan)), ("size", m1.state(one[:4], one[:4], one[:4]), {})):
        L.append(("euler(%s)" % nm, lambda v=v, kw=kw: euler(v, **kw)))
    for b in ({}, {"alpha": 1.0}, {"alpha": 0.0, "Reynolds": 0.0, "uprofile": lambda x: 1 - x**2}, None):
        L.append(("orr-base(%s)" % b, lambda b=b: (lambda o: (o.set_basestate(b), o.set_BC("wall", "wall"), o.solve_eig()))(OS.OrrSommerfeldModel(6))))
    for h in (0.0, -0.1, 0.3, float("nan")):
        L.append(("rk4(%g)" % h, lambda h=h: ode.RK4(lambda x, y: -y, 0.0, np.array([1.0]), 0.0 if h <= 0 else 1.0, 0.1)))
        L.append(("rk4-nan(%g)" % h, lambda h=h: ode.RK4(lambda x, y: y * np.nan, 0.0, np.array([1.0]), 1.0, 0.1 + abs(h))))
    for cls in (tj.turbojet_opt, tf.turbofan_adapt):
        L.append(("engine-noupdate:" + cls.__module__, lambda cls=cls: cls(20.0, 1500.0, *((5.0, 0.8) if cls is tf.turbofan_adapt else ())).thermal_efficiency()))
        L.append(("engine-cold:" + cls.__module__, lambda cls=cls: (lambda e: (e.flight_conditions(220.0, 2e4, 0.8), e.update(), e.thermal_efficiency()))(cls(*((40.0, 500.0) if cls is tj.turbojet_opt else (40.0, 500.0, 5.0, 0.8))))))
    return L


def run(ck):
    P = programs(variants=True)
    N = len(P)
    ck.notes["computations"] = [p[0] for p in P]
    import aerokit.aero.Isentropic as Is
    import aerokit.aero.ShockWave as sw
    import aerokit.common._ode as ode
    import aerokit.common.defaultgas as dg
    import aerokit.common.dicovar as dv
    import aerokit.engine.Cycle_Turbofan as ct
    import aerokit.instance.nozzle as nz
    import aerokit.stability.Euler as Eu
    import aerokit.stability.OrrSommerfeld as OS
    from aerokit.aero.unsteady1D import unsteady_state as US

    def settings():
        s = {
            "printoptions": {k: v for k, v in np.get_printoptions().items()},
            "errstate": dict(np.geterr()),
            "random": core.digest(core.snapshot(np.random.get_state()), repr(random.getstate())),
            "warnings": [repr(f) for f in warnings.filters],
            "cwd": os.getcwd(),
            "recursion": sys.getrecursionlimit(),
            "path": list(sys.path),
            "stdout": id(sys.stdout),
            "trace": repr(sys.gettrace()),
            "environ": core.digest(repr(sorted(os.environ.items()))),
            "gas": (dg.gamma(), dg.r_ideal()),
            "names": {k: dv.dicoVar[k] for k in dv.dicoVar.keys()},
        }
        if "matplotlib" in sys.modules:
            m = sys.modules["matplotlib"]
            s["rc"] = core.digest(repr(sorted((k, str(v)) for k, v in m.rcParams.items())))
            s["figures"] = list(sys.modules["matplotlib.pyplot"].get_fignums()) if "matplotlib.pyplot" in sys.modules else []
        return core.snapshot(s), s

    def same(a, b):
        return len(a) == len(b) and all(x == y or (x != x and y != y) for x, y in zip(a, b))

    def close(a, b):
        return len(a) == len(b) and all(x == y or abs(x - y) <= 1e-9 * max(1.0, abs(y)) or (x != x and y != y) for x, y in zip(a, b))

    def fixed(i=1):
        # another state of the random generators than the one left by the last computation
        np.random.seed(1000 + i)
        random.seed(1000 + i)

    warm = {}
    LAZY = ("rc", "figures", "environ", "path")  # set by lazily loaded libraries
    for i, (nm, build, runp) in enumerate(P):
        fixed(i)
        sa, da = settings()
        r = ck.call("alone:" + nm, runp, build())
        warm[nm] = r
        sb, db = settings()
        ck.true("settings:first-run", all(core.snapshot(da[k]) == core.snapshot(db[k]) for k in da if k not in LAZY), computation=nm, changed=str([k for k in da if core.snapshot(da[k]) != core.snapshot(db.get(k))]))
    fixed(-1)
    s0, d0 = settings()
    alone = {}
    for nm, build, runp in P:
        a = build()
        before = core.snapshot(a)
        r = ck.call("alone:" + nm, runp, a)
        if isinstance(r, core.Failure):
            return
        ck.true("arguments", core.kept(before, core.snapshot(a)), computation=nm)
        ck.true("finite", not np.any(np.isnan(np.array(r))), computation=nm)
        s1, d1 = settings()
        ck.true("settings", s1 == s0, computation=nm, changed=str([k for k in d0 if core.snapshot(d0[k]) != core.snapshot(d1.get(k))]))
        ck.true("repeat", same(r, warm[nm]) or close(r, warm[nm]), computation=nm)
        alone[nm] = r
        ck.transitions += 1
    # floating-point error handling and warning filters stay as the user has set them, whatever they are
    from mc.table import table

    def user_settings(nm, f):
        for mode in ("ignore", "warn", "call"):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                with np.errstate(all=mode), np.printoptions(precision=11, threshold=77, linewidth=99, suppress=mode == "warn", sign="+" if mode == "call" else "-"):
                    fixed({"ignore": 2, "warn": 3, "call": 4}[mode])
                    rnd = core.digest(core.snapshot(np.random.get_state()), repr(random.getstate()))
                    if mode == "call":
                        oldcall = np.seterrcall(lambda *a: None)
                    want = (dict(np.geterr()), [repr(w) for w in warnings.filters], np.getbufsize(), core.snapshot(dict(np.get_printoptions())))
                    bad(f)
                    got = (dict(np.geterr()), [repr(w) for w in warnings.filters], np.getbufsize(), core.snapshot(dict(np.get_printoptions())))
                    ck.true("user-settings:random", rnd == core.digest(core.snapshot(np.random.get_state()), repr(random.getstate())), computation=nm, mode=mode)
                    if mode == "call":
                        np.seterrcall(oldcall)
                    np.seterr(**want[0])
            ck.true("user-settings", got == want, computation=nm, mode=mode)
            ck.transitions += 1

    def bad(f):
        try:
            with core.quiet():
                f()
        except Exception:
            pass

    for nm, build, runp in P:
        user_settings(nm, lambda b=build, r=runp: r(b()))
    for nm, f, args, kind in table():
        user_settings(nm, lambda: f(**{k: v[1] for k, v in args.items()}))
        user_settings(nm + ":array", lambda: f(**{k: np.array(v) if i == 0 else v[1] for i, (k, v) in enumerate(args.items())}))
        user_settings(nm + ":invalid", lambda: f(**{k: -1.0 for k in args}))
    # every way to be refused or to have no solution
    OUT = refused()
    for nm, f in OUT:
        user_settings("refused:" + nm, f)
        b0 = settings()
        with core.quiet():
            bad(f)
        b1 = settings()
        ck.true("settings:refused", b0[0] == b1[0], computation=nm, changed=str([k for k in b0[1] if core.snapshot(b0[1][k]) != core.snapshot(b1[1].get(k))]))
    fixed(-1)
    # the results do not depend on the order of the first runs: solo values from a fresh interpreter
    import json
    import subprocess

    code = "import sys,json\nimport numpy as np\nnp.seterr(all='ignore')\nfrom mc.programs import programs\nfrom mc import core\nP=programs(variants=True)\nout={}\nfor n,b,r in P[::-1]:\n    with core.quiet():\n        v=r(b())\n    out[n]=[[complex(x).real,complex(x).imag] for x in v]\nprint(json.dumps(out))"
    o = subprocess.run([sys.executable, "-W", "ignore", "-c", code], capture_output=True, text=True, env=dict(os.environ), timeout=300)
    if ck.true("fresh:runs", o.returncode == 0, error=o.stderr[-300:]):
        fr = json.loads(o.stdout.strip().splitlines()[-1])
        for nm in alone:
            ck.true("fresh", close([complex(x) for x in alone[nm]], [complex(*x) for x in fr[nm]]), computation=nm)

    # failing computations, interleaved below
    def bad(f):
        try:
            f()
        except Exception:
            pass

    FAIL = [
        ("bad-deflection", lambda: sw.sigma_Mach_deflection(2.0, 60.0)),
        ("bad-section", lambda: nz.nozzle(np.linspace(0, 1, 5), np.array([]), NPR=2.0, gamma=1.3)),
        ("bad-state", lambda: Eu.Euler1D(6, 0.0, 1.0).get_RHS_time_matrices()),
        ("bad-base", lambda: OS.OrrSommerfeldModel(6).set_basestate({"alpha": 1.0})),
        ("bad-database", lambda: dv.setDicoVar("unknown")),
        ("bad-name", lambda: dv.dicoVar["unknown"]),
        ("bad-ode", lambda: ode.RK4(lambda x, y: 1 / 0, 0.0, np.array([1.0]), 1.0, 0.1)),
        ("bad-vacuum", lambda: P and __import__("aerokit.instance.riemann").instance.riemann.riemann_pb(US(1.0, -50.0, 1.0), US(1.0, 50.0, 1.0))),
        ("bad-ratio", lambda: Is.Mach_PtPs("a")),
        ("bad-cycle", lambda: ct.cycle_taux_fan_fixe(6.1, 32.8, "x", 180.0, ct.Gaz(), ct.Gaz(), 1.6)),
    ]
    events = [(nm, (lambda b=build, r=runp: r(b()))) for nm, build, runp in P] + FAIL
    for nm, f in FAIL:
        with core.quiet():
            bad(f)
        s1, d1 = settings()
        ck.true("settings-after-failure", s1 == s0, computation=nm, changed=str([k for k in d0 if core.snapshot(d0[k]) != core.snapshot(d1.get(k))]))

    def history(evs, nm, build, runp):
        for _, f in evs:
            bad(f)
            ck.transitions += 1
        r = ck.call("history:" + nm, runp, build(), ctx=dict(after="/".join(e[0] for e in evs)))
        if isinstance(r, core.Failure):
            return
        ck.traces += 1
        ck.true("independent", same(r, alone[nm]) or close(r, alone[nm]), computation=nm, after="/".join(e[0] for e in evs))

    ck.states += 1
    for e in events:
        for nm, build, runp in P:
            history((e,), nm, build, runp)
    # two computations before: all pairs, quick ones only in quick tier
    import time

    cost = {}
    for nm, f in events:
        t = time.time()
        with core.quiet():
            bad(f)
        cost[nm] = time.time() - t
    small = [e for e in events if cost[e[0]] < 3e-3]
    targets = [p for p in P if p[0] in ("nozzle:1.4:1.4", "riemann-1", "collocation", "euler", "massflow", "oblique-shock", "state", "cycle-fixed")]
    if not ck.thorough:
        targets = targets[:4]
        small = [e for e in small if e[0] in ("nozzle:1.4:1.3", "nozzle:1.05:1.3", "riemann-2", "collocation-2", "euler-sym", "supersonic", "inflow", "orr-sommerfeld-2", "bad-section", "bad-state", "bad-vacuum", "cycle-computed", "thrust", "expressions")]
    for e1, e2 in itertools.product(small, small):
        for nm, build, runp in targets:
            history((e1, e2), nm, build, runp)
    s1, d1 = settings()
    ck.true("settings:end", s1 == s0, changed=str([k for k in d0 if core.snapshot(d0[k]) != core.snapshot(d1.get(k))]))
    ck.states += N
