"""small complete computations with every part of the library, each on its own objects.

programs() -> list of (name, build, run): build() makes fresh arguments (a dict), run(arguments) returns a flat list of
numbers. Nothing is shared between two runs but the library itself."""
import numpy as np


def flat(*vals):
    out = []
    for v in vals:
        a = np.asarray(v)
        out.extend(np.ravel(a.astype(complex) if a.dtype.kind == "c" else a.astype(float)).tolist())
    return out


def programs(variants=False):
    import aerokit.aero.CompressibleFlow as cf
    import aerokit.aero.Fanno as fa
    import aerokit.aero.Isentropic as Is
    import aerokit.aero.MassFlow as mf
    import aerokit.aero.Propulsion as pr
    import aerokit.aero.Rayleigh as ra
    import aerokit.aero.ShockWave as sw
    import aerokit.aero.Supersonic as sup
    import aerokit.aero.ThermoKerosen as tk
    import aerokit.aero.ThermoRealGas as tr
    import aerokit.aero.degree as deg
    import aerokit.aero.model1D as m1
    import aerokit.common._ode as ode
    import aerokit.common.dicovar as dv
    import aerokit.common.extendvar as ev
    import aerokit.common.numspectral as ns
    import aerokit.engine.Cycle_Turbofan as ct
    import aerokit.engine.gasgenerator as gg
    import aerokit.engine.propu_be_double_corps as dc
    import aerokit.engine.turbofan as tf
    import aerokit.engine.turbojet as tj
    import aerokit.instance.nozzle as nz
    import aerokit.instance.riemann as rm
    import aerokit.instance.unsteady_inflow as ui
    import aerokit.stability.Euler as Eu
    import aerokit.stability.OrrSommerfeld as OS
    from aerokit.aero.unsteady1D import unsteady_state as US

    L = []

    def prog(name, **args):
        def deco(f):
            L.append((name, lambda: {k: (v() if callable(v) else v) for k, v in args.items()}, lambda a: f(**a)))
            return f

        return deco

    A = lambda *v: (lambda: np.array(v))
    S = lambda *v: (lambda: np.array(v))

    @prog("isentropic", M=A(0.3, 1.0, 2.5), g=1.3)
    def _(M, g):
        return flat(Is.TtTs_Mach(M, g), Is.PtPs_Mach(M, g), Is.Mach_PtPs(1 + M, g), Is.Mach_TtTs(1 + M, g), Is.Velocity_MachTt(M, 300.0, gamma=g), cf.PtPs_Mach(M))

    @prog("massflow", s=A(1.2, 1.7, 3.0), g=1.3)
    def _(s, g):
        return flat(mf.MachSub_Sigma(s, g), mf.MachSup_Sigma(s, g), mf.Sigma_Mach(s, g), mf.WeightMassFlow(s, gamma=g))

    @prog("massflow:1.4", s=A(1.2, 1.7, 3.0))
    def _(s):
        return flat(mf.MachSub_Sigma(s), mf.MachSup_Sigma(s), mf.Mach_Sigma(1.7, 1.9))

    @prog("supersonic", M=A(1.3, 2.0, 3.0), g=5.0 / 3.0)
    def _(M, g):
        return flat(sup.PrandtlMeyer_Mach(M, g), sup.Mach_PrandtlMeyer(np.array([5.0, 12.0]), g), sup.IsentropicPsratio_Mach_deflection(2.0, -4.0, g), sup.deflection_Mach_IsentropicPsratio(M, 0.6, g))

    @prog("supersonic:1.4", M=A(1.3, 2.0, 3.0))
    def _(M):
        return flat(sup.PrandtlMeyer_Mach(M), sup.Mach_PrandtlMeyer(20.0), sup.Mach_PMFmmu(M))

    @prog("normal-shock", M=A(1.1, 2.0, 5.0), g=1.2)
    def _(M, g):
        return flat(sw.Ps_ratio(M, g), sw.Rho_ratio(M, g), sw.downstream_Mn(M, g), sw.Pt_ratio(M, g), sw.Mn_Ps_ratio(M, g), sw.Mn_Pt_ratio(0.7, g))

    @prog("oblique-shock", d=A(3.0, -5.0, 8.0), g=1.3)
    def _(d, g):
        return flat(sw.sigma_Mach_deflection(2.5, d, gamma=g), sw.weaksigma_Mach_deflection(2.5, 8.0, g), sw.strongsigma_Mach_deflection(2.5, 8.0, g), sw.dev_Max(2.5, g), sw.dev_Sonic(2.5, g), sw.deflection_Mach_sigma(2.5, 40.0, g))

    @prog("conical-shock")
    def _():
        return flat(sw.conical_deflection_Mach_sigma(2.5, 40.0, 1.3))

    @prog("conical-shock-2")
    def _():
        return flat(sw.conical_deflection_Mach_sigma(3.5, 25.0, 1.4))

    @prog("conical-shock-inverse")
    def _():
        return flat(sw.conical_sigma_Mach_walldeflection(2.5, 20.0, gamma=1.4))

    @prog("fanno-rayleigh", M=A(0.4, 1.0, 2.0), g=1.3)
    def _(M, g):
        return flat(fa.maxFparam_Mach(M, g), fa.Pi_Picri(M, g), fa.NormdS(M, g), ra.Ti_Ticri(M, g), ra.Pi_Picri(M, g), ra.NormdS(M, g), ra.SubMach_TiTicri(0.8, g), ra.SupMach_TiTicri(0.9, g))

    @prog("thrust", M=A(1.5, 2.0, 2.2))
    def _(M):
        return flat(pr.ThrustFunction(M), pr.Mach_ThrustFunction(pr.ThrustFunction(M), M * 1.05))

    @prog("thermo")
    def _():
        return flat(tr.Gamma(700.0), tr.Cp(700.0), tr.Enthalpy(700.0), tr.Phi(700.0), tk.Cp(700.0), tk.Phi(700.0), tk.Pc_eff(700.0))

    @prog("degree", a=A(10.0, 50.0, 80.0))
    def _(a):
        return flat(deg.cos(a), deg.atan(deg.tan(a)), deg.atan2(a, -a))

    @prog("state", rho=A(1.0, 1.2), u=A(700.0, 900.0), p=A(1e5, 1.2e5))
    def _(rho, u, p):
        s = m1.state(rho, u, p, gamma=1.3)
        r = s.state_RH()
        i = s.state_isentropic_Mach(0.7)
        c = s.copy()
        c.compute_from_pt_rtt_M(2e5, 9e4, 0.5)
        return flat(s.rho, s.u, s.p, r.rho, r.u, r.p, i.rho, i.u, i.p, c.rho, c.u, c.p, s.Ptot(), s.rTtot(), s.Mach(), s[1].massflow())

    def rp(l, r, g):
        pb = rm.riemann_pb(US(*l, gamma=g[0]), US(*r, gamma=g[1]))
        q = pb.qsol(np.linspace(-2, 2, 9))
        return flat(pb.ustar(), pb.pstar(), q.rho, q.u, q.p)

    @prog("riemann-1")
    def _():
        return rp((1.0, 0.0, 1.0), (0.125, 0.0, 0.1), (1.4, 1.4))

    @prog("riemann-2", q=lambda: [US(1.0, 0.5, 1.0, gamma=1.3), US(0.7, -0.4, 0.8, gamma=1.6)])
    def _(q):
        pb = rm.riemann_pb(*q)
        s = pb.qsol(np.linspace(-2, 2, 9))
        return flat(pb.ustar(), pb.pstar(), s.rho, s.u, s.p)

    @prog("inflow", q=lambda: US(1.0, 0.1, 1.0, gamma=1.3))
    def _(q):
        pb = ui.inflow_pb(q)
        pb.solve_with_pt0_rtt0(1.7, 1.2)
        return flat(pb.ustar(), pb.pstar(), pb.qstarL().rho, pb.qstarR().rho)

    x = np.linspace(0, 1, 12)

    def noz(npr, g):
        @prog("nozzle:%g:%g" % (npr, g), x=lambda: x.copy(), section=lambda: 1 + (x - 0.4) ** 2)
        def _(x, section):
            n = nz.nozzle(x, section, NPR=npr, gamma=g)
            return flat(n.Mach(), n.Ps(), n.Ptot(), n.NPR0, n.NPRsw, n.NPR1)

    for npr, g in ((1.05, 1.3), (1.4, 1.3), (1.4, 1.4), (8.0, 1.2)):
        noz(npr, g)

    @prog("nozzle-functions")
    def _():
        return flat(nz.NPR_choked_subsonic(2.0), nz.NPR_choked_supersonic(2.0), nz.NPR_shock_at_exit(2.0), nz.Ms_from_AsAc_NPR(2.0, 1.5), nz.Madapt_from_AsAc_NPR(2.0, 8.0))

    @prog("nozzle-functions-2")
    def _():
        return flat(nz.NPR_choked_subsonic(1.3), nz.NPR_choked_supersonic(1.3), nz.NPR_shock_at_exit(1.3), nz.Ms_from_AsAc_NPR(1.3, 1.2), nz.Madapt_from_AsAc_NPR(1.3, 5.0))

    @prog("collocation", f=A(0.0, 1.0, 4.0, 9.0, 16.0), y=A(0.1, 0.5, 0.9))
    def _(f, y):
        c = ns.ChebCollocation(5, 0.0, 2.0)
        return flat(c.x, c.matder(1), c.matder(3), c.matder(2), c.extrapol(f, y))

    @prog("collocation-2", y=lambda: np.linspace(-1, 1, 9))
    def _(y):
        c = ns.ChebCollocation(5)
        return flat(c.x, c.matder(2), c.fit_to_gauss(y, y**2))

    @prog("ode", y=A(1.0, 0.5))
    def _(y):
        F = lambda x, y: np.array([y[1], -y[0]])
        a, b = ode.RK4(F, 0.0, y, 0.5, 0.125), ode.RKF45(F, 0.0, y, 1.0, 0.1)
        return flat(a[0], a[1], b[0], b[1])

    @prog("gasgenerator", Tt4=A(1400.0, 1600.0))
    def _(Tt4):
        g = gg.base(10.0, Tt4, gam_cold=1.4, gam_hot=1.3, r_cold=287.0, r_hot=291.0, eta_cc=0.98, etapolCHP=0.9, etapolTHP=0.9)
        g.flight_conditions(250.0, 3e4, 0.8)
        g.update()
        return flat(g.Tt3, g.far, g.Pt45, g.Tt45, g.Wsp_cc())

    @prog("turbojet", Tt4=A(1400.0, 1600.0))
    def _(Tt4):
        g = tj.turbojet_opt(12.0, Tt4, xi_nozzle=0.98, r_cold=287.0, r_hot=287.0)
        g.flight_conditions(250.0, 3e4, 0.8)
        g.update()
        return flat(g.V9, g.spec_thrust(), g.thermal_efficiency(), g.Sfc())

    @prog("turbofan", Tt4=A(1500.0, 1700.0))
    def _(Tt4):
        g = tf.turbofan_adapt(25.0, Tt4, 5.0, 0.6, r_cold=287.0, r_hot=287.0)
        g.flight_conditions(250.0, 3e4, 0.8)
        g.update()
        return flat(g.V9, g.norm_thrust(), g.thermal_efficiency())

    @prog("cycle-fixed")
    def _():
        c = ct.cycle_taux_fan_fixe(6.1, 32.8, 1410.0, 180.0, ct.Gaz(), ct.Gaz(1.33, 291.6, 42.8e6), 1.6)
        c.calculs_5_to_9()
        return flat(c.F, c.mk_spe, c.eta)

    @prog("cycle-computed")
    def _():
        c = ct.cycle_taux_fan_calcule(11.0, 41.0, 1620.0, 230.0, ct.Gaz(), ct.Gaz(1.33, 291.6, 42.8e6), 0.58)
        c.calculs_5_to_9()
        return flat(c.F, c.mk_spe, c.eta)

    @prog("cycle-one-shot")
    def _():
        return flat(*dc.calculs(6.0, 30.0, 1500.0, 100.0, 0.5))

    @prog("euler", st=lambda: m1.state(1.4 * np.ones(6), 0.6 * np.ones(6), np.ones(6)), bl=lambda: {"type": "RH", "dM0dx": 0.1}, br=lambda: {"type": "sym"})
    def _(st, bl, br):
        o = Eu.Euler1D(6, 0.0, 1.0)
        o.set_basestate(st)
        o.set_BC(bl, br)
        B, M = o.get_RHS_time_matrices()
        return flat(B, M)

    @prog("euler-sym", st=lambda: m1.state(1.2 * np.ones(6), 0.3 * np.ones(6), np.ones(6), gamma=1.3))
    def _(st):
        o = Eu.Euler1D(6, 0.0, 2.0)
        o.set_basestate(st)
        o.set_BC("sym", "sym")
        B, M = o.get_RHS_time_matrices()
        v, V = o.solve_eig()
        o.select_and_sort(realmin=-1e9)
        return flat(B, M, np.sort(np.abs(v[np.abs(v) < 1e3])))

    @prog("orr-sommerfeld")
    def _():
        o = OS.Poiseuille(10, 1.0, 500.0)
        v, V = o.solve_eig()
        i = int(np.argmin(np.abs(v - (0.3 - 0.2j))))
        w, e = o.converge_eigenpair(v[i], V[:, i], niter=2)
        return flat(np.sort(v.real[np.abs(v) < 10.0]), w)

    @prog("orr-sommerfeld-3")
    def _():
        o = OS.Poiseuille(9, 0.7, 300.0)
        v, V = o.solve_eig()
        i = int(np.argmin(np.abs(v - (0.3 - 0.2j))))
        w, e = o.converge_eigenpair(v[i], V[:, i], niter=2)
        return flat(np.sort(v.real[np.abs(v) < 10.0]), w)

    @prog("orr-sommerfeld-2")
    def _():
        o = OS.OrrSommerfeldModel(8, -1.0, 1.0)
        o.set_basestate({"alpha": 0.5, "Reynolds": 100.0, "uprofile": lambda y: y})
        o.set_BC("wall", "wall")
        B, M = o.get_RHS_time_matrices()
        return flat(B, M)

    @prog("orr-sommerfeld-real")
    def _():
        o = OS.Poiseuille(8, 1.0, 200.0)
        v, V = o.solve_eig()
        i = int(np.argmin(np.abs(v - (0.3 - 0.2j))))
        w, e = o.converge_eigenpair(v[i].real, V[:, i].real.copy(), niter=1)
        return flat(w, np.abs(e))

    words = lambda *t: [float(sum(ord(c) * (i + 1) for i, c in enumerate(v))) for v in t]

    @prog("texts")
    def _():
        s = US(np.array([1.0, 2.0]), 0.5, 3.0)
        pb = rm.riemann_pb(US(1.0, 0.0, 1.0), US(0.125, 0.0, 0.1))
        pi = ui.inflow_pb(US(1.0, 0.1, 1.0))
        pi.solve_with_pt0_rtt0(1.5, 1.25)
        c = ct.cycle_taux_fan_fixe(6.0, 32.0, 1400.0, 180.0, ct.Gaz(), ct.Gaz(1.33, 291.6, 42.8e6), 1.5)
        c.calculs_5_to_9()
        c.show_perfo()
        c.show_attributes()
        dv.dicoVar.printDatabase()
        return words(repr(s), str(s), repr(pb), str(pb), repr(pi), str(m1.state(1.0, 2.0, 3.0)))

    @prog("expressions")
    def _():
        return [float(sum(ord(c) * (i + 1) for i, c in enumerate(v))) for k, v in sorted(ev.expressions_from_rhopv().items())]

    # the same computations with every parameter changed: name + "~"
    if variants:
        @prog("isentropic~", M=A(0.7, 1.9, 3.5), g=1.6)
        def _(M, g):
            return flat(Is.TtTs_Mach(M, g), Is.PtPs_Mach(M, g), Is.Mach_PtPs(2 + M, g), Is.Mach_TtTs(1.5 + M, g), Is.Velocity_MachTt(M, 410.0, 250.0, gamma=g), cf.PtPs_Mach(2 * M))

        @prog("massflow~", s=A(1.1, 2.7, 5.0), g=1.15)
        def _(s, g):
            return flat(mf.MachSub_Sigma(s, g), mf.MachSup_Sigma(s, g), mf.Sigma_Mach(s, g), mf.WeightMassFlow(s, gamma=g))

        @prog("massflow:1.4~", s=A(1.4, 2.7, 4.0))
        def _(s):
            return flat(mf.MachSub_Sigma(s), mf.MachSup_Sigma(s), mf.Mach_Sigma(2.7, 2.4))

        @prog("supersonic~", M=A(1.2, 1.8, 5.0), g=1.2)
        def _(M, g):
            return flat(sup.PrandtlMeyer_Mach(M, g), sup.Mach_PrandtlMeyer(np.array([8.0, 21.0]), g), sup.IsentropicPsratio_Mach_deflection(3.0, -9.0, g), sup.deflection_Mach_IsentropicPsratio(M, 0.4, g))

        @prog("supersonic:1.4~", M=A(1.1, 2.7, 4.0))
        def _(M):
            return flat(sup.PrandtlMeyer_Mach(M), sup.Mach_PrandtlMeyer(33.0), sup.Mach_PMFmmu(M * 1.2))

        @prog("normal-shock~", M=A(1.6, 3.0, 9.0), g=1.55)
        def _(M, g):
            return flat(sw.Ps_ratio(M, g), sw.Rho_ratio(M, g), sw.downstream_Mn(M, g), sw.Pt_ratio(M, g), sw.Mn_Ps_ratio(M, g), sw.Mn_Pt_ratio(0.5, g))

        @prog("oblique-shock~", d=A(4.0, -2.0, 12.0), g=1.6)
        def _(d, g):
            return flat(sw.sigma_Mach_deflection(3.5, d, gamma=g), sw.weaksigma_Mach_deflection(3.5, 11.0, g), sw.strongsigma_Mach_deflection(3.5, 11.0, g), sw.dev_Max(3.5, g), sw.dev_Sonic(3.5, g), sw.deflection_Mach_sigma(3.5, 33.0, g))

        @prog("fanno-rayleigh~", M=A(0.6, 1.4, 3.0), g=1.6)
        def _(M, g):
            return flat(fa.maxFparam_Mach(M, g), fa.Pi_Picri(M, g), fa.NormdS(M, g), ra.Ti_Ticri(M, g), ra.Pi_Picri(M, g), ra.NormdS(M, g), ra.SubMach_TiTicri(0.6, g), ra.SupMach_TiTicri(0.8, g))

        @prog("thrust~", M=A(1.3, 2.4, 2.9))
        def _(M):
            return flat(pr.ThrustFunction(M), pr.Mach_ThrustFunction(pr.ThrustFunction(M), M * 1.03))

        @prog("thermo~")
        def _():
            return flat(tr.Gamma(1100.0), tr.Cp(1100.0), tr.Enthalpy(1100.0), tr.Phi(1100.0), tk.Cp(1100.0), tk.Phi(1100.0), tk.Pc_eff(1100.0))

        @prog("degree~", a=A(-20.0, 33.0, 71.0))
        def _(a):
            return flat(deg.cos(a), deg.atan(deg.tan(a)), deg.atan2(a, 2 * a))

        @prog("state~", rho=A(0.5, 2.2), u=A(990.0, 1100.0), p=A(2e5, 0.7e5))
        def _(rho, u, p):
            s = m1.state(rho, u, p, gamma=1.5)
            r = s.state_RH()
            i = s.state_isentropic_Mach(0.4)
            c = s.copy()
            c.compute_from_pt_rtt_M(3e5, 5e4, 0.8)
            return flat(s.rho, s.u, s.p, r.rho, r.u, r.p, i.rho, i.u, i.p, c.rho, c.u, c.p, s.Ptot(), s.rTtot(), s.Mach(), s[1].massflow())

        @prog("inflow~", q=lambda: US(2.0, -0.3, 1.5, gamma=1.6))
        def _(q):
            pb = ui.inflow_pb(q)
            pb.solve_with_pt0_rtt0(2.7, 0.9)
            return flat(pb.ustar(), pb.pstar(), pb.qstarL().rho, pb.qstarR().rho)

        @prog("riemann-shocks~")
        def _():
            return rp((1.0, 1.5, 1.0), (2.0, -1.0, 1.3), (1.2, 1.7))

        def nozv(name, npr, g, sec):
            @prog(name, x=lambda: 2 * x, section=sec)
            def _(x, section):
                n = nz.nozzle(x, section, NPR=npr, gamma=g)
                return flat(n.Mach(), n.Ps(), n.Ptot(), n.NPR0, n.NPRsw, n.NPR1)

        nozv("nozzle:1.05:1.3~", 1.03, 1.5, lambda: 2 + 3 * (x - 0.5) ** 2)
        nozv("nozzle:1.4:1.3~", 1.45, 1.2, lambda: 2 + 5 * (x - 0.5) ** 2)
        nozv("nozzle:1.4:1.4~", 1.75, 1.5, lambda: 2 + 4 * (x - 0.3) ** 2)
        nozv("nozzle:8:1.2~", 30.0, 1.6, lambda: 2 + 5 * (x - 0.6) ** 2)

        @prog("collocation~", f=A(1.0, -1.0, 2.0, 3.0, 5.0), y=A(-1.3, 0.2, 2.1))
        def _(f, y):
            c = ns.ChebCollocation(5, -2.0, 3.0)
            return flat(c.x, c.matder(1), c.matder(3), c.matder(2), c.extrapol(f, y))

        @prog("ode~", y=A(2.0, -0.7))
        def _(y):
            F = lambda x, y: np.array([3 * y[1], -2 * y[0] + x])
            a, b = ode.RK4(F, 0.3, y, 0.9, 0.15), ode.RKF45(F, 0.2, y, 1.5, 0.2, tol=1e-5)
            return flat(a[0], a[1], b[0], b[1])

        HOT = dict(gam_cold=1.33, gam_hot=1.25, r_cold=300.0, r_hot=310.0, xi_inlet=0.93, xi_cc=0.91, eta_cc=0.9, Pci=50e6, etapolCHP=0.8, etapolTHP=0.83, eta_shaft=0.95)

        @prog("gasgenerator~", Tt4=A(1250.0, 1900.0))
        def _(Tt4):
            g = gg.base(6.0, Tt4, **HOT)
            g.flight_conditions(300.0, 1e5, 0.3)
            g.update()
            return flat(g.Tt3, g.far, g.Pt45, g.Tt45, g.Wsp_cc())

        @prog("turbojet~", Tt4=A(1250.0, 1900.0))
        def _(Tt4):
            g = tj.turbojet_opt(7.0, Tt4, xi_nozzle=0.92, **HOT)
            g.flight_conditions(300.0, 1e5, 0.3)
            g.update()
            return flat(g.V9, g.spec_thrust(), g.thermal_efficiency(), g.Sfc())

        @prog("turbofan~", Tt4=A(1350.0, 1900.0))
        def _(Tt4):
            g = tf.turbofan_adapt(14.0, Tt4, 8.0, 0.8, xi_nozzle=0.97, etapolTBP=0.85, etapolfan=0.82, **HOT)
            g.flight_conditions(300.0, 1e5, 0.3)
            g.update()
            return flat(g.V9, g.norm_thrust(), g.thermal_efficiency())

        @prog("cycle-fixed~")
        def _():
            c = ct.cycle_taux_fan_fixe(4.4, 25.0, 1550.0, 220.0, ct.Gaz(1.38, 290.0), ct.Gaz(1.3, 300.0, 45e6), 1.5)
            c.calculs_5_to_9()
            return flat(c.F, c.mk_spe, c.eta)

        @prog("cycle-computed~")
        def _():
            c = ct.cycle_taux_fan_calcule(7.0, 30.0, 1500.0, 200.0, ct.Gaz(1.38, 290.0), ct.Gaz(1.3, 300.0, 45e6), 0.7)
            c.calculs_5_to_9()
            return flat(c.F, c.mk_spe, c.eta)

        @prog("cycle-one-shot~")
        def _():
            return flat(*dc.calculs(4.0, 25.0, 1600.0, 150.0, 0.4))

        @prog("euler~", st=lambda: m1.state(1.1 * np.ones(6), 0.7 * np.ones(6), 2 * np.ones(6)), bl=lambda: {"type": "RH", "dM0dx": -0.3}, br=lambda: {"type": "sym"})
        def _(st, bl, br):
            o = Eu.Euler1D(6, -1.0, 2.0)
            o.set_basestate(st)
            o.set_BC(bl, br)
            B, M = o.get_RHS_time_matrices()
            return flat(B, M)

        @prog("orr-sommerfeld-2~")
        def _():
            o = OS.OrrSommerfeldModel(8, -2.0, 1.5)
            o.set_basestate({"alpha": 0.9, "Reynolds": 370.0, "uprofile": lambda y: 0.3 - y * y})
            o.set_BC("wall", "wall")
            B, M = o.get_RHS_time_matrices()
            return flat(B, M)
    return L
