"""table of the public functions with admissible argument values (used by the broadcast, purity and schedule checks)"""
import numpy as np

G = (1.2, 1.4, 5.0 / 3.0)
SUB = (0.2, 0.55, 0.9)
SUP = (1.2, 2.0, 3.5)
ALL = (0.3, 0.9, 2.0)


WIDE = {
    "TtTs": 1 + np.geomspace(1e-4, 60.0, 64),
    "PtPs": 1 + np.geomspace(1e-4, 1e5, 64),
    "Tt": np.geomspace(1.0, 5000.0, 64),
    "Ti": np.geomspace(1.0, 5000.0, 64),
    "r": np.geomspace(10.0, 5000.0, 64),
    "gamma": np.linspace(1.05, 1.95, 64),
    "om_m_mun": np.linspace(-89.0, 30.0, 64),
    "SubMach_TiTicri": np.linspace(0.002, 0.9995, 64),
    "SupMach_TiTicri": np.linspace(0.56, 0.9995, 64),
    "Mn_Ps_ratio": 1 + np.geomspace(1e-5, 1e4, 64),
    "deflection_Mach_IsentropicPsratio": np.geomspace(0.005, 3.0, 64),
    "sin": np.linspace(-720.0, 720.0, 193), "cos": np.linspace(-720.0, 720.0, 193), "tan": np.linspace(-719.0, 713.0, 193),
    "asin": np.linspace(-1.0, 1.0, 65), "acos": np.linspace(-1.0, 1.0, 65),
    "atan": np.concatenate([-np.geomspace(1e-6, 1e6, 32), [0.0], np.geomspace(1e-6, 1e6, 32)]),
    "atan2": np.linspace(-3.0, 3.0, 61),
}


# functions whose result at very large Mach numbers is a difference of large numbers
BOUNDED = ("IsentropicPsratio_Mach_deflection",)


def axis(values, n=49, argument=None, function=None):
    """dense values of an argument: its whole range"""
    if values == ALL:
        return np.geomspace(0.004, 25.0 if function in BOUNDED else 300.0, n)
    if values == SUP:
        return 1.0 + np.geomspace(1e-4, 24.0 if function in BOUNDED else 300.0, n)
    w = WIDE.get(argument, WIDE.get(function) if argument != "gamma" else None)
    if argument == "gamma" and function in ("SubMach_TiTicri", "SupMach_TiTicri", "strongsigma_Mach_deflection", "weaksigma_Mach_deflection"):
        w = None
    if w is not None:
        return np.interp(np.linspace(0, len(w) - 1, n), np.arange(len(w)), w)
    return np.linspace(min(values), max(values), n)


def table():
    """list of (name, function, {argument: values}, kind) ; kind 'closed' or 'iterative'; the first three values of
    every argument may be combined freely"""
    import aerokit.aero.CompressibleFlow as cf
    import aerokit.aero.Fanno as fa
    import aerokit.aero.Isentropic as Is
    import aerokit.aero.MassFlow as mf
    import aerokit.aero.Propulsion as pr
    import aerokit.aero.Rayleigh as ra
    import aerokit.aero.ShockWave as sw
    import aerokit.aero.Supersonic as sup
    import aerokit.aero.degree as deg

    T = []

    def add(mod, name, kind="closed", **args):
        T.append((mod.__name__.split(".")[-1] + "." + name, getattr(mod, name), args, kind))

    for M in (Is, cf):
        add(M, "TtTs_Mach", Mach=ALL, gamma=G)
        add(M, "PtPs_Mach", Mach=ALL, gamma=G)
        add(M, "Mach_TtTs", TtTs=(1.1, 1.8, 3.0), gamma=G)
        add(M, "Mach_PtPs", PtPs=(1.1, 2.0, 9.0), gamma=G)
        add(M, "Velocity_MachTi", Mach=ALL, **{"Tt" if M is Is else "Ti": (200.0, 300.0, 900.0)}, r=(287.0, 300.0, 518.0), gamma=G)
    add(Is, "Velocity_MachTt", Mach=ALL, Tt=(200.0, 300.0, 900.0), r=(287.0, 300.0, 518.0), gamma=G)
    for M in (mf, cf):
        add(M, "WeightMassFlow", Mach=ALL, r=(287.0, 300.0, 518.0), gamma=G)
        add(M, "Sigma_Mach", Mach=ALL, gamma=G)
        add(M, "Mach_Sigma", "iterative", sigma=(1.3, 1.8, 2.5), Mach=(2.0, 1.9, 2.2), gamma=G)
    add(mf, "MachSub_Sigma", "iterative", sigma=(1.3, 1.8, 2.5), gamma=G)
    add(mf, "MachSup_Sigma", "iterative", sigma=(1.3, 1.8, 2.5), gamma=G)
    for M in (sup, cf):
        add(M, "PrandtlMeyer_Mach", Mach=SUP, gamma=G)
        add(M, "Mach_PrandtlMeyer", "iterative", omega=(5.0, 15.0, 25.0), gamma=G)
        add(M, "deflection_Mach_IsentropicPsratio", Mach=SUP, Pratio=(0.2, 0.5, 0.9), gamma=G)
        add(M, "IsentropicPsratio_Mach_deflection", "iterative", Mach=SUP, dev=(-8.0, -3.0, 1.0), gamma=G)
    add(sup, "Mach_PMFmmu", om_m_mun=(-60.0, -30.0, 5.0), gamma=G)
    for n in ("Ps_ratio", "Rho_ratio", "Ts_ratio", "downstream_Mn", "Pt_ratio", "Pi_ratio"):
        add(sw, n, Mn=SUP, gamma=G)
    add(sw, "Mn_Ps_ratio", Pratio=(1.1, 2.0, 8.0), gamma=G)
    add(sw, "Mn_Pt_ratio", "iterative", ptratio=(0.95, 0.7, 0.4), gamma=G)
    add(sw, "deflection_Mach_sigma", Mach=SUP, sigma=(60.0, 75.0, 89.0), gamma=G)
    add(sw, "deflection_Mach_ShockPsratio", Mach=SUP, Pratio=(1.05, 1.2, 1.3), gamma=G)
    add(sw, "downstreamMach_Mach_ShockPsratio", Mach=SUP, Pratio=(1.05, 1.2, 1.3), gamma=G)
    for n in ("dev_Max", "dev_Sonic", "sigma_DevMax", "sigma_Sonic"):
        add(sw, n, Mach=SUP, gamma=G)
    add(sw, "weaksigma_Mach_deflection", Mach=SUP, deflection=(1.0, 2.0, 3.0), gamma=G)
    add(sw, "strongsigma_Mach_deflection", Mach=SUP, deflection=(1.0, 2.0, 3.0), gamma=G)
    add(sw, "sigma_Mach_deflection", "iterative", Mach=SUP, deflection=(1.0, 2.0, 3.0), gamma=G)
    for n in ("maxFparam_Mach", "Ps_Pscri", "Ts_Tscri", "Rho_Rhocri", "Pi_Picri", "V_Vcri", "NormdS"):
        add(fa, n, Mach=ALL, gamma=G)
    for n in ("maxTiratio_Mach", "Ps_Pscri", "Ts_Tscri", "Ti_Ticri", "Rho_Rhocri", "Pi_Picri", "V_Vcri", "NormdS"):
        add(ra, n, Mach=ALL, gamma=G)
    add(ra, "SubMach_TiTicri", Tiratio=(0.7, 0.9, 0.99), gamma=G)
    add(ra, "SupMach_TiTicri", Tiratio=(0.9, 0.95, 0.99), gamma=(1.2, 1.4, 1.5))
    add(pr, "ThrustFunction", Mach=ALL, gamma=G)
    add(pr, "Mach_ThrustFunction", "iterative", thrust=(1.3, 1.35, 1.4), Mach=(1.9, 2.0, 2.1), gamma=G)
    for n in ("cos", "sin", "tan"):
        add(deg, n, a=(-30.0, 10.0, 200.0))
    for n in ("acos", "asin", "atan"):
        add(deg, n, a=(-0.9, 0.1, 0.7))
    add(deg, "atan2", a=(-0.9, 0.1, 0.7), b=(-0.5, 0.2, 3.0))
    return T
