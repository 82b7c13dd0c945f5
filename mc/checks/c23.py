import contextlib
import io
import itertools
import re

import numpy as np

from mc import core
from mc.checks.c22 import CP

PROP = {
    "id": "C23",
    "title": "Step by step turbofan cycle",
    "statement": "Whatever the order in which the stages of the turbofan cycle are requested, before or after new initial values, a stage only produces the values of the complete cycle in the documented order and never a value from missing or outdated stages, and requesting the remaining calculations completes the cycle. Stations, thrust, consumption and efficiencies satisfy the balances of the cycle, for a given fan pressure ratio as for a given fraction of the turbine power. The one-shot computations of the same cycles give the same figures, the parametric study draws them, and the optimum fan ratio equals both exhaust velocities of the ideal cycle.",
    "quantifier": {"over": ["inputs", "histories"], "text": "bypass and pressure ratios x turbine temperatures x fan settings x flight conditions x gases; all sequences of stage requests, changes of flight conditions and re-initialisations up to a depth, on both kinds of cycle"},
    "why_tests_cant": "No existing test runs these modules; call orders are histories.",
    "anchors": {
        "files": ["aerokit/engine/Cycle_Turbofan.py", "aerokit/engine/propu_be.py", "aerokit/engine/propu_be_double_corps.py"],
        "state": [{"name": "current stages of core and fan", "where": "aerokit/engine/Cycle_Turbofan.py", "meaning": "which stations are available"}],
        "mechanism": [{"name": "guards of the stage methods and completion of the cycle", "where": "aerokit/engine/Cycle_Turbofan.py"}],
        "observe_at": ["stage methods, calculs_1_to_4, calculs_5_to_9, station and performance attributes"],
    },
}
LEVEL = "model_checking"
TECH = "breadth-first search over histories of stage requests on the real objects against station balances, and exhaustive lattice of cycles compared across the three implementations"
NOTE = "Complete over the stated lattice and histories; infeasible cycles are left out."
RULE = "every history up to the depth (states deduplicated) and every cycle of the lattice; non-trivial = a stage beyond the combustion chamber is reached"

ETA = dict(xi_e=0.97, eta_c=0.90, eta_f=0.89, eta_comb=0.99, xi_cc=0.95, eta_m=0.98, eta_turb=0.88, xi_tuy=0.97)


def small(k, ref):
    """rounding of a power, which may be the difference of two equal enthalpy flows"""
    return 1e-14 * (ref["m_c"] + ref["m_f"]) * 1e3 * max(ref["Tt3"], ref["Tt13"]) if k.startswith("wu") else 1e-12


def cycle(kind, lam, pic, Tt4, m, gas, fuel, fan, fl=(227e2, 217.0, 0.8), e=ETA):
    """independent balances; gas=(gamma, r), fuel=(gamma, r, heating value)"""
    P0, T0, M0 = fl
    (g, r), (gh, rh, Pk) = gas, fuel
    c, ch = CP(g, r), CP(gh, rh)
    o = {}
    o["V0"] = M0 * np.sqrt(g * r * T0)
    o["Tt0"] = T0 + o["V0"] ** 2 / 2 / c
    o["Pt0"] = P0 * (o["Tt0"] / T0) ** (c / r)
    o["Tt2"], o["Pt2"] = o["Tt0"], o["Pt0"] * e["xi_e"]
    o["m_c"], o["m_f"] = m / (1 + lam), m * lam / (1 + lam)
    o["Tt3"] = o["Tt2"] * pic ** (r / c / e["eta_c"])
    o["Pt3"] = o["Pt2"] * pic
    o["wu_c"] = o["m_c"] * c * (o["Tt3"] - o["Tt2"])
    al = (ch * Tt4 - c * o["Tt3"]) / (e["eta_comb"] * Pk - ch * Tt4)
    o["alpha"], o["m_k"] = al, al * o["m_c"]
    o["Pt4"] = o["Pt3"] * e["xi_cc"]
    mh = o["m_c"] * (1 + al)
    exp = ch / rh / e["eta_turb"]
    if kind == "fixed":
        o["pi_f"] = fan
        o["Tt13"] = o["Tt2"] * fan ** (r / c / e["eta_f"])
        o["wu_f"] = o["m_f"] * c * (o["Tt13"] - o["Tt2"])
        o["Tt5"] = Tt4 - (o["wu_f"] + o["wu_c"]) / (mh * ch * e["eta_m"])
        if al <= 0 or o["Tt5"] < 200:
            return None
        o["Pt5"] = o["Pt4"] * (o["Tt5"] / Tt4) ** exp
        o["pi_t"] = o["Pt4"] / o["Pt5"]
    else:
        o["Tt4_etoile"] = Tt4 - o["wu_c"] / (mh * ch * e["eta_m"])
        if al <= 0 or o["Tt4_etoile"] < 200:
            return None
        o["Pt4_etoile"] = o["Pt4"] * (o["Tt4_etoile"] / Tt4) ** exp
        o["pi_t_c"] = o["Pt4"] / o["Pt4_etoile"]
        th = o["Tt4_etoile"] * (1 - (P0 / o["Pt4_etoile"]) ** (rh / ch))
        o["wu_fan"] = -mh * ch * th * fan
        o["Tt5"] = o["Tt4_etoile"] - th * fan
        o["Pt5"] = o["Pt4_etoile"] * (o["Tt5"] / o["Tt4_etoile"]) ** exp
        o["pi_t_f"] = o["Pt4_etoile"] / o["Pt5"]
        o["Tt13"] = o["Tt2"] - o["wu_fan"] * e["eta_m"] / (o["m_f"] * c)
        o["pi_f"] = (o["Tt13"] / o["Tt2"]) ** (e["eta_f"] * c / r)
    o["Pt13"] = o["Pt2"] * o["pi_f"]
    o["Tt9"], o["Pt9"], o["P9"] = o["Tt5"], o["Pt5"] * e["xi_tuy"], P0
    o["Tt19"], o["Pt19"], o["P19"] = o["Tt13"], o["Pt13"] * e["xi_tuy"], P0
    if o["Pt9"] <= 1.01 * P0 or o["Pt19"] <= 1.01 * P0:
        return None
    for k, cc, rr in (("9", ch, rh), ("19", c, r)):
        T = o["Tt" + k] * (P0 / o["Pt" + k]) ** (rr / cc)
        o["V" + k] = np.sqrt(2 * cc * (o["Tt" + k] - T))
        o["M" + k] = o["V" + k] / np.sqrt(cc / (cc - rr) * rr * T)
    o["F_c"] = o["m_c"] * (o["V9"] - o["V0"])
    o["F_f"] = o["m_f"] * (o["V19"] - o["V0"])
    o["F"] = o["F_c"] + o["F_f"]
    o["F_spe"] = o["F"] / m
    o["mk_spe"] = o["m_k"] / o["F"] * 1e6
    dE = 0.5 * (mh * o["V9"] ** 2 - o["m_c"] * o["V0"] ** 2 + o["m_f"] * (o["V19"] ** 2 - o["V0"] ** 2))
    o["eta_th"] = dE / (Pk * o["m_k"])
    o["eta_prop"] = o["F"] * o["V0"] / dE
    o["eta"] = o["eta_th"] * o["eta_prop"]
    return o


def run(ck):
    import aerokit.engine.Cycle_Turbofan as ct
    import aerokit.engine.propu_be as be
    import aerokit.engine.propu_be_double_corps as dc

    CLS = {"fixed": ct.cycle_taux_fan_fixe, "computed": ct.cycle_taux_fan_calcule}
    AIR, FUEL = (1.4, 287.0), (1.33, 291.6, 42.8e6)

    def make(kind, lam, pic, Tt4, m, gas, fuel, fan):
        return CLS[kind](lam, pic, Tt4, m, ct.Gaz(*gas), ct.Gaz(*fuel), fan)

    ck.true("gas", ct.Gaz().gamma == 1.4 and ct.Gaz().r == 287.0 and abs(ct.Gaz(1.3, 300.0).get_cp() / (300 * 1.3 / (1.3 - 1.0)) - 1) < 1e-12)
    FINAL = ("F", "F_spe", "mk_spe", "eta_th", "eta_prop", "eta")
    GAS = ((AIR, FUEL), ((1.35, 290.0), (1.3, 300.0, 40e6)), ((1.4, 287.0), (1.4, 287.0, 120e6)))
    cnt = 0
    for kind, (gas, fuel), lam, pic, Tt4, m in itertools.product(CLS, GAS, ck.pick((0.5, 6.1, 11.0), (0.3, 1.0, 3.0, 6.1, 9.0, 12.0)), ck.pick((5.0, 32.8), (3.0, 10.0, 20.0, 32.8, 45.0)), (1410.0, 1620.0, 1900.0), (1.0, 180.0)):
        for fan in ((1.3, 1.6, 2.2) if kind == "fixed" else (0.3, 0.58, 0.8)):
            for fl in ck.pick(((227e2, 217.0, 0.8), (101325.0, 288.0, 0.0)), ((227e2, 217.0, 0.8), (101325.0, 288.0, 0.0), (5e4, 250.0, 0.4), (1e4, 220.0, 1.6))):
                ref = cycle(kind, lam, pic, Tt4, m, gas, fuel, fan, fl)
                if ref is None:
                    continue
                cnt += 1
                co = dict(cycle=kind, bypass=lam, pi_c=pic, Tt4=Tt4, m=m, fan=fan, flight=str(fl), gas=str(fuel[:2]))
                c = ck.call("build", make, kind, lam, pic, Tt4, m, gas, fuel, fan, ctx=co)
                if isinstance(c, core.Failure):
                    continue
                if fl != (227e2, 217.0, 0.8):
                    c.P0, c.T0, c.M0 = fl
                    c.InitialValues()
                    c.calculs_1_to_4()
                if isinstance(ck.call("complete", c.calculs_5_to_9, ctx=co), core.Failure):
                    continue
                for k, w in ref.items():
                    ck.close("cycle:" + k, float(getattr(c, k, np.nan)), float(w), rtol=1e-9, atol=small(k, ref), **co)
    ck.true("lattice-feasible", cnt > 60, cycles=cnt)
    ck.true("class-defaults", (ct.cycle_1_to_4.P0, ct.cycle_1_to_4.T0, ct.cycle_1_to_4.M0) == (227e2, 217.0, 0.8))

    # off the lattice, and parameters of an existing cycle replaced (slightly, or for good) before it is made again
    OFF = [dict(e=dict(ETA, **{k: v})) for k in ETA for v in (1.0, 1 - 1e-6, 0.83)] + [dict(e={k: 1.0 for k in ETA}), dict(e={k: ETA[k] * 0.991 for k in ETA})]
    OFF += [dict(lam=0.013), dict(lam=1.0), dict(lam=37.0, fan={"fixed": 1.17, "computed": 0.86}), dict(pic=1.05), dict(pic=2.2), dict(pic=77.0), dict(Tt4=1111.0), dict(Tt4=2450.0), dict(m=1e-6), dict(m=1e6), dict(m=0.37), dict(fl=(101325.0, 288.15, 1e-4)), dict(fl=(101325.0, 216.65, 0.997)), dict(fl=(1.0, 250.0, 1.0)), dict(fl=(1e7, 333.0, 1.013)), dict(fl=(23e3, 217.0, 2.7), pic=4.0),
            dict(fan={"fixed": 1.07, "computed": 0.11}), dict(fan={"fixed": 3.3, "computed": 0.93}), dict(gas=(1.63, 2077.0), fuel=(1.6, 2000.0, 120e6)), dict(gas=(1.11, 150.0), fuel=(1.09, 140.0, 12e6)), dict(fuel=(1.33, 291.6, 120e6)), dict(fuel=(1.33, 291.6, 9e6)), dict(gas=(1.33, 291.6))]
    cnt = 0
    for kind, case in itertools.product(CLS, OFF):
        for lam, pic, Tt4, m, fan in ((6.1, 32.8, 1410.0, 180.0, {"fixed": 1.6, "computed": 0.58}), (2.7, 17.3, 1777.0, 53.0, {"fixed": 1.9, "computed": 0.43})):
            q = dict(dict(lam=lam, pic=pic, Tt4=Tt4, m=m, fan=fan, gas=AIR, fuel=FUEL, fl=(227e2, 217.0, 0.8), e=ETA), **case)
            ref = cycle(kind, q["lam"], q["pic"], q["Tt4"], q["m"], q["gas"], q["fuel"], q["fan"][kind], q["fl"], q["e"])
            if ref is None:
                continue
            cnt += 1
            for hist in ("new", "changed", "slightly-changed"):
                co = dict(cycle=kind, case=str(case), base=lam, history=hist)
                x = 1 + 1e-6
                a = [q["lam"], q["pic"], q["Tt4"], q["m"], q["gas"], q["fuel"], q["fan"][kind]]
                b = a if hist == "new" else [6.1, 32.8, 1410.0, 180.0, AIR, FUEL, fan[kind]] if hist == "changed" else [a[0] * x, a[1] * x, a[2] * x, a[3] * x, (a[4][0] * x, a[4][1] * x), (a[5][0] * x, a[5][1] * x, a[5][2] * x), a[6] * x]
                c = ck.call("off:build", make, kind, *b, ctx=co)
                if isinstance(c, core.Failure):
                    continue
                if hist != "new":
                    if isinstance(ck.call("off:complete", c.calculs_5_to_9, ctx=co), core.Failure):
                        continue
                    c.lambda_, c.pi_c, c.Tt4, c.m, c.g, c.g_fuel = a[0], a[1], a[2], a[3], ct.Gaz(*a[4]), ct.Gaz(*a[5])
                    setattr(c, "pi_f" if kind == "fixed" else "taux_meca", a[6])
                c.P0, c.T0, c.M0 = q["fl"]
                for k, v in q["e"].items():
                    setattr(c, k, v)
                c.InitialValues()
                c.calculs_1_to_4()
                if isinstance(ck.call("off:complete", c.calculs_5_to_9, ctx=co), core.Failure):
                    continue
                for k, w in ref.items():
                    ck.close("off:" + k, float(getattr(c, k, np.nan)), float(w), rtol=1e-8, atol=small(k, ref), **co)
    ck.true("off:feasible", cnt > 80, cycles=cnt)
    # one quantity at a time, densely: from a new cycle and from a cycle whose value was another one
    near = [1 - 10.0**-k for k in range(1, 9)]
    n = ck.pick(40, 200)
    AX = {
        "lam": list(np.geomspace(1e-3, 100.0, 3 * n)) + [1 + i * 10.0**-k for k in range(1, 8) for i in (-1, 1)],
        "pic": [1.0, 1.0 + 1e-6, 1.001] + list(np.geomspace(1.01, 120.0, 3 * n)),
        "Tt4": list(np.linspace(700.0, 3000.0, 3 * n)),
        "m": list(np.geomspace(1e-6, 1e9, 2 * n)),
        "fan-fixed": list(np.geomspace(1.005, 5.0, 3 * n)),
        "fan-computed": list(np.linspace(0.01, 0.99, 3 * n)),
        "P0": list(np.geomspace(1e-4, 1e9, 2 * n)),
        "T0": list(np.geomspace(20.0, 600.0, 2 * n)),
        "M0": [10.0**-k for k in range(1, 10)] + [1 + i * 10.0**-k for k in range(1, 9) for i in (-1, 1)] + list(np.linspace(0.01, 3.5, 3 * n)),
        "gas-gamma": list(np.linspace(1.05, 1.7, 2 * n)), "gas-r": list(np.geomspace(100.0, 900.0, 2 * n)),
        "fuel-gamma": list(np.linspace(1.05, 1.7, 2 * n)), "fuel-r": list(np.geomspace(100.0, 900.0, 2 * n)), "fuel-heat": list(np.geomspace(5e6, 1e10, 2 * n)),
    }
    AX.update({k: near + [1.0] + list(np.linspace(0.4, 0.995, 2 * n)) for k in ETA})
    nd = 0
    for kind, (bn, base) in itertools.product(CLS, (("base", dict(lam=6.1, pic=32.8, Tt4=1410.0, m=180.0, fan={"fixed": 1.6, "computed": 0.58}, gas=AIR, fuel=FUEL, fl=(227e2, 217.0, 0.8), e=ETA)), ("other", dict(lam=2.7, pic=9.3, Tt4=1777.0, m=53.0, fan={"fixed": 1.9, "computed": 0.43}, gas=(1.37, 281.0), fuel=(1.29, 303.0, 51e6), fl=(71000.0, 251.0, 1.21), e=dict(ETA, xi_e=0.83, eta_m=0.96))))):
        for name, vals in AX.items():
            if name.startswith("fan-") and name != "fan-" + kind:
                continue
            # the same gas objects, whose quantities are changed one by one, are shared with another cycle
            shared = ck.call("axis:build", make, kind, base["lam"], base["pic"], base["Tt4"], base["m"], base["gas"], base["fuel"], base["fan"][kind])
            moved = ck.call("axis:build", make, kind, base["lam"], base["pic"], base["Tt4"], base["m"], base["gas"], base["fuel"], base["fan"][kind])
            for v in vals:
                v = float(v)
                q = dict(base, e=dict(base["e"]), fan=dict(base["fan"]))
                if name in ("lam", "pic", "Tt4", "m"):
                    q[name] = v
                elif name.startswith("fan-"):
                    q["fan"][kind] = v
                elif name in ("P0", "T0", "M0"):
                    q["fl"] = tuple(v if k == name else w for k, w in zip(("P0", "T0", "M0"), q["fl"]))
                elif name in ETA:
                    q["e"][name] = v
                else:
                    w, f = name.split("-")
                    q[w] = tuple(v if k == f else x for k, x in zip(("gamma", "r", "heat"), q[w]))
                ref = cycle(kind, q["lam"], q["pic"], q["Tt4"], q["m"], q["gas"], q["fuel"], q["fan"][kind], q["fl"], q["e"])
                if ref is None:
                    continue
                nd += 1
                for hist in ("new", "moved", "shared"):
                    co = dict(cycle=kind, base=bn, parameter=name, at=v, history=hist)
                    c = ck.call("axis:build", make, kind, q["lam"], q["pic"], q["Tt4"], q["m"], q["gas"], q["fuel"], q["fan"][kind], ctx=co) if hist == "new" else moved if hist == "moved" else shared
                    if isinstance(c, core.Failure):
                        continue
                    if hist == "shared":
                        c.g.gamma, c.g.r = q["gas"]
                        c.g_fuel.gamma, c.g_fuel.r, c.g_fuel.P_k = q["fuel"]
                    if hist == "moved":
                        c.g, c.g_fuel = ct.Gaz(*q["gas"]), ct.Gaz(*q["fuel"])
                    if hist != "new":
                        c.lambda_, c.pi_c, c.Tt4, c.m = q["lam"], q["pic"], q["Tt4"], q["m"]
                        setattr(c, "pi_f" if kind == "fixed" else "taux_meca", q["fan"][kind])
                    c.P0, c.T0, c.M0 = q["fl"]
                    for k, w in q["e"].items():
                        setattr(c, k, w)
                    c.InitialValues()
                    c.calculs_1_to_4()
                    if isinstance(ck.call("axis:complete", c.calculs_5_to_9, ctx=co), core.Failure):
                        continue
                    for k, w in ref.items():
                        ck.close("axis:" + k, float(getattr(c, k, np.nan)), float(w), rtol=1e-8, atol=small(k, ref), **co)
    ck.true("axis:feasible", nd > 500, cycles=nd)
    # one gas object for both streams and for several cycles: it is never altered, and every cycle is complete for it
    for gas, fl, order in itertools.product(((1.4, 287.0, 42.8e6), (1.33, 291.6, 120e6), (1.28, 310.0, 42.8e6)), ((227e2, 217.0, 0.8), (6e4, 250.0, 0.5)), itertools.permutations(range(3))):
        g = ct.Gaz(*gas)
        A = (("fixed", 6.1, 32.8, 1410.0, 180.0, 1.6), ("computed", 11.0, 41.0, 1620.0, 230.0, 0.58), ("fixed", 1.5, 12.0, 1777.0, 53.0, 2.1))
        cs = [ck.call("same-gas:build", CLS[a[0]], *a[1:5], g, g, a[5]) for a in A]
        if any(isinstance(c, core.Failure) for c in cs):
            continue
        for c in cs:
            c.P0, c.T0, c.M0 = fl
            c.InitialValues()
        for i in order:
            cs[i].calculs_1_to_4()
        for i in order:
            cs[i].calculs_5_to_9()
        ck.true("same-gas:kept", (g.gamma, g.r, g.P_k) == gas and all(c.g is g and c.g_fuel is g for c in cs), gas=str(gas), flight=str(fl), order=str(order))
        for i, (c, a) in enumerate(zip(cs, A)):
            ref = cycle(a[0], *a[1:5], gas[:2], gas, a[5], fl)
            if ref is not None:
                for k, w in ref.items():
                    ck.close("same-gas:" + k, float(getattr(c, k, np.nan)), float(w), rtol=1e-8, atol=small(k, ref), gas=str(gas), flight=str(fl), order=str(order), cycle=i)
    ck.true("class-parameters", all(getattr(ct.cycle_1_to_4, k) == v for k, v in ETA.items()))

    # --- the other implementations, with their own constants
    num = r"[-+]?\d+\.?\d*(?:[eE][-+]?\d+)?"
    for lam, pic, Tt4, m, fan in itertools.chain(itertools.product((2.0, 6.1, 11.0), (10.0, 32.8), (1410.0, 1620.0), (50.0, 180.0), (1.3, 1.6, 0.4, 0.7)), itertools.product((0.37, 1.0, 7.7), (6.6, 44.0), (1333.0, 1910.0), (1.0, 1e4), (1.13, 2.1, 0.17, 0.88))):
        kind = "fixed" if fan > 1 else "computed"
        ref = cycle(kind, lam, pic, Tt4, m, AIR, FUEL, fan)
        if ref is None:
            continue
        co = dict(bypass=lam, pi_c=pic, Tt4=Tt4, m=m, fan=fan)
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            r = ck.call("one-shot", be.calculs if kind == "fixed" else dc.calculs, *((lam, pic, Tt4, fan, m) if kind == "fixed" else (lam, pic, Tt4, m, fan)))
        if isinstance(r, core.Failure):
            continue
        if kind == "fixed":
            got = [float(t) for t in re.findall(num, re.sub(r"[A-Za-z_]+\s*=", " ", buf.getvalue()))]
            want = [(ref["wu_c"], 1e-9), (ref["wu_f"], 1e-9), (ref["Tt5"], 1e-9), (ref["F"], 0.51 / ref["F"]), (ref["F_spe"], 0.51 / ref["F_spe"]), (ref["mk_spe"], 1e-9), (ref["eta_th"], 6e-4 / ref["eta_th"]), (ref["eta_prop"], 6e-4 / ref["eta_prop"]), (ref["eta"], 6e-4 / ref["eta"])]
            if ck.true("one-shot:figures", len(got) == len(want), **co):
                for i, (g, (w, t)) in enumerate(zip(got, want)):
                    ck.close("one-shot:fixed", g, float(w), rtol=t, figure=i, **co)
        else:
            for i, k in enumerate(("F_spe", "mk_spe", "eta_th", "eta_prop", "eta", "pi_f")):
                ck.close("one-shot:computed", float(r[i]), float(ref[k]), rtol=1e-9, figure=k, **co)
    # parametric study: three figures (bypass ratio, core pressure ratio, turbine temperature) of five curves
    import matplotlib.pyplot as plt

    for rng in ((1.0, 12.0, 10.0, 45.0, 1300.0, 1700.0), (3.0, 8.0, 20.0, 30.0, 1400.0, 1500.0)):
        plt.close("all")
        if isinstance(ck.call("study", dc.main, *rng), core.Failure):
            continue
        if ck.true("study:figures", len(plt.get_fignums()) == 3, range=str(rng)):
            for i, num_ in enumerate(sorted(plt.get_fignums())):
                axes = plt.figure(num_).axes
                base = [6.1, 32.8, 1410.0]
                if not ck.true("study:axes", len(axes) == 5 and all(len(a.lines) == 1 for a in axes), figure=i):
                    continue
                for j, (a, key) in enumerate(zip(axes, ("F_spe", "mk_spe", "eta_th", "eta_prop", "eta"))):
                    X, Y = a.lines[0].get_data()
                    ck.close("study:range", [float(X[0]), float(X[-1])], list(rng[2 * i : 2 * i + 2]), rtol=1e-12, figure=i, curve=key)
                    for x, y in zip(X, Y):
                        b = list(base)
                        b[i] = float(x)
                        ref = cycle("computed", *b, 180.0, AIR, FUEL, 0.5)
                        if ref is not None:
                            ck.close("study:curve", float(y), float(ref[key]), rtol=1e-9, figure=i, curve=key, at=float(x))
    plt.close("all")
    # optimum: with ideal components and one gas, both exhaust velocities are equal
    keep = {k: getattr(dc, k) for k in list(ETA) + ["gamma_", "r_", "P_k"]}
    try:
        for k in ETA:
            setattr(dc, k, 1.0)
        dc.gamma_, dc.r_, dc.P_k = 1.4, 287.0, 1e13
        for lam, pic, Tt4 in itertools.product((1.0, 3.0, 6.0, 10.0), (8.0, 20.0, 40.0), (1400.0, 1600.0, 1800.0)):
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                r = ck.call("optimum", dc.calculs_tau_optimum, lam, pic, Tt4, 100.0)
            if isinstance(r, core.Failure):
                continue
            tau = float(re.findall(num, buf.getvalue())[0])
            ref = cycle("fixed", lam, pic, Tt4, 100.0, AIR, (1.4, 287.0, 1e13), tau**3.5, e={k: 1.0 for k in ETA})
            if ref is not None:
                ck.close("optimum:velocities", float(ref["V9"]), float(ref["V19"]), rtol=1e-5, bypass=lam, pi_c=pic, Tt4=Tt4)
    finally:
        for k, v in keep.items():
            setattr(dc, k, v)

    # --- histories of stage requests
    ARG = {"fixed": (6.1, 32.8, 1410.0, 180.0, AIR, FUEL, 1.6), "computed": (11.0, 41.0, 1620.0, 230.0, AIR, FUEL, 0.58)}
    FL = ((227e2, 217.0, 0.8), (6e4, 250.0, 0.5))
    STAGES = {"fixed": ("stage_2", "stage_3", "stage_4", "stage_13", "stage_19", "stage_5", "stage_9", "perfo"), "computed": ("stage_2", "stage_3", "stage_4", "stage_4_etoile", "stage_5", "stage_9", "stage_13", "stage_19", "perfo")}
    # what each stage needs, and the values it states
    NEED = {
        "fixed": {"stage_2": ("init",), "stage_3": ("stage_2",), "stage_4": ("stage_3",), "stage_13": ("stage_2",), "stage_19": ("stage_13",), "stage_5": ("stage_4", "stage_13"), "stage_9": ("stage_5",), "perfo": ("stage_9", "stage_19")},
        "computed": {"stage_2": ("init",), "stage_3": ("stage_2",), "stage_4": ("stage_3",), "stage_4_etoile": ("stage_4",), "stage_5": ("stage_4_etoile",), "stage_9": ("stage_5",), "stage_13": ("stage_5",), "stage_19": ("stage_13",), "perfo": ("stage_9", "stage_19")},
    }
    GIVES = {
        "stage_2": ("Tt2", "Pt2"), "stage_3": ("Tt3", "Pt3", "wu_c", "m_c"), "stage_4": ("m_k", "alpha", "Pt4"), "stage_13": ("Tt13", "Pt13", "m_f"), "stage_19": ("V19", "M19", "Tt19", "F_f"), "stage_5": ("Tt5", "Pt5"),
        "stage_4_etoile": ("Tt4_etoile", "Pt4_etoile"), "stage_9": ("V9", "M9", "Tt9", "F_c"), "perfo": FINAL, "init": ("Pt0", "Tt0", "V0"),
    }

    def explore(kind, depth):
        refs = {fl: cycle(kind, *ARG[kind], fl) for fl in FL}
        need = NEED[kind]

        # implementation: the object; model: flight the stages were made for, set of stages done since initial values
        def init():
            return make(kind, *ARG[kind]), {"set": FL[0], "at": FL[0], "done": ["init", "stage_2", "stage_3", "stage_4"]}

        def closure(S):
            for s in STAGES[kind]:
                if s not in S["done"] and all(q in S["done"] for q in need[s]):
                    S["done"] = sorted(S["done"] + [s])

        def stage(s):
            def f(c, S):
                getattr(c, s)()
                if s == "stage_13":  # asking again for the first stage of the fan restarts the fan
                    S["done"] = [d for d in S["done"] if d not in ("stage_19", "perfo")]
                if all(q in S["done"] for q in need[s]) and s not in S["done"]:
                    S["done"] = sorted(S["done"] + [s])

            return (s, f)

        def initial(c, S):
            c.InitialValues()
            S["at"], S["done"] = S["set"], ["init"]

        def flight(c, S):
            S["set"] = FL[1] if S["set"] == FL[0] else FL[0]
            c.P0, c.T0, c.M0 = S["set"]
            c.InitialValues()
            S["at"], S["done"] = S["set"], ["init"]

        def first(c, S):
            c.calculs_1_to_4()
            for s in ("stage_2", "stage_3", "stage_4"):
                if s not in S["done"] and all(q in S["done"] for q in need[s]):
                    S["done"] = sorted(S["done"] + [s])

        def last(c, S):
            c.calculs_5_to_9()
            if "stage_4" in S["done"]:
                closure(S)

        def show(c, S):
            if "perfo" not in S["done"]:
                raise core.Skip
            c.show_perfo()

        def obs(c, S, hist):
            h = "/".join(hist)
            R = refs[S["at"]]
            ok = True
            for d in S["done"]:
                for k in GIVES[d]:
                    ok &= ck.close("history:value", float(getattr(c, k, np.nan)), float(R[k]), rtol=1e-9, nontrivial=len(S["done"]) > 4, cycle=kind, stage=d, name=k, history=h)
            # asking for the rest completes the cycle
            import copy

            c2 = copy.deepcopy(c)
            c2.calculs_1_to_4()
            c2.calculs_5_to_9()
            for k in FINAL:
                ok &= ck.close("history:completed", float(getattr(c2, k, np.nan)), float(R[k]), rtol=1e-9, cycle=kind, name=k, history=h)
            return bool(ok)

        core.bfs(ck, kind, init, [stage(s) for s in STAGES[kind]] + [("initial", initial), ("flight", flight), ("calculs_1_to_4", first), ("calculs_5_to_9", last), ("show", show)], depth, start=obs)

    explore("fixed", ck.pick(4, 6))
    explore("computed", ck.pick(4, 6))
