import itertools

import numpy as np

from mc import core

PROP = {
    "id": "C22",
    "title": "Gas generator, turbojet and turbofan balances",
    "statement": "For every feasible cycle, each station of the engine satisfies its balance: stagnation conditions of the flight, losses, polytropic compression and expansion, energy balance of the combustion chamber and of each shaft, expansion of each jet to the ambient pressure. Thrust, kinetic power, efficiencies and consumption are the ones of these stations. After any sequence of changes of parameters and flight conditions, an update gives what a new engine with these values gives, for arrays element by element as for scalars.",
    "quantifier": {"over": ["inputs", "histories"], "text": "pressure ratios x turbine temperatures x flight Mach numbers x bypass ratios x fan power fractions x gases (cold and hot) x efficiencies and losses (ideal or not, one at a time and together); all sequences of changes up to a depth"},
    "why_tests_cant": "No existing test runs the engine models.",
    "anchors": {
        "files": ["aerokit/engine/gasgenerator.py", "aerokit/engine/turbojet.py", "aerokit/engine/turbofan.py"],
        "state": [{"name": "parameters, flight conditions and stations", "where": "aerokit/engine/gasgenerator.py", "meaning": "stations of the last update"}],
        "mechanism": [{"name": "chain of station updates through the three models", "where": "aerokit/engine/turbofan.py"}],
        "observe_at": ["update, station attributes, thrust and efficiencies"],
    },
}
LEVEL = "model_checking"
TECH = "exhaustive enumeration of cycles on the real code against station balances, and breadth-first search over histories of parameter changes and updates"
NOTE = "Complete over the stated lattice and histories; infeasible cycles (turbine unable to drive the compressor, jets unable to expand) are left out."
RULE = "every combination of the lattice and every history up to the depth; non-trivial = at least one loss or efficiency different from 1"

CP = lambda g, r: g * r / (g - 1)
STATIONS0 = ("Tt0", "Pt0", "V0", "Pt2", "Tt2", "Pt3", "Tt3", "Pt4", "far", "Tt45", "Pt45")


def reference(kind, p):
    """independent solution of the balances; None when infeasible"""
    g, gh, r, rh = p["gam_cold"], p["gam_hot"], p["r_cold"], p["r_hot"]
    c, ch = CP(g, r), CP(gh, rh)
    o = {}
    a0 = np.sqrt(g * r * p["T0"])
    o["V0"] = p["M0"] * a0
    o["Tt0"] = p["T0"] + o["V0"] ** 2 / (2 * c)
    o["Pt0"] = p["P0"] * np.exp(c / r * np.log(o["Tt0"] / p["T0"]))
    o["Tt2"], o["Pt2"] = o["Tt0"], o["Pt0"] * p["xi_inlet"]
    o["Pt3"] = o["Pt2"] * p["OPR"]
    # polytropic: cp dT/T = r dP/P / eta
    o["Tt3"] = o["Tt2"] * np.exp(r / c / p["etapolCHP"] * np.log(p["OPR"]))
    o["Pt4"] = o["Pt3"] * p["xi_cc"]
    den = p["eta_cc"] * p["Pci"] - ch * p["Tt4"]
    o["far"] = (ch * p["Tt4"] - c * o["Tt3"]) / den
    o["Tt45"] = p["Tt4"] - c * (o["Tt3"] - o["Tt2"]) / (p["eta_shaft"] * ch * (1 + o["far"]))
    if not (o["far"] > 1e-6 and den > 0 and o["Tt45"] > 0.15 * p["Tt4"]):
        return None
    o["Pt45"] = o["Pt4"] * np.exp(ch / rh / p["etapolTHP"] * np.log(o["Tt45"] / p["Tt4"]))
    m = 1 + o["far"]
    if kind == "turbojet" and o["Pt45"] * p["xi_nozzle"] < p["P0"] * 0.999:
        # nothing left to expand: no jet
        o.update(Pt9=p["P0"], V9=0.0, M9=0.0, norm_thrust=-o["V0"], spec_thrust=-o["V0"], Wsp_cc=o["far"] * p["Pci"], Wsp_kinEn=-0.5 * o["V0"] ** 2)
        return o
    if o["Pt45"] <= p["P0"]:
        return None
    o["Wsp_cc"] = o["far"] * p["Pci"]
    T19 = o["Tt45"] * np.exp(rh / ch * np.log(p["P0"] / o["Pt45"]))
    o["Wsp_TBP_ideal"] = m * ch * (o["Tt45"] - T19)
    if kind == "gasgenerator":
        o["thermal_efficiency"] = o["Wsp_TBP_ideal"] / o["Wsp_cc"]
        return o

    def jet(Pt, Tt, cc, rr):
        T = Tt * np.exp(-rr / cc * np.log(Pt / p["P0"]))
        return np.sqrt(max(2 * cc * (Tt - T), 0.0)), np.sqrt(max(2 * cc * (Tt - T), 0.0) / (cc / (cc - rr) * rr * T))

    if kind == "turbojet":
        o["Pt9"] = o["Pt45"] * p["xi_nozzle"]
        if o["Pt9"] <= p["P0"] * 1.001:
            return None
        o["V9"], o["M9"] = jet(o["Pt9"], o["Tt45"], ch, rh)
        o["norm_thrust"] = o["spec_thrust"] = m * o["V9"] - o["V0"]
        o["Wsp_kinEn"] = 0.5 * (m * o["V9"] ** 2 - o["V0"] ** 2)
    else:
        if o["Pt45"] * p["xi_nozzle"] <= p["P0"] * 1.001:
            return None
        # power available down to the ambient pressure behind the core nozzle
        Tmin = o["Tt45"] * np.exp(rh * p["etapolTBP"] / ch * np.log(p["P0"] / p["xi_nozzle"] / o["Pt45"]))
        W = m * ch * (o["Tt45"] - Tmin) * p["fanpower_ratio"]
        o["Tt5"] = o["Tt45"] - W / (m * ch)
        o["Pt5"] = o["Pt45"] * np.exp(ch / rh / p["etapolTBP"] * np.log(o["Tt5"] / o["Tt45"]))
        o["Pt9"] = o["Pt5"] * p["xi_nozzle"]
        o["V9"], o["M9"] = jet(o["Pt9"], o["Tt5"], ch, rh)
        o["Tt17"] = o["Tt2"] + W * p["eta_shaft"] / (p["bpr"] * c)
        o["Pt17"] = o["Pt2"] * np.exp(c / r * p["etapolfan"] * np.log(o["Tt17"] / o["Tt2"]))
        o["Tt19"] = o["Tt17"]
        o["Pt19"] = o["Pt17"] * p["xi_nozzle"]
        if o["Pt19"] <= p["P0"] * 1.001:
            return None
        o["V19"], o["M19"] = jet(o["Pt19"], o["Tt19"], c, r)
        o["norm_thrust"] = m * o["V9"] - o["V0"] + p["bpr"] * (o["V19"] - o["V0"])
        o["spec_thrust"] = o["norm_thrust"] / (1 + p["bpr"])
        o["Wsp_kinEn"] = 0.5 * (m * o["V9"] ** 2 - o["V0"] ** 2) + 0.5 * p["bpr"] * (o["V19"] ** 2 - o["V0"] ** 2)
    o["thermal_efficiency"] = o["Wsp_kinEn"] / o["Wsp_cc"]
    o["propulsive_efficiency"] = o["norm_thrust"] * o["V0"] / o["Wsp_kinEn"]
    o["thermoprop_efficiency"] = o["thermal_efficiency"] * o["propulsive_efficiency"]
    o["Sfc"] = o["far"] / o["norm_thrust"]
    return o


BASE = {"OPR": 12.0, "Tt4": 1500.0, "gam_cold": 1.4, "gam_hot": 1.33, "r_cold": 287.1, "r_hot": 291.6, "xi_inlet": 0.97, "xi_cc": 0.95, "eta_cc": 0.98, "Pci": 42.8e6, "etapolCHP": 0.9, "etapolTHP": 0.88, "eta_shaft": 0.97,
        "xi_nozzle": 0.96, "etapolTBP": 0.91, "etapolfan": 0.87, "bpr": 4.0, "fanpower_ratio": 0.6, "T0": 220.0, "P0": 23000.0, "M0": 0.7}
CTOR = {
    "gasgenerator": (("OPR", "Tt4"), ("gam_cold", "gam_hot", "r_cold", "r_hot", "xi_inlet", "xi_cc", "eta_cc", "Pci", "etapolCHP", "etapolTHP", "eta_shaft")),
    "turbojet": (("OPR", "Tt4"), ("gam_cold", "gam_hot", "r_cold", "r_hot", "xi_inlet", "xi_nozzle", "xi_cc", "eta_cc", "Pci", "etapolCHP", "etapolTHP", "eta_shaft")),
    "turbofan": (("OPR", "Tt4", "bpr", "fanpower_ratio"), ("gam_cold", "gam_hot", "r_cold", "r_hot", "xi_inlet", "xi_nozzle", "xi_cc", "eta_cc", "Pci", "etapolCHP", "etapolTHP", "etapolTBP", "etapolfan", "eta_shaft")),
}
METHODS = ("Wsp_cc", "Wsp_TBP_ideal", "thermal_efficiency", "Wsp_kinEn", "norm_thrust", "spec_thrust", "propulsive_efficiency", "thermoprop_efficiency", "Sfc")
VEL = ("V9", "M9", "V19", "M19")


def run(ck):
    import aerokit.engine.gasgenerator as gg
    import aerokit.engine.turbofan as tf
    import aerokit.engine.turbojet as tj

    CLS = {"gasgenerator": gg.base, "turbojet": tj.turbojet_opt, "turbofan": tf.turbofan_adapt}

    def make(kind, p, form="kw"):
        pos, kws = CTOR[kind]
        if form == "kw":
            e = CLS[kind](*[p[k] for k in pos], **{k: p[k] for k in kws})
        else:
            e = CLS[kind](*[p[k] for k in pos + kws])
        e.flight_conditions(T0=p["T0"], P0=p["P0"], M0=p["M0"])
        return e

    def value(e, k):
        v = getattr(e, k)
        return v() if k in METHODS else v

    def compare(tag, kind, e, p, ref, nt=True, **co):
        for k, w in ref.items():
            got = ck.call(tag + k, value, e, k)
            if isinstance(got, core.Failure):
                continue
            if k in VEL:
                # a velocity is the root of an enthalpy drop
                s = max(ref["V9"], ref.get("V19", 0.0), 1.0) if k[0] == "V" else 1.0
                ck.true(tag + k, abs(float(got) ** 2 - w**2) <= 1e-9 * s * s + 1e-9 * w * w, nontrivial=nt, model=kind, got=float(got), want=float(w), **co)
            else:
                tol = 1e-9
                if k in ("norm_thrust", "spec_thrust", "propulsive_efficiency", "thermoprop_efficiency", "Sfc", "Wsp_kinEn", "thermal_efficiency"):
                    tol = 1e-6 if ref.get("M9", 1) > 1e-3 else 1e-3
                ck.close(tag + k, float(got), float(w), rtol=tol, atol=1e-12, nontrivial=nt, model=kind, **co)

    LOSSES = ("xi_inlet", "xi_cc", "eta_cc", "etapolCHP", "etapolTHP", "eta_shaft", "xi_nozzle", "etapolTBP", "etapolfan")
    ideal = dict(BASE, **{k: 1.0 for k in LOSSES})
    sets = [("ideal", ideal), ("all", BASE)] + [("only-" + k, dict(ideal, **{k: BASE[k]})) for k in LOSSES] + [("all-but-" + k, dict(BASE, **{k: 1.0})) for k in LOSSES]
    gases = ((1.4, 1.4, 287.1, 287.1), (1.4, 1.33, 287.1, 291.6), (1.3, 1.25, 300.0, 310.0))
    n = 0
    for (sn, s), (g, gh, r, rh), OPR, Tt4, M0 in itertools.product(sets, gases, ck.pick((2.0, 12.0, 40.0), (1.5, 4.0, 12.0, 25.0, 40.0)), ck.pick((1200.0, 1700.0), (1100.0, 1400.0, 1700.0, 2000.0)), ck.pick((0.0, 0.8, 2.0), (0.0, 0.3, 0.8, 1.5, 2.5))):
        p = dict(s, gam_cold=g, gam_hot=gh, r_cold=r, r_hot=rh, OPR=OPR, Tt4=Tt4, M0=M0)
        for kind in CLS:
            for bpr, fr in ck.pick(((0.5, 0.9), (8.0, 0.5), (4.0, 1.0)), ((0.5, 0.9), (2.0, 0.3), (5.0, 0.7), (8.0, 0.5), (12.0, 0.95), (4.0, 1.0))) if kind == "turbofan" else ((4.0, 0.6),):
                q = dict(p, bpr=bpr, fanpower_ratio=fr)
                ref = reference(kind, q)
                if ref is None:
                    continue
                n += 1
                co = dict(losses=sn, gas=str((g, gh, r, rh)), OPR=OPR, Tt4=Tt4, M0=M0, bpr=bpr, fan=fr)
                e = ck.call("build", make, kind, q, ctx=co)
                if isinstance(e, core.Failure) or isinstance(ck.call("update", e.update, ctx=co), core.Failure):
                    continue
                compare("", kind, e, q, ref, nt=sn != "ideal", **co)
    ck.true("lattice-feasible", n > 500, cycles=n)
    # cycles at the limit: nearly no power left for the nozzle, and no jet at all
    n = 0
    for OPR, Tt4, M0, xi, T0 in itertools.product((20.0, 40.0, 60.0), (900.0, 1000.0, 1100.0, 1250.0), (0.0, 0.3, 0.8), (1.0, 0.96, 0.7), (220.0, 290.0)):
        q = dict(BASE, OPR=OPR, Tt4=Tt4, M0=M0, xi_nozzle=xi, T0=T0)
        for kind in ("turbojet", "turbofan"):
            ref = reference(kind, q)
            if ref is None:
                continue
            n += ref["V9"] == 0.0
            co = dict(OPR=OPR, Tt4=Tt4, M0=M0, xi_nozzle=xi, T0=T0)
            e = ck.call("build", make, kind, q, ctx=co)
            if isinstance(e, core.Failure) or isinstance(ck.call("update", e.update, ctx=co), core.Failure):
                continue
            compare("limit:", kind, e, q, ref, **co)
    ck.true("no-jet-cycles", n > 5, cycles=n)
    # off the lattice: slight losses and other units, fuels, bypass ratios and pressure ratios
    n = 0
    OFF = [dict(ideal, **{k: 1 - d}) for k in LOSSES for d in (1e-2, 1e-4, 1e-7)] + [dict(BASE, **{k: BASE[k] * 0.993}) for k in LOSSES]
    OFF += [dict(BASE, **v) for v in (
        dict(OPR=1.02), dict(OPR=1.3, Tt4=777.0), dict(OPR=73.0, Tt4=2300.0), dict(Tt4=2600.0), dict(M0=1e-4), dict(M0=0.0137), dict(M0=0.997), dict(M0=1.0), dict(M0=1.003), dict(M0=3.3, OPR=2.0, Tt4=2100.0),
        dict(T0=1.0, P0=1.0, r_cold=1 / 1.4, r_hot=0.73, Tt4=6.5, Pci=480.0), dict(P0=1e-3), dict(P0=1e7), dict(T0=400.0, P0=101325.0), dict(T0=216.65, P0=101325.0), dict(T0=288.15, P0=101325.0),
        dict(Pci=12e6), dict(Pci=120e6), dict(bpr=0.02), dict(bpr=0.37), dict(bpr=1.0), dict(bpr=57.0, fanpower_ratio=0.97), dict(fanpower_ratio=0.013), dict(fanpower_ratio=0.999), dict(fanpower_ratio=0.5),
        dict(gam_cold=1.63, gam_hot=1.61), dict(gam_cold=1.08, gam_hot=1.06), dict(gam_cold=1.33, gam_hot=1.4), dict(gam_hot=1.4), dict(gam_hot=1.4, r_hot=287.1), dict(r_cold=4124.0, r_hot=500.0, Tt4=1300.0, T0=120.0, Pci=500e6), dict(r_cold=287.0, r_hot=287.0))]
    for i, s in enumerate(OFF):
        for kind, (OPR, Tt4, M0) in itertools.product(CLS, ((None, None, None), (7.7, 1333.0, 0.23), (33.0, 1870.0, 1.27))):
            q = dict(s)
            q.update({k: v for k, v in (("OPR", OPR), ("Tt4", Tt4), ("M0", M0)) if v is not None and s[k] == BASE[k]})
            ref = reference(kind, q)
            if ref is None:
                continue
            n += 1
            co = dict(case=str({k: v for k, v in q.items() if v != BASE[k]}))
            for hist in ("new", "changed", "slightly-changed"):
                e = ck.call("off:build", make, kind, q if hist == "new" else BASE if hist == "changed" else dict(q, **{k: v * (1 + 1e-6) for k, v in q.items()}), ctx=co)
                if isinstance(e, core.Failure) or isinstance(ck.call("off:update", e.update, ctx=co), core.Failure):
                    continue
                if hist != "new":
                    for k in CTOR[kind][0] + CTOR[kind][1] + ("T0", "P0", "M0"):
                        setattr(e, k, q[k])
                    if isinstance(ck.call("off:update", e.update, ctx=co), core.Failure):
                        continue
                compare("off:%s:" % hist, kind, e, q, ref, **co)
    ck.true("off:feasible", n > 250, cycles=n)
    # one quantity at a time, densely: from a new engine and from an engine whose value was another one
    near = [1 - 10.0**-k for k in range(1, 9)]
    n = ck.pick(40, 200)
    AXES = {
        "OPR": [1.0, 1.0 + 1e-6, 1.0 + 1e-3] + list(np.geomspace(1.01, 120.0, 3 * n)),
        "Tt4": list(np.linspace(700.0, 3000.0, 3 * n)),
        "M0": [10.0**-k for k in range(1, 10)] + [1 + i * 10.0**-k for k in range(1, 9) for i in (-1, 1)] + list(np.linspace(0.01, 3.5, 3 * n)),
        "T0": list(np.geomspace(20.0, 600.0, 2 * n)),
        "P0": list(np.geomspace(1e-4, 1e9, 2 * n)),
        "bpr": list(np.geomspace(1e-4, 200.0, 3 * n)),
        "fanpower_ratio": [10.0**-k for k in range(1, 5)] + near + [1.0] + list(np.linspace(0.01, 0.99, 3 * n)),
        "Pci": list(np.geomspace(5e6, 1e10, 2 * n)),
        "gam_cold": list(np.linspace(1.05, 1.7, 2 * n)),
        "gam_hot": list(np.linspace(1.05, 1.7, 2 * n)),
        "r_cold": list(np.geomspace(100.0, 900.0, 2 * n)),
        "r_hot": list(np.geomspace(100.0, 900.0, 2 * n)),
    }
    AXES.update({k: near + [1.0] + list(np.linspace(0.4, 0.995, 2 * n)) for k in LOSSES})
    nd = 0
    for (bn, base), kind in itertools.product((("base", BASE), ("ideal", ideal), ("other", dict(BASE, OPR=5.3, Tt4=1777.0, M0=1.31, T0=251.0, P0=71000.0, bpr=1.7, fanpower_ratio=0.81, gam_cold=1.37, gam_hot=1.29, r_cold=281.0, r_hot=303.0, eta_shaft=0.99, xi_inlet=0.83))), CLS):
        for name, vals in AXES.items():
            if name not in ("T0", "P0", "M0") + CTOR[kind][0] + CTOR[kind][1]:
                continue
            moved = ck.call("axis:build", make, kind, base)
            for v in vals:
                q = dict(base, **{name: float(v)})
                ref = reference(kind, q)
                if ref is None:
                    continue
                nd += 1
                co = dict(base=bn, parameter=name, at=float(v))
                e = ck.call("axis:build", make, kind, q, ctx=co)
                if not isinstance(e, core.Failure) and not isinstance(ck.call("axis:update", e.update, ctx=co), core.Failure):
                    compare("axis:new:", kind, e, q, ref, **co)
                if isinstance(moved, core.Failure):
                    continue
                setattr(moved, name, float(v))
                if not isinstance(ck.call("axis:update", moved.update, ctx=co), core.Failure):
                    compare("axis:moved:", kind, moved, q, ref, **co)
    ck.true("axis:feasible", nd > 500, cycles=nd)
    # flight conditions by default, positional construction, back pressure of the ideal turbine
    for kind in CLS:
        ref = reference(kind, BASE)
        e = make(kind, BASE, "pos")
        e.update()
        compare("positional:", kind, e, BASE, ref)
        q = dict(BASE, T0=1.0, P0=1.0, M0=0.0, Tt4=7.0, Pci=2e5)
        e = make(kind, q)
        e.flight_conditions()
        e.update()
        r = reference(kind, q)
        if r is not None:
            compare("default-flight:", kind, e, q, r)
        q = dict(BASE, **{k: 1.0 for k in LOSSES}, gam_cold=1.4, gam_hot=1.4, r_cold=287.1, r_hot=287.1)
        e = CLS[kind](*[BASE[k] for k in CTOR[kind][0]])
        e.flight_conditions(BASE["T0"], BASE["P0"], BASE["M0"])
        e.update()
        compare("default-parameters:", kind, e, q, reference(kind, q))
    # histories of questions: a back pressure, the ambient one (given, omitted, None), other quantities in between
    for kind in CLS:
        asks = [("P19=%r" % v, v, lambda e, v=v: e.Wsp_TBP_ideal(v)) for v in (1e4, 5e4, 0.0, 0, 1e-300, 1.0)] + [("omitted", None, lambda e: e.Wsp_TBP_ideal()), ("None", None, lambda e: e.Wsp_TBP_ideal(None)), ("keyword", 3e4, lambda e: e.Wsp_TBP_ideal(P19=3e4)), ("efficiency", "eff", lambda e: e.thermal_efficiency()), ("update", "upd", lambda e: e.update())]
        for n in (1, 2, 3):
            for seq in itertools.product(asks, repeat=n):
                e = make(kind, BASE)
                e.update()
                for nm, P19, f in seq:
                    got = ck.call("back-pressure", f, e, ctx=dict(history="/".join(a[0] for a in seq), model=kind))
                    if isinstance(got, core.Failure) or P19 == "upd":
                        continue
                    w = (1 + e.far) * CP(1.33, 291.6) * e.Tt45 * (1 - ((BASE["P0"] if P19 in (None, "eff") else P19) / e.Pt45) ** (0.33 / 1.33))
                    if P19 == "eff":
                        if kind != "gasgenerator":
                            continue
                        w = w / (e.far * BASE["Pci"])
                    ck.close("back-pressure", float(got), w, rtol=1e-10, question=nm, history="/".join(a[0] for a in seq), model=kind)
        e = make(kind, BASE)
        e.update()
        pres = np.array([0.0, 1e4, 2e4, BASE["P0"], 5e4])
        keep = pres.copy()
        got = ck.call("back-pressure:array", e.Wsp_TBP_ideal, pres)
        ck.close("back-pressure:array", got, (1 + e.far) * CP(1.33, 291.6) * e.Tt45 * (1 - (keep / e.Pt45) ** (0.33 / 1.33)), rtol=1e-10, model=kind, at=keep)
        ck.true("back-pressure:argument", np.array_equal(pres, keep), model=kind)
    # flight conditions given again in part: what is not given has its default value
    FC = [dict(T0=250.0, P0=4e4, M0=0.3), dict(T0=1.0), dict(T0=300.0), dict(P0=1.0), dict(P0=5e4), dict(M0=0.0), dict(M0=0.5), dict(M0=0), dict(T0=220.0, P0=2e4), dict(T0=220.0, M0=0.8), dict(P0=3e4, M0=0.8), {}]
    q1 = dict(BASE, Tt4=7.0, Pci=2e5)
    for kind in CLS:
        for n in (1, 2, 3):
            for seq in itertools.product(range(len(FC)), repeat=n):
                if n == 3 and not ck.thorough and seq[0] % 3:
                    continue
                for upd in (True, False) if n > 1 else (True,):
                    hist = "/".join(str(FC[i]) for i in seq)
                    e = make(kind, q1)
                    for i in seq:
                        e.flight_conditions(**FC[i])
                        if upd:
                            with np.errstate(all="ignore"), core.quiet():
                                e.update()
                    want = dict(dict(T0=1.0, P0=1.0, M0=0.0), **FC[seq[-1]])
                    ck.true("flight:conditions", all(getattr(e, k) == v for k, v in want.items()), history=hist, model=kind)
                    with np.errstate(all="ignore"), core.quiet():
                        e.update()
                    ref = reference(kind, dict(q1, **want))
                    if ref is not None:
                        compare("flight:", kind, e, dict(q1, **want), ref, history=hist)
    # arrays of parameters: element by element
    for kind in CLS:
        ax = {"OPR": np.array([4.0, 12.0, 25.0]), "Tt4": np.array([1400.0, 1600.0, 1800.0]), "M0": np.array([0.1, 0.5, 0.8]), "T0": np.array([200.0, 230.0, 288.0]), "P0": np.array([2e4, 3e4, 1e5]), "bpr": np.array([1.0, 5.0, 9.0]), "fanpower_ratio": np.array([0.3, 0.6, 0.8])}
        for names in [(k,) for k in ax] + [("OPR", "Tt4"), ("M0", "T0", "P0"), tuple(ax)]:
            if kind != "turbofan" and any(k in ("bpr", "fanpower_ratio") for k in names) and len(names) < 3:
                continue
            arr = {k: ax[k].copy() for k in names}
            keep = {k: v.copy() for k, v in arr.items()}
            e = ck.call("array", make, kind, dict(BASE, **arr))
            if isinstance(e, core.Failure) or isinstance(ck.call("array", e.update, ctx={"arrays": names, "model": kind}), core.Failure):
                continue
            for i in range(3):
                ref = reference(kind, dict(BASE, **{k: float(v[i]) for k, v in keep.items()}))
                for k, w in ref.items():
                    got = ck.call("array", value, e, k)
                    if not isinstance(got, core.Failure):
                        got = np.asarray(got) * np.ones(3)
                        ck.close("array:" + k, float(got[i]), float(w), rtol=1e-6, model=kind, arrays=str(names), index=i)
            ck.true("array:arguments", all(np.array_equal(arr[k], keep[k]) for k in names), model=kind, arrays=str(names))
    # arrays of cycles of different kinds: with and without jet, at every place
    pool = {True: [], False: []}
    for OPR, Tt4, M0, T0 in itertools.product((4.0, 20.0, 55.0), (800.0, 930.0, 1400.0), (0.0, 0.45), (220.0, 301.0)):
        q = dict(BASE, OPR=OPR, Tt4=Tt4, M0=M0, T0=T0, xi_nozzle=0.6)
        ref = reference("turbojet", q)
        if ref is not None:
            pool[ref["V9"] == 0.0].append((q, ref))
    nmix = 0
    for i, (qn, rn) in enumerate(pool[True]):
        for j, (qj, rj) in enumerate(pool[False]):
            if not ck.thorough and (i + j) % 3:
                continue
            for pat in ((0, 1), (1, 0), (0, 0, 1), (1, 0, 1), (0, 0)):
                seq = [(qn, rn), (qj, rj)]
                arr = {k: np.array([seq[t][0][k] for t in pat]) for k in ("OPR", "Tt4", "M0", "T0")}
                nmix += 1
                co = dict(cycles=str([tuple(float(arr[k][t]) for k in arr) for t in range(len(pat))]))
                e = ck.call("mixed", make, "turbojet", dict(BASE, xi_nozzle=0.6, **arr), ctx=co)
                if isinstance(e, core.Failure) or isinstance(ck.call("mixed", e.update, ctx=co), core.Failure):
                    continue
                for k in rn:
                    got = ck.call("mixed", value, e, k, ctx=co)
                    if isinstance(got, core.Failure):
                        continue
                    if not ck.true("mixed:shape", np.shape(got) in ((), (len(pat),)), quantity=k, **co):
                        continue
                    got = np.asarray(got, dtype=float) * np.ones(len(pat))
                    for t, w in enumerate(pat):
                        want = float(seq[w][1][k])
                        s = 1e-9 * (1.0 + rj.get(k, 0.0) ** 2) if k in VEL else None
                        ok = abs(got[t] ** 2 - want**2) <= s + 1e-9 * want**2 if k in VEL else abs(got[t] - want) <= 1e-6 * abs(want) + 1e-9 + (1e-4 * rj["V9"] if k == "Wsp_kinEn" else 1e-4 if "thrust" in k else 0)
                        ck.true("mixed:" + k, ok, index=t, got=float(got[t]), want=want, **co)
    ck.true("mixed:lattice", nmix > 20, mixes=nmix)
    # histories: changes of parameters and updates on one object
    CH = {"OPR": 20.0, "Tt4": 1700.0, "xi_inlet": 0.9, "etapolCHP": 0.85, "eta_cc": 0.9, "gam_hot": 1.3, "xi_nozzle": 0.9, "bpr": 9.0, "fanpower_ratio": 0.8, "r_cold": 300.0, "gam_cold": 1.37, "flight": None}
    # every parameter and flight condition alone after an update, then back
    MORE = dict(CH, r_hot=310.0, xi_cc=0.9, Pci=50e6, etapolTHP=0.8, eta_shaft=0.9, etapolTBP=0.8, etapolfan=0.8, T0=250.0, P0=30000.0, M0=0.3)
    for kind in CLS:
        for k1, k2 in itertools.product(MORE, MORE):
            if "flight" in (k1, k2) or not {k1, k2} <= {"T0", "P0", "M0"} | set(CTOR[kind][0] + CTOR[kind][1]):
                continue
            e = make(kind, BASE)
            e.update()
            p = dict(BASE)
            for step, k in enumerate((k1, k2)):
                p[k] = MORE[k] if p[k] == BASE[k] else BASE[k]
                setattr(e, k, p[k])
                if isinstance(ck.call("pairs:update", e.update, ctx=dict(model=kind, changed=k1 + "/" + k2)), core.Failure):
                    continue
                ref = reference(kind, p)
                if ref is not None:
                    compare("pairs:", kind, e, p, ref, changed=k1 + "/" + k2, step=step)


    def explore(kind, depth):
        def change(k):
            def f(I, S):
                if k == "flight":
                    v = (250.0, 4e4, 0.3) if S["p"]["T0"] == 220.0 else (220.0, 23000.0, 0.7)
                    I["e"].flight_conditions(*v)
                    S["p"].update(dict(zip(("T0", "P0", "M0"), v)))
                else:
                    v = CH[k] if S["p"][k] == BASE[k] else BASE[k]
                    setattr(I["e"], k, v)
                    S["p"][k] = v
                S["fresh"] = False

            return ("set-" + k, f)

        def upd(I, S):
            I["e"].update()
            S["fresh"] = True

        def other(I, S):
            o = make(kind, dict(BASE, OPR=5.0, gam_hot=1.25, M0=0.2))
            o.update()
            I["e2"] = o

        def obs(I, S, hist):
            if not S["fresh"]:
                return True
            ref = reference(kind, S["p"])
            n0 = ck.nviol
            for rep in (1, 2):
                compare("history:", kind, I["e"], S["p"], ref, history="/".join(hist), rep=rep)
            return ck.nviol == n0

        names = [k for k in CH if k == "flight" or k in CTOR[kind][0] + CTOR[kind][1]]
        core.bfs(ck, kind, lambda: ({"e": make(kind, BASE)}, {"p": dict(BASE), "fresh": False}), [change(k) for k in names] + [("update", upd), ("other-engine", other)], depth, start=obs)

    explore("gasgenerator", ck.pick(3, 4))
    explore("turbojet", ck.pick(3, 4))
    explore("turbofan", ck.pick(3, 4))
