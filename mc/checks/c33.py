import itertools
import multiprocessing
import os

from mc import core
from mc.cold import Cold
from mc.programs import flat, programs
from mc.sched import Pair, cooperative_locks

PROP = {
    "id": "C33",
    "title": "Concurrent computations on separate objects do not interfere",
    "statement": "Two computations running at the same time in two threads, each on its own objects, give exactly the results they give alone, wherever one is suspended to let the other one run, be the library just imported or used before, and leave the library's default gas and variable names as they were.",
    "quantifier": {"over": ["schedules"], "text": "all schedules with one preemption at any line of the library (both orders) for the listed pairs of computations, from the state of the library right after its import and from its state after other computations; all schedules with two preemptions for short ones"},
    "why_tests_cant": "Tests never run two computations at a time; an interference needs a suspension between two particular lines.",
    "anchors": {
        "files": ["aerokit/instance/nozzle.py", "aerokit/common/defaultgas.py", "aerokit/common/numspectral.py", "aerokit/stability/_base.py", "aerokit/aero/IterativeSolve.py", "aerokit/instance/riemann.py"],
        "state": [{"name": "module level variables", "where": "aerokit", "meaning": "shared by threads"}],
        "observe_at": ["results of both computations"],
    },
}
LEVEL = "model_checking"
TECH = "stateless exploration of thread schedules of the real code under a controlled scheduler (every executed line of the library is a scheduling point, bounded preemptions)"
NOTE = "Complete for one preemption over the listed pairs, and two preemptions for pairs of short computations; calls into numpy and scipy are atomic; locks of the library are scheduling points too."
RULE = "every schedule; non-trivial = at least one preemption strictly inside a computation"


def run(ck):
    cooperative_locks("aerokit")
    import aerokit
    from aerokit.common import defaultgas as dg
    from aerokit.common import dicovar as dv
    from aerokit.instance import nozzle as nz

    progs = programs(variants=True)
    cold = Cold("aerokit")

    def reader():
        # what depends on the shared defaults at run time
        names = [float(sum(ord(c) * (i + 1) for i, c in enumerate(str(dv.dicoVar[k])))) for k in sorted(dv.dicoVar.keys())]
        return flat(dg.gamma(), dg.r_ideal(), nz.Ms_from_AsAc_NPR(2.0, 1.5), names)

    progs.append(("reader", dict, lambda a: reader()))
    P = {n: (b, r) for n, b, r in progs}
    S = Pair(os.path.dirname(aerokit.__file__))

    def defaults():
        return (dg.gamma(), dg.r_ideal(), core.digest(core.snapshot(dv.dicoVar)))

    g0 = defaults()

    def th(n):
        b, r = P[n]
        a = b()
        return lambda: r(a)

    def same(a, b):
        return len(a) == len(b) and all(x == y or abs(x - y) <= 1e-9 * max(1.0, abs(y)) or (x != x and y != y) for x, y in zip(a, b))

    alone, lines = {}, {"cold": {}, "warm": {}}
    for mode in ("cold", "warm"):
        for n in P:
            if mode == "cold":
                cold.restore()
            with core.quiet():
                res, cnt = S.run(th(n), lambda: None, [])
            if not ck.true("alone", res[0][0] == "ok", computation=n, result=str(res[0])[:200], library=mode):
                return
            lines[mode][n] = cnt[0]
            if n in alone:
                ck.true("alone:same", same(res[0][1], alone[n]), computation=n)
            else:
                alone[n] = res[0][1]
            if mode == "warm":
                ck.true("defaults", defaults() == g0, first=n)
    ck.notes["lines"] = lines["warm"]
    L = lines["warm"]

    def execute(job):
        a, b, sw, mode = job
        if mode == "cold":
            cold.restore()
        with core.quiet():
            res, cnt = S.run(th(a), th(b), sw)
        out = []
        for i, n in enumerate((a, b)):
            out.append("" if res[i][0] == "ok" and same(res[i][1], alone[n]) else str(res[i])[:80] if res[i][0] != "ok" else "other values")
        return out, defaults() == g0

    jobs = {}

    def schedule(a, b, sw, mode):
        jobs[a, b, tuple(sw), mode] = 1

    base = [n for n in P if not n.endswith("~")]
    nozzles = [n for n in base if n.startswith("nozzle")]
    fam = [nozzles if ck.thorough else nozzles[1:4], ["massflow", "massflow:1.4", "nozzle:1.4:1.3"], ["supersonic", "supersonic:1.4"], ["normal-shock", "oblique-shock", "isentropic"], ["state", "riemann-1", "riemann-2", "inflow"], ["collocation", "collocation-2"], ["ode"], ["gasgenerator", "turbojet", "turbofan"], ["cycle-fixed", "cycle-computed"], ["euler", "euler-sym"], ["orr-sommerfeld-2", "euler"], ["thrust", "fanno-rayleigh"]]
    pairs = []
    for F in fam:
        pairs += list(itertools.product(F, F))
    mix = ["nozzle:1.4:1.3", "riemann-1", "collocation", "euler-sym", "cycle-fixed", "state", "oblique-shock", "expressions", "thermo"]
    pairs += [p for p in itertools.product(mix, mix) if ck.thorough or {"nozzle:1.4:1.3", "expressions"} & set(p)]
    if ck.thorough:
        pairs += list(itertools.product(base, base)) + [(n, n + "~") for n in base if n + "~" in P]
    pairs = [p for p in dict.fromkeys(pairs) if max(L[p[0]], L[p[1]]) <= ck.pick(300, 450)]
    ck.notes["pairs"] = len(pairs)
    for a, b in pairs:
        for i in range(L[a]):
            schedule(a, b, [i], "warm")
    # every computation against itself, its variants and a reader of the defaults, suspended at the first, second and last
    # execution of every distinct line: also the long ones
    twin = {"conical-shock": ["conical-shock-2"], "conical-shock-2": ["conical-shock"], "conical-shock-inverse": ["conical-shock-2"], "orr-sommerfeld": ["orr-sommerfeld-3"], "orr-sommerfeld-3": ["orr-sommerfeld"],
            "nozzle-functions": ["nozzle-functions-2"], "nozzle:1.4:1.3": ["nozzle-functions"], "nozzle:8:1.2": ["nozzle-functions"], "orr-sommerfeld-real": ["orr-sommerfeld"]}
    for a in base:
        if a == "expressions" and not ck.thorough:
            continue
        for mode in ("warm", "cold"):
            if mode == "cold":
                cold.restore()
            with core.quiet():
                pts = S.points(th(a))
            for b in dict.fromkeys([n for n in (a, a + "~") if n in P] + twin.get(a, []) + ([f for F in fam for f in F if a in F and f != a][: ck.pick(1, 9)]) + ["reader"]):
                if L[b] > 20000:
                    b = "conical-shock-2"
                for i in pts:
                    if L[a] > 20000 and not ck.thorough and i > 3000:
                        continue
                    schedule(a, b, [i], mode)
    two = [(a, b) for a, b in pairs if L[a] * L[b] <= ck.pick(900, 2500)]
    if not ck.thorough:
        two = two[:: max(1, len(two) // 12)]
    ck.notes["pairs-two-preemptions"] = len(two)
    for a, b in two:
        for i, j in itertools.product(range(1, L[a]), range(1, L[b])):
            schedule(a, b, [i, j], "warm")
    # a computation and the same with every parameter changed, both suspended at every distinct line (first execution;
    # the other runs on in between): values put aside and put back by each of them are crossed
    crossed = 0
    for a in base:
        b = a + "~"
        if b not in P:
            continue
        pa, pb = [], []
        for n, o in ((a, pa), (b, pb)):
            with core.quiet():
                o += S.points(th(n), slice(0, 1))
        if len(pa) * len(pb) > ck.pick(6200, 50000) or not ck.thorough and a == "nozzle:1.4:1.4":
            continue
        crossed += 1
        for i, j in itertools.product(pa, pb):
            if i and j:
                schedule(a, b, [i, j], "warm")
    ck.notes["pairs-crossed"] = crossed
    jobs = list(jobs)
    ck.notes["schedules"] = {m: sum(j[3] == m for j in jobs) for m in ("warm", "cold")}
    # long computations first; the schedules are independent of each other (each starts from new objects, and from the
    # library as just imported in cold mode)
    order = sorted(range(len(jobs)), key=lambda k: -(L[jobs[k][0]] + L[jobs[k][1]]))
    results = core.parallel(execute, [jobs[k] for k in order])
    results = dict(zip(order, results))
    for k, (a, b, sw, mode) in enumerate(jobs):
        out, kept = results[k]
        ck.states += 1
        ck.transitions += len(sw)
        ck.traces += 1
        for i, n in enumerate((a, b)):
            ck.true("result", not out[i], computation=n, other=(b, a)[i], schedule=str(list(sw)), first=a, library=mode, outcome=out[i])
        ck.true("defaults", kept, first=a, second=b, schedule=str(list(sw)), library=mode)
