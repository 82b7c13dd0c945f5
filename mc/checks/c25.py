import contextlib
import io
import itertools
import re

import numpy as np

from mc import core

PROP = {
    "id": "C25",
    "title": "Variable name database and derived variable expressions",
    "statement": "After any sequence of database selections, additions and renamings, every way of asking for a variable name gives the name of the model database: exact key first, then its lowercase form, and an unknown name, an addition of an existing one or a renaming of a missing one is refused and changes nothing; an unknown database is refused and keeps the current one, and selecting a database forgets earlier changes. The derived variable expressions evaluate, with the current names, to total pressure, temperature, entropy, speed, sound speed, Mach numbers and flow angle of the field, and asking for them changes nothing.",
    "quantifier": {"over": ["inputs", "histories"], "text": "all sequences up to a depth of selections (all listed names and unknown ones), additions and renamings; all spellings of names; expressions evaluated on a lattice of states"},
    "why_tests_cant": "No existing test imports these modules; the database is global mutable state whose content depends on the history of calls.",
    "anchors": {
        "files": ["aerokit/common/dicovar.py", "aerokit/common/extendvar.py"],
        "state": [{"name": "current database", "where": "aerokit/common/dicovar.py", "meaning": "names of all variables"}],
        "observe_at": ["dicoVar(...), dicoVar[...], dicoVar.get, keys", "expressions_from_rhopv()"],
    },
}
LEVEL = "model_checking"
TECH = "breadth-first search over all histories of database operations on the real module in lockstep with a dictionary model; expressions evaluated by an independent calculator"
NOTE = "Complete up to the depth; the two shipped databases are read as documented constants."
RULE = "every history up to the depth (states deduplicated) observed with every spelling; non-trivial = at least one operation"

CX = {"P": "P", "p": "P", "Ps": "P", "rho": "RHO", "T": "T", "V": "U", "Vx": "U_X", "Vy": "U_Y", "Vz": "U_Z", "u_avg": "U_AVG", "rho_avg": "RHO_AVG", "tauw_avg": "TauWallAvg", "mulam_avg": "MU_LAM_AVG", "t_avg": "T_AVG", "u_rms": "U_RMS", "u_rey": "U_REY"}
OF = {"u_avg": "Uavg", "rho_avg": "rhoAVG", "tauw_avg": "???", "mulam_avg": "???", "t_avg": "???", "u_rms": "???", "u_rey": "???"}
NAMES = {"cx": ("IC3", "ic3", "CharlesX", "cx", "charlesx"), "of": ("OpenFOAM", "of", "openfoam", "ofoam")}
DB = {"cx": CX, "of": OF}


def calc(expr, fields):
    """vtk calculator: ^ power, mag of a vector, ln, acos"""
    names = set(re.findall(r"[A-Za-z_?][A-Za-z_0-9?]*", expr)) - {"mag", "sqrt", "ln", "atan", "acos", "e"}
    missing = names - set(fields)
    if missing:
        raise KeyError(sorted(missing))
    env = {"mag": lambda v: np.sqrt(np.sum(np.asarray(v) ** 2, axis=0)), "sqrt": np.sqrt, "ln": np.log, "atan": np.arctan, "acos": np.arccos, **fields}
    return eval(expr.replace("^", "**"), {"__builtins__": {}}, env)


def run(ck):
    import aerokit.common.dicovar as dvm
    import aerokit.common.extendvar as ev

    dv = dvm.dicoVar
    fresh = core.snapshot(dv)
    ck.true("fresh", {k: dv[k] for k in dv.keys()} == CX)

    def init():
        dvm.setDicoVar("IC3")
        return dv, {"db": "cx", "d": dict(CX)}

    def select(name, key):
        def f(c, S):
            try:
                dvm.setDicoVar(name)
                refused = False
            except Exception:
                refused = True
            S["refusal"] = refused == (key is None)
            if key is not None:
                S["db"], S["d"] = key, dict(DB[key])

        return ("set:" + name, f)

    def op(kind, var, new):
        def f(c, S):
            want = (var in S["d"]) == (kind == "rename")
            try:
                (c.addVar if kind == "add" else c.setVar)(var, new)
                done = True
            except Exception:
                done = False
            S["refusal"] = done == want
            if want:
                S["d"][var] = new

        return ("%s:%s=%s" % (kind, var, new), f)

    rho, p = (t.ravel() for t in np.meshgrid([0.1, 1.2, 5.0], [1e3, 1e5, 2e6]))
    U = [np.linspace(-300.0, 900.0, 9), np.linspace(50.0, -200.0, 9), np.linspace(0.0, 30.0, 9)]
    # other units, rarefied and dense, creeping and hypersonic, along each axis
    for r_, p_, (u, v, w) in itertools.product((1e-9, 0.37, 1.0, 813.0), (1e-7, 0.71, 1.0, 3e9), ((1e-9, 0.0, 0.0), (1.0, 1.0, 0.0), (-0.013, 0.4, 2.0), (5e4, -3.0, 1e-3), (1.0, -1e-6, -300.0))):
        rho, p = np.append(rho, r_), np.append(p, p_)
        U = [np.append(a, b) for a, b in zip(U, (u, v, w))]

    def expressions(S, h, after):
        d = S["d"]
        needed = ("P", "rho", "V", "Vx", "Vy")
        before = core.snapshot(dv)
        try:
            X = ev.expressions_from_rhopv()
        except Exception:
            X = None
        ok = ck.true("expressions:state", core.kept(before, core.snapshot(dv)), history=h)
        have = all(k in d or k.lower() in d for k in needed)
        if not have:
            return ok & ck.true("expressions:refused", X is None, history=h)
        if not ck.true("expressions:given", X is not None, history=h):
            return False
        g = lambda k: d[k] if k in d else d[k.lower()]
        fields = {g("P"): p, g("rho"): rho, g("V"): U, g("Vx"): U[0], g("Vy"): U[1]}
        if len(fields) < 5 or any(re.search(r"\W", k) for k in fields):
            return ok
        V = np.sqrt(U[0] ** 2 + U[1] ** 2 + U[2] ** 2)
        a = np.sqrt(1.4 * p / rho)
        want = {
            "Pt": p * (1 + V**2 / a**2 / 5) ** 3.5,
            "T": p / rho / 287.1,
            "S": np.log(p) - 1.4 * np.log(rho),
            "V": V,
            "a": a,
            "Mach": V / a,
            "Mx": U[0] / a,
            "alpha": np.degrees(np.arctan(U[1] / U[0])),
        }
        for k, w in want.items():
            try:
                got = calc(X[k], fields)
            except Exception as e:
                ok &= ck.true("expressions:" + k, False, history=h, expression=str(X.get(k)), error=repr(e))
                continue
            ok &= ck.close("expressions:" + k, got, w, rtol=1e-12, atol=1e-12, history=h)
        # what is given belongs to the caller
        for k in list(X):
            X[k] = "mine"
        X["more"] = "mine"
        Y = ev.expressions_from_rhopv()
        ok &= ck.true("expressions:again", "mine" not in Y.values() and core.kept(before, core.snapshot(dv)), history=h)
        X = Y
        # names of the database itself are kept
        for k in d:
            if k not in want:
                ok &= ck.true("expressions:copied", X.get(k) == d[k], name=k, history=h)
        return ok

    spell = [s for k in list(CX) for s in {k, k.upper(), k.lower(), k.capitalize()}] + ["new", "NEW", "New", "nope", "NOPE", ""]

    def obs(c, S, hist):
        h = "/".join(hist)
        ok = True
        if "refusal" in S:
            ok &= ck.true("refusal", S["refusal"], history=h)
        d = S["d"]
        ok &= ck.true("keys", sorted(c.keys()) == sorted(d), nontrivial=bool(hist), history=h, keys=str(sorted(c.keys()))[:120])
        for s in spell:
            want = d[s] if s in d else d.get(s.lower())
            got = []
            for f in (c.get, c, c.__getitem__):
                try:
                    got.append(f(s))
                except Exception:
                    got.append(None)
            ok &= ck.true("name", got == [want] * 3, nontrivial=bool(hist), name=s, want=str(want), got=str(got), history=h)
        for f in (dvm.printDicoVar, c.printDatabase):
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                f()
            L = buf.getvalue().splitlines()
            ok &= ck.true("printed", all(any({k, v} <= set(l.split()) | set(re.split(r"[\s:=|,<>()'\"]+", l)) for l in L) for k, v in d.items()) and sorted(c.keys()) == sorted(d), nontrivial=bool(hist), history=h)
        ok &= expressions(S, h, c)
        return bool(ok)

    ev_ = [select(n, k) for k, L in NAMES.items() for n in L] + [select(n, k) for n, k in (("ofOAM", "of"), ("CX", "cx"), ("fluent", None), ("", None))]
    ops = [op("add", "new", "N1"), op("add", "New", "N2"), op("add", "u_avg", "X"), op("add", "P", "pres"), op("rename", "u_avg", "UU"), op("rename", "U_AVG", "VV"), op("rename", "new", "N3"), op("rename", "P", "pp"), op("rename", "V", "vel"), op("rename", "Vx", "velx"), op("rename", "rho", "density"), op("add", "V", "w"), op("add", "rho", "r")]
    few = [e for e in ev_ if e[0] in ("set:IC3", "set:of", "set:fluent")]
    try:
        core.bfs(ck, "selections", init, ev_ + ops[:2] + ops[4:5], ck.pick(2, 3), start=obs)
        core.bfs(ck, "changes", init, few + ops, ck.pick(3, 4), start=obs)
    finally:
        dvm.setDicoVar("IC3")
    ck.true("restored", core.kept(fresh, core.snapshot(dv)))
