import itertools
import os

import numpy as np

from mc import core
from mc.ref import prandtl_meyer, total_p_ratio

PROP = {
    "id": "C30",
    "title": "Polar curves drawn are the shock and isentropic polars of the flow",
    "statement": "Every point of a drawn shock polar is an oblique shock of the given Mach number and gas, from the Mach wave to the normal shock, on the requested side or on both symmetric sides, shifted by the given upstream angle and pressure; the optional markers are the maximum deviation and sonic points of the same curve. Every point of a drawn isentropic polar is reached by a simple wave of the requested family. Line options and axes given by the user are used and nothing else is drawn.",
    "quantifier": {"over": ["inputs"], "text": "both kinds of shock polar and the isentropic polar x Mach x gas x side x initial angle x initial pressure x markers x number of points x axes"},
    "why_tests_cant": "No existing test imports the plotting modules.",
    "anchors": {
        "files": ["aerokit/aero/plot/shockpolar.py", "aerokit/aero/plot/isentropicpolar.py", "aerokit/aero/plot/defaultstyle.py"],
        "mechanism": [{"name": "curve construction", "where": "aerokit/aero/plot"}],
        "observe_at": ["data of the lines of the axes"],
    },
}
LEVEL = "exploration"
TECH = "bounded exhaustive enumeration of the drawing options on the real code; drawn data compared with conservation laws"
NOTE = "Complete over the stated lattice of options, with the non-interactive backend."
RULE = "every combination of options; non-trivial = non-default option or heat ratio"


def deflection(M, s, g):
    """from the conservation of tangential velocity and mass"""
    sr = np.radians(s)
    un = M * np.sin(sr)
    ut = M * np.cos(sr)
    r = (g + 1) * un**2 / ((g - 1) * un**2 + 2)
    return s - np.degrees(np.arctan2(un / r, ut))


def pratio(M, s, g):
    un2 = (M * np.sin(np.radians(s))) ** 2
    return 1 + 2 * g / (g + 1) * (un2 - 1)


def run(ck):
    os.environ["MPLBACKEND"] = "Agg"
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    import aerokit.aero.plot.defaultstyle as st
    import aerokit.aero.plot.isentropicpolar as ip
    import aerokit.aero.plot.shockpolar as sp

    def lines(ax):
        L = [(np.ravel(np.asarray(l.get_xdata(), float)), np.ravel(np.asarray(l.get_ydata(), float)), l) for l in ax.get_lines()]
        return [t for t in L if t[0].size > 1], [t for t in L if t[0].size == 1]

    def max_point(M, g):
        s = np.linspace(np.degrees(np.arcsin(1 / M)), 90, 4001)
        i = np.argmax(deflection(M, s, g))
        s = np.linspace(s[max(i - 1, 0)], s[min(i + 1, 4000)], 4001)
        i = np.argmax(deflection(M, s, g))
        return s[i]

    def sonic_point(M, g):
        s0, s1 = np.degrees(np.arcsin(1 / M)), 90.0

        def m2(s):
            un2 = (M * np.sin(np.radians(s))) ** 2
            r = (g + 1) * un2 / ((g - 1) * un2 + 2)
            p = 1 + 2 * g / (g + 1) * (un2 - 1)
            v2 = un2 / r**2 + (M * np.cos(np.radians(s))) ** 2
            return v2 / (p / r)

        for _ in range(80):
            m = 0.5 * (s0 + s1)
            s0, s1 = (m, s1) if m2(m) > 1 else (s0, m)
        return 0.5 * (s0 + s1)

    def clear(*axes):
        for a in axes:
            for l in list(a.lines) + list(a.collections) + list(a.patches) + list(a.texts):
                l.remove()

    fig, (ax, ax2) = plt.subplots(1, 2)
    try:
        MACH = ck.pick((1.05, 1.5, 2.0, 4.0), (1.02, 1.05, 1.2, 1.5, 2.0, 3.0, 4.0, 8.0, 20.0))
        POLARS = list(itertools.product(MACH, (None, 1.2, 5.0 / 3.0), ("right", "left", "both", None))) + list(itertools.product((1.013, 1.37, 2.71, 6.6, 17.3, 70.0), (None, 1.13, 1.33, 1.9), ("both",)))
        for M, g, curve in POLARS:
            gg = 1.4 if g is None else g
            sides = {"right": (1,), "left": (-1,), "both": (1, -1), None: (1, -1)}[curve]
            smax, sson = max_point(M, gg), sonic_point(M, gg)
            base = dict(**({} if g is None else {"gamma": g}), **({} if curve is None else {"curve": curve}))
            for what in ("sigma", "pressure"):
                for mk in itertools.product((False, True), (False, True)):
                    for th, p0, npts, useax in ((0.0, 1.0, None, False), (-12.0, 2.5, 37, True), (7.0, 0.4, 50, False)) if curve != "both" else ((0.0, 1.0, 211, True), (-0.013, 101325.0, 7, False), (33.0, 1e-6, None, True)):
                        if what == "sigma" and useax:
                            continue
                        kw = dict(base)
                        if mk[0]:
                            kw["devmax"] = True
                        if mk[1]:
                            kw["sonic"] = True
                        if npts is not None:
                            kw["npts"] = npts
                        if what == "pressure":
                            if th:
                                kw.update(thet_init=th, p_init=p0)
                        else:
                            th, p0 = 0.0, 1.0
                        plt.figure(fig.number)
                        clear(ax, ax2)
                        plt.sca(ax2)  # current axes
                        if useax:
                            kw["ax"] = ax
                        kw.update(color="g", linestyle="--", linewidth=3.5)
                        f = sp.plot_theta_sigma if what == "sigma" else sp.plot_theta_pressure
                        co = dict(plot=what, Mach=M, gamma=gg, curve=str(curve), devmax=mk[0], sonic=mk[1], thet=th, p=p0, npts=str(npts))
                        r = ck.call("draw", f, M, ctx=co, **kw)
                        if isinstance(r, core.Failure):
                            continue
                        tgt, oth = (ax, ax2) if useax else (ax2, ax)
                        ck.true("axes", not oth.get_lines(), **co)
                        C, P = lines(tgt)
                        ck.true("curves", len(C) == len(sides), got=len(C), **co)
                        found = set()
                        for X, Y, l in C:
                            sg = 1 if np.max((X - th)) > 1e-6 else -1
                            found.add(sg)
                            dev = (X - th) * sg
                            if what == "sigma":
                                s = Y
                                ck.close("point:deflection", dev, deflection(M, s, gg), rtol=1e-8, atol=1e-7, sigma=s, **co)
                            else:
                                un2 = ((Y / p0 - 1) * (gg + 1) / 2 / gg) + 1
                                s = np.degrees(np.arcsin(np.minimum(np.sqrt(un2) / M, 1.0)))
                                ck.close("point:pressure", Y, p0 * pratio(M, s, gg), rtol=1e-9, sigma=s, **co)
                                ck.close("point:deflection", dev, deflection(M, s, gg), rtol=1e-5, atol=1e-5, sigma=s, **co)
                            ck.close("ends", np.array([s.min(), s.max()]), np.array([np.degrees(np.arcsin(1 / M)), 90.0]), rtol=1e-6, **co)
                            n = 100 if npts is None else npts
                            ck.true("number-of-points", n <= len(X) <= n + 1, got=len(X), **co)
                            ck.true("dense", np.max(np.abs(np.diff(np.sort(s)))) <= 3.0 * (90 - np.degrees(np.arcsin(1 / M))) / n + 1e-9, **co)
                            ck.true("style", l.get_color() == "g" and l.get_linestyle() == "--" and l.get_linewidth() == 3.5, **co)
                        ck.true("sides", found == set(sides), got=str(sorted(found)), **co)
                        want = [sg * np.array([1.0, 0]) for sg in ()]
                        for flag, s in ((mk[0], smax), (mk[1], sson)):
                            if flag:
                                for sg in sides:
                                    y = s if what == "sigma" else p0 * pratio(M, s, gg)
                                    want.append(np.array([th + sg * deflection(M, s, gg), y]))
                        ck.true("markers:count", len(P) == len(want), got=len(P), want=len(want), **co)
                        for w in want:
                            d = min((max(abs(X[0] - w[0]) / 1e-3, abs(Y[0] - w[1]) / (0.02 * abs(w[1]))) for X, Y, _ in P), default=9.0)
                            ck.true("marker", d <= 1.0, where=str(np.round(w, 6)), distance=d, **co)
                            # drawn as a visible marker
                        ck.true("marker:visible", all(l.get_marker() not in ("None", None, "", " ") for _, _, l in P), **co)

        # isentropic polar
        IPOLARS = list(itertools.product((1.5, 2.0, 3.5), (None, 1.3, 5.0 / 3.0), ("C+", "c+", "C-", "c-", "both", None), ((-5.0, 5.0), (0.0, 8.0), (-20.0, 2.0)))) + list(itertools.product((1.37, 2.71, 6.6, 9.3), (None, 1.13, 1.33, 1.9), ("C+", "both"), ((-1e-3, 1e-3), (4.0, 7.3), (-6.1, -0.2), (3.0, -3.0))))
        for M, g, curve, rng in IPOLARS:
            gg = 1.4 if g is None else g
            nu = prandtl_meyer(M, gg)
            numax = 90 * (np.sqrt((gg + 1) / (gg - 1)) - 1)
            if max(abs(rng[0]), abs(rng[1])) > nu - 0.5 or nu + max(np.abs(rng)) > 0.85 * numax:
                continue
            fam = {"C+": (1,), "c+": (1,), "C-": (-1,), "c-": (-1,), "both": (1, -1), None: (1,)}[curve]
            for th, p0, npts in ((0.0, 1.0, None), (10.0, 0.5, 24)) if curve != "both" else ((0.0, 1.0, 211), (-0.013, 101325.0, None), (33.0, 1e-6, 7)):
                plt.figure(fig.number)
                clear(ax, ax2)
                plt.sca(ax)
                kw = dict(color="b", linestyle=":", linewidth=1.5, **({} if g is None else {"gamma": g}), **({} if curve is None else {"curve": curve}), **({} if npts is None else {"npts": npts}), **({"thet_init": th, "p_init": p0} if th else {}))
                co = dict(plot="isentropic", Mach=M, gamma=gg, curve=str(curve), range=str(rng), thet=th, p=p0)
                r = ck.call("draw", ip.plot_theta_pressure, M, rng, ctx=co, **kw)
                if isinstance(r, core.Failure):
                    continue
                C, P = lines(ax)
                ck.true("isentropic:curves", len(C) == len(fam) and not P, got=len(C), **co)
                found = []
                for X, Y, l in C:
                    d = X - th
                    # Mach number behind from the pressure, at constant total pressure
                    T = total_p_ratio(M, gg) * p0 / Y
                    m2 = np.sqrt((np.exp(np.log(T) * (gg - 1) / gg) - 1) * 2 / (gg - 1))
                    turn = nu - prandtl_meyer(np.maximum(m2, 1.0), gg)
                    sg = 1 if np.sum(np.abs(turn - d)) < np.sum(np.abs(turn + d)) else -1
                    found.append(sg)
                    ck.close("isentropic:point", turn, sg * d, rtol=1e-5, atol=1e-5, deviation=d, **co)
                    ck.close("isentropic:range", np.array([d.min(), d.max()]), np.array([min(rng), max(rng)]), rtol=1e-9, atol=1e-9, **co)
                    n = 100 if npts is None else npts
                    ck.true("isentropic:number-of-points", n <= len(X) <= n + 1, got=len(X), **co)
                    ck.true("isentropic:style", l.get_color() == "b" and l.get_linestyle() == ":" and l.get_linewidth() == 1.5, **co)
                ck.true("isentropic:families", sorted(found) == sorted(fam), got=str(found), **co)
        # figures
        plt.close("all")
        for nm, scale in (("figure_theta_sigma", "linear"), ("figure_theta_pressure", "log")):
            for size in ((4.0, 3.0), (8.0, 5.0)):
                f = ck.call("figure", getattr(st, nm), figsize=size)
                if isinstance(f, core.Failure):
                    continue
                ck.true("figure:scale", f.gca().get_yscale() == scale and f.gca().get_xscale() == "linear", figure=nm)
                ck.true("figure:size", tuple(f.get_size_inches()) == size, figure=nm, size=str(size))
                f.canvas.draw()
                ck.true("figure:grid", any(l.get_visible() for l in f.gca().get_xgridlines()), figure=nm)
                ck.true("figure:current", plt.gcf() is f, figure=nm)
                plt.close(f)
    finally:
        plt.close("all")
