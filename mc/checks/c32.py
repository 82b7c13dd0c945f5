import math

import numpy as np

from mc import core

PROP = {
    "id": "C32",
    "title": "Trigonometry in degrees",
    "statement": "For every angle in degrees, sine, cosine and tangent are the ones of the angle, with symmetries and periods of 360 and 180 degrees; the inverse functions give degrees in their principal range and the two argument arc tangent gives the angle of the point in its own quadrant, including on the axes. Scalars, integers and arrays agree.",
    "quantifier": {"over": ["inputs"], "text": "angles -1080 to 1080 degrees on a dense lattice with all special angles; sines/cosines -1..1, tangents over 12 decades; points on circles of several radii"},
    "why_tests_cant": "Tests check a few angles.",
    "anchors": {"files": ["aerokit/aero/degree.py"], "mechanism": [{"name": "conversions", "where": "aerokit/aero/degree.py"}], "observe_at": ["return values"]},
}
LEVEL = "exploration"
TECH = "bounded exhaustive enumeration of angles on the real code against exact reductions of the angle"
NOTE = "Complete over the stated lattice."
RULE = "every angle and function; non-trivial = angle not null"


def exact(a):
    """sine, cosine from a reduction in degrees"""
    r = math.fmod(a, 360.0)
    q = int(round(r / 90.0))
    t = math.radians(r - 90.0 * q)
    s, c = math.sin(t), math.cos(t)
    return ((s, c), (c, -s), (-s, -c), (-c, s))[q % 4]


def run(ck):
    import aerokit.aero.degree as d

    d = ck.each(d)

    step = ck.pick(1.5, 0.125)
    A = np.unique(np.concatenate([np.arange(-1080.0, 1080.0 + step, step), np.arange(-1000.0, 1000.0, ck.pick(1.7, 0.37)), np.linspace(-6.0, 6.0, ck.pick(241, 2401)), np.linspace(86.0, 94.0, ck.pick(81, 801)), np.linspace(-183.0, -177.0, ck.pick(61, 601)), np.geomspace(1e-8, 1, 17), -np.geomspace(1e-8, 1, 17)] + [c + s * np.geomspace(1e-9, 0.3, 18) for c in (-540.0, -360.0, -180.0, -90.0, -30.0, 30.0, 45.0, 60.0, 90.0, 120.0, 180.0, 270.0, 360.0, 720.0) for s in (-1, 1)]))
    S, C = np.array([exact(float(a)) for a in A]).T
    for nm, w in (("sin", S), ("cos", C)):
        v = ck.call(nm, getattr(d, nm), A)
        ck.close(nm, v, w, rtol=1e-12, atol=4e-15, nontrivial=A != 0, angle=A)
    # also relatively near the zeros, within the rounding of the angle
    for nm, w in (("sin", S), ("cos", C)):
        v = getattr(d, nm)(A)
        ck.true(nm + ":small", np.abs(v - w) <= 1e-12 * np.abs(w) + 4.0 * 2.0**-53 * np.radians(np.abs(A)) + 1e-16, angle=A, got=v)
    i = np.abs(C) > 1e-9
    ck.close("tan", ck.call("tan", d.tan, A[i]), S[i] / C[i], rtol=1e-9 / np.abs(C[i]) ** 0.5, atol=1e-15 + 4.0 * 2.0**-53 * np.radians(np.abs(A[i])), nontrivial=A[i] != 0, angle=A[i])
    for a, s, c in zip(A, S, C):
        a = float(a)
        ck.close("scalar:sin", float(d.sin(a)), float(s), rtol=1e-12, atol=4e-15, angle=a)
        ck.close("scalar:cos", float(d.cos(a)), float(c), rtol=1e-12, atol=4e-15, angle=a)
        if a == int(a):
            ck.close("integer:sin", float(d.sin(int(a))), float(s), rtol=1e-12, atol=4e-15, angle=a)
            ck.close("integer:cos", float(d.cos(int(a))), float(c), rtol=1e-12, atol=4e-15, angle=a)
            if abs(c) > 1e-9:
                ck.close("integer:tan", float(d.tan(int(a))), float(s / c), rtol=1e-9, atol=1e-14, angle=a)
        # quadrant of a point
        for r in (1e-3, 1.0, 4e3):
            w = math.fmod(a, 360.0)
            w = w - 360 if w > 180 else w + 360 if w <= -180 else w
            y, x = (r * s if s != 0 else 0.0), (r * c if c != 0 else 0.0)
            g = float(d.atan2(y, x))
            df = abs(g - w) if abs(abs(w) - 180.0) > 2e-9 else abs(abs(g) - abs(w))
            ck.true("atan2", df <= 1e-10 + 1e-12 * abs(w), angle=a, radius=r, got=g)
    # points off the circles: every pair of coordinates
    P = np.unique(np.concatenate([np.geomspace(1e-6, 1e6, ck.pick(25, 49)), np.linspace(0.05, 4.0, ck.pick(48, 200)), [1.0, 2.0, 3.0]]))
    P = np.concatenate([-P, [0.0], P])
    Y, X = np.meshgrid(P, P)
    g = ck.call("atan2:plane", d.atan2, Y, X)
    w = np.degrees(np.arctan2(Y, X))
    k = (Y != 0) | (X != 0)
    if not isinstance(g, core.Failure) and ck.true("atan2:plane", np.shape(g) == Y.shape):
        ck.close("atan2:plane", g[k], w[k], rtol=1e-13, atol=1e-13, nontrivial=X[k] < 0, y=Y[k], x=X[k])
        for y, x, z in list(zip(Y[k].tolist(), X[k].tolist(), w[k].tolist()))[:: ck.pick(3, 1)]:
            ck.close("atan2:plane:scalar", float(d.atan2(y, x)), z, rtol=1e-13, atol=1e-13, nontrivial=x < 0, y=y, x=x)
    v = np.unique(np.concatenate([np.linspace(-1, 1, ck.pick(401, 4001)), np.geomspace(1e-9, 1, 37), -np.geomspace(1e-9, 1, 37), 1 - np.geomspace(1e-12, 1e-2, 21), -1 + np.geomspace(1e-12, 1e-2, 21)]))
    for nm, f in (("asin", math.asin), ("acos", math.acos)):
        w = np.array([180.0 * f(float(t)) / math.pi for t in v])
        ck.close(nm, ck.call(nm, getattr(d, nm), v), w, rtol=1e-13, atol=1e-13, nontrivial=v != 0, value=v)
        for t, x in zip(v, w):
            ck.close("scalar:" + nm, float(getattr(d, nm)(float(t))), float(x), rtol=1e-13, atol=1e-13, value=float(t))
    t = np.concatenate([-np.geomspace(1e-6, 1e6, 241), [0.0], np.geomspace(1e-6, 1e6, 241)])
    ck.close("atan", ck.call("atan", d.atan, t), np.array([180.0 * math.atan(float(x)) / math.pi for x in t]), rtol=1e-13, nontrivial=t != 0, value=t)
    for x in t:
        ck.close("scalar:atan", float(d.atan(float(x))), 180.0 * math.atan(float(x)) / math.pi, rtol=1e-13, value=float(x))
    a, b = np.linspace(-89.9, 89.9, 1201), np.linspace(0.1, 179.9, 1201)
    ck.close("inverse:asin", d.asin(d.sin(a)), a, rtol=1e-9, atol=1e-9, angle=a)
    ck.close("inverse:acos", d.acos(d.cos(b)), b, rtol=1e-9, atol=1e-9, angle=b)
    ck.close("inverse:atan", d.atan(d.tan(a)), a, rtol=1e-11, atol=1e-11, angle=a)
    y, x = np.meshgrid([-2.0, -0.0, 0.0, 1.0], [-3.0, 0.0, 2.0])
    k = (y != 0) | (x != 0)
    ck.close("atan2:array", np.asarray(d.atan2(y, x))[k], np.array([180.0 * math.atan2(float(p), float(q)) / math.pi for p, q in zip(y.ravel(), x.ravel())]).reshape(y.shape)[k], rtol=1e-13, atol=1e-13, y=y[k], x=x[k])
