"""Harness shared by every check.

A check is a module mc.checks.cNN with
    PROP   the line of properties.jsonl
    LEVEL, TECH, NOTE   fields of the manifest
    run(ck)  explores the bounded space, reporting through ck
Everything is enumerated: no random choice is made anywhere, VERIF_SEED is only recorded.
"""
import collections
import contextlib
import copy
import hashlib
import io
import itertools
import json
import os
import signal
import time
import traceback

import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAXKEEP = 3  # violations kept per kind


def jsonable(o):
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set)):
        return [jsonable(v) for v in o]
    if isinstance(o, np.ndarray):
        return [jsonable(v) for v in o.tolist()] if o.size <= 64 else "array%s" % (o.shape,)
    if isinstance(o, np.generic):
        return jsonable(o.item())
    if isinstance(o, float) and (o != o or o in (float("inf"), float("-inf"))):
        return repr(o)
    if isinstance(o, complex):
        return repr(o)
    if o is None or isinstance(o, (str, int, float, bool)):
        return o
    return repr(o)


class Failure:
    """sentinel returned by ck.call when the code under test raised"""

    def __init__(self, exc):
        self.exc = exc

    def __repr__(self):
        return "raised %s: %s" % (type(self.exc).__name__, str(self.exc)[:120])


class NoAnswer(Exception):
    """the code under test did not return"""


class Deadline(BaseException):
    """the whole run has lasted too long: not caught where exceptions of the code under test are"""


_T_END = [None]


def arm(seconds):
    """deadline of the whole run (a call under test that never returns is a violation, not a hang)"""

    def expired(*_):
        now = time.time()
        if now >= _T_END[0] - 0.05:
            signal.setitimer(signal.ITIMER_REAL, 5)  # again, if something catches it
            raise Deadline("the code under test did not return")
        _T_END[0] = min(_T_END[0], now + 60)  # a call did not return: the run soon ends
        signal.setitimer(signal.ITIMER_REAL, _T_END[0] - now)
        raise NoAnswer("the code under test did not return")

    signal.signal(signal.SIGALRM, expired)
    _T_END[0] = time.time() + seconds
    signal.setitimer(signal.ITIMER_REAL, seconds)


def disarm():
    signal.setitimer(signal.ITIMER_REAL, 0)
    _T_END[0] = None


CALL_LIMIT = 90.0


class Check:
    def __init__(self, prop, level, tier, seed):
        self.prop, self.level, self.tier, self.seed = prop, level, tier, seed
        self.thorough = tier == "thorough"
        self.evaluations = 0
        self.rows = collections.defaultdict(set)
        self.kinds = collections.Counter()
        self.samples = []
        self._sampled = collections.Counter()
        self.viol = []
        self._vk = collections.Counter()
        self.nviol = 0
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.notes = {}
        self.t0 = time.time()

    # ---- thoroughness
    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---- reporting
    def violation(self, kind, **ctx):
        self.nviol += 1
        self._vk[kind] += 1
        if self._vk[kind] <= MAXKEEP:
            self.viol.append({"kind": kind, "context": jsonable(ctx)})
        if self.nviol >= 200 and _T_END[0] is not None and not self.thorough and time.time() > self.t0 + 200:
            raise Deadline("%d violations: the rest of a run made much longer by them is left out" % self.nviol)

    def sample(self, kind, **ctx):
        if self._sampled[kind] < 1 and len(self.samples) < 40:
            self._sampled[kind] += 1
            self.samples.append({"kind": kind, **jsonable(ctx)})

    def call(self, kind, fn, *args, **kw):
        """call the code under test: an exception is a violation"""
        ctx = kw.pop("ctx", None)
        try:
            if _T_END[0] is None:
                return fn(*args, **kw)
            signal.setitimer(signal.ITIMER_REAL, min(CALL_LIMIT, max(0.1, _T_END[0] - time.time())))
            try:
                return fn(*args, **kw)
            finally:
                signal.setitimer(signal.ITIMER_REAL, max(0.1, _T_END[0] - time.time()))
        except Exception as e:  # noqa
            self.evaluations += 1
            self.violation(
                kind + ":raised",
                call=getattr(fn, "__name__", repr(fn)),
                args=args,
                kwargs=kw,
                error="%s: %s" % (type(e).__name__, str(e)[:200]),
                where=traceback.format_exc(limit=-3)[-400:],
                **(ctx or {}),
            )
            return Failure(e)

    def true(self, kind, cond, nontrivial=True, **coords):
        """every element of cond must hold; coords (broadcast with cond) locate an element"""
        if isinstance(cond, (bool, np.bool_)) and isinstance(nontrivial, (bool, np.bool_)) and not any(isinstance(v, (np.ndarray, list, tuple)) for v in coords.values()):
            self.evaluations += 1
            self.kinds[kind] += 1
            if nontrivial:
                self.rows[kind].add(hash(tuple(coords.values())))
            if not self._sampled[kind]:
                self.sample(kind, **coords)
            if cond:
                return True
            self.violation(kind, **coords)
            return False
        cond = np.asarray(cond)
        names = list(coords)
        cols = [np.asarray(coords[k]) for k in names]
        try:
            b = np.broadcast_arrays(cond, np.asarray(nontrivial), *cols)
        except ValueError:
            self.evaluations += 1
            self.violation(kind + ":shape", shapes=[cond.shape] + [c.shape for c in cols], names=names)
            return False
        n = int(b[0].size)
        self.evaluations += n
        self.kinds[kind] += n
        self._track(kind, b[1], b[2:], n)
        flat = b[0].ravel().astype(bool)
        if n:
            self.sample(kind, **{k: c.ravel()[n // 2] for k, c in zip(names, b[2:])})
        if flat.all():
            return True
        bad = np.flatnonzero(~flat)
        for i in bad[:MAXKEEP]:
            self.violation(kind, **{k: c.ravel()[i] for k, c in zip(names, b[2:])})
        self.nviol += max(0, len(bad) - MAXKEEP)
        return False

    def _track(self, kind, nontriv, cols, n):
        s = self.rows[kind]
        keep = nontriv.ravel().astype(bool)
        if not keep.any():
            return
        num = [c for c in cols if c.dtype.kind in "fiub"]
        oth = [c for c in cols if c.dtype.kind not in "fiub"]
        key = ()
        if num:
            m = np.stack([c.ravel().astype(float) for c in num], axis=-1)[keep]
            rows = [r.tobytes() for r in m]
        else:
            rows = [b""] * int(keep.sum())
        if oth:
            o = [[str(v) for v in c.ravel()[keep]] for c in oth]
            rows = [r + "|".join(t).encode() for r, t in zip(rows, zip(*o))]
        s.update(hashlib.blake2b(r, digest_size=8).digest() for r in rows)

    def close(self, kind, got, want, rtol=1e-9, atol=0.0, nontrivial=True, **coords):
        if isinstance(got, Failure):
            return False
        if isinstance(got, float) and isinstance(want, float):
            ok = abs(got - want) <= atol + rtol * abs(want)
            return self.true(kind, ok, nontrivial=nontrivial, got=got, want=want, **coords)
        try:
            got = np.asarray(got)
            if got.dtype == object:
                got = got.astype(float)
            want = np.asarray(want)
            tol = atol + rtol * np.abs(want)
            with np.errstate(all="ignore"):
                ok = np.abs(got - want) <= tol
        except Exception as e:
            self.evaluations += 1
            self.violation(kind + ":compare", error=repr(e)[:200], got=got, want=want, **coords)
            return False
        return self.true(kind, ok, nontrivial=nontrivial, got=got, want=want, **coords)

    # ---- element by element
    def each(self, module, rtol=1e-11, atol=1e-12, loose=(), skip=(), edge=(), budget=6000):
        """the module, with functions which, called with arrays, must also give the values of separate calls

        Every array call is repeated on single elements (plain floats) and on windows of neighbours: the value of an
        element must not depend on the other ones. ``loose`` functions are iterative (rtol 1e-6); ``edge`` ones are
        asked at a bound of their domain, where rounding decides whether they are defined."""
        ck = self
        wrapped = {}

        class Proxy:
            def __getattr__(self, name):
                f = getattr(module, name)
                if not callable(f) or isinstance(f, type) or name in skip:
                    return f
                if name not in wrapped:
                    wrapped[name] = ck._each(name, f, 1e-6 if name in loose else rtol, 1e-6 if name in loose else atol, [budget * ck.pick(1, 10)], name in edge)
                return wrapped[name]

        return Proxy()

    def _each(self, name, f, rtol, atol, left, edge):
        ck = self

        def wrapper(*a, **k):
            r = f(*a, **k)
            args = list(a) + list(k.values())
            if left[0] <= 0 or not isinstance(r, np.ndarray) or r.size < 2:
                return r
            try:
                shape = np.broadcast_shapes(*[np.shape(v) for v in args])
            except ValueError:
                return r
            if shape != r.shape:
                return r
            flat = [np.broadcast_to(v, shape).ravel() if isinstance(v, np.ndarray) else None for v in args]
            rf = np.asarray(r).ravel()
            n = rf.size

            def at(sl, scalar):
                b = [v if fl is None else (fl[sl].item() if scalar else fl[sl].copy()) for v, fl in zip(args, flat)]
                return f(*b[: len(a)], **dict(zip(k, b[len(a) :])))

            def same(form, sl, scalar):
                try:
                    with np.errstate(all="ignore"), quiet():
                        g = np.asarray(at(sl, scalar), dtype=float).ravel()
                except Exception as e:  # noqa
                    ck.evaluations += 1
                    ck.violation("separate-call:raised", function=name, form=form, error=repr(e)[:200], args=[v if fl is None else fl[sl] for v, fl in zip(args, flat)])
                    return
                w = rf[sl : sl + 1] if scalar else rf[sl]
                with np.errstate(all="ignore"):
                    ok = g.shape == w.shape and bool(np.all((np.abs(g - w) <= atol + rtol * np.abs(w)) | (g == w) | (np.isnan(g) & np.isnan(w)) | (np.abs(np.where(np.isnan(g), w, 0) + np.where(np.isnan(w), g, 0)) < (np.inf if edge else 1e-6 if atol >= 1e-6 else 0))))
                ck.evaluations += 1
                ck.kinds["separate-call:" + form] += 1
                if not ok:
                    ck.violation("separate-call:" + form, function=name, got=g, in_array=w, args=[v if fl is None else fl[sl] for v, fl in zip(args, flat)])

            m = min(n, ck.pick(60, 600), left[0])
            left[0] -= m
            for i in np.unique(np.linspace(0, n - 1, m).astype(int)):
                same("scalar", int(i), True)
            if n > 6:
                for i in np.unique(np.linspace(0, n - 3, min(m, 16)).astype(int)):
                    same("window", slice(int(i), int(i) + 3), False)
            # the same array objects, given again with their values in another order
            for full in (False, True):
                if n > 4000 or (full and not any(fl is None and isinstance(v, (float, np.floating)) for v, fl in zip(args, flat))):
                    continue
                buf = [np.full(n, float(v)) if full and fl is None and isinstance(v, (float, np.floating)) else v if fl is None else np.array(fl) for v, fl in zip(args, flat)]
                try:
                    with np.errstate(all="ignore"), quiet():
                        if full:  # constant ones change too
                            for v in buf:
                                if isinstance(v, np.ndarray):
                                    v *= 2
                        f(*buf[: len(a)], **dict(zip(k, buf[len(a) :])))
                        for v in buf:
                            if isinstance(v, np.ndarray):
                                v[...] = np.roll(v, 1) / (2 if full else 1)
                        g = np.asarray(f(*buf[: len(a)], **dict(zip(k, buf[len(a) :]))), dtype=float).ravel()
                except Exception as e:  # noqa
                    if not full:
                        ck.evaluations += 1
                        ck.violation("same-arrays-again:raised", function=name, error=repr(e)[:200])
                    continue
                w = np.roll(rf, 1)
                with np.errstate(all="ignore"):
                    ok = g.shape == w.shape and ((np.abs(g - w) <= max(atol, (1e-9 if atol < 1e-7 else 1e-4) if full else 0) + max(rtol, (1e-9 if atol < 1e-7 else 1e-4) if full else 0) * np.abs(w)) | (g == w) | ~np.isfinite(g) | ~np.isfinite(w))
                ck.evaluations += 1
                ck.kinds["same-arrays-again"] += 1
                if not np.all(ok):
                    ck.violation("same-arrays-again", function=name, full=full, got=g[~ok][:3] if np.shape(ok) else g.shape, want=w[~ok][:3] if np.shape(ok) else w.shape)
            return r

        wrapper.__name__ = name
        return wrapper

    # ---- result
    def distinct(self):
        return sum(len(s) for s in self.rows.values())

    def coverage(self, rule):
        cov = {
            "evaluations": int(self.evaluations),
            "distinct_nontrivial": int(self.distinct()),
            "rule": rule,
            "samples": self.samples[:25],
            "exhaustive": True,
            "facts_checked_by_kind": dict(self.kinds),
        }
        if self.level == "model_checking":
            cov["states"] = int(self.states)
            cov["transitions"] = int(self.transitions)
            cov["traces_validated_against_impl"] = int(self.traces)
        if self.notes:
            cov["notes"] = jsonable(self.notes)
        return cov


# ---------------------------------------------------------------------------
# silence of the library's prints
@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()) as f:
        yield f


# ---------------------------------------------------------------------------
# snapshots: deep value of an object, used to deduplicate states and to detect hidden mutation
def snapshot(o, _seen=None, depth=0):
    _seen = _seen or {}
    if o is None or isinstance(o, (bool, int, str, bytes)):
        return (type(o).__name__, o)
    if isinstance(o, (float, complex, np.generic)):
        return (type(o).__name__, repr(o))
    if isinstance(o, np.ndarray):
        return ("nd", o.shape, str(o.dtype), hashlib.blake2b(np.ascontiguousarray(o).tobytes() if o.dtype != object else repr(o.tolist()).encode(), digest_size=12).hexdigest())
    if id(o) in _seen or depth > 12:
        return ("ref",)
    _seen = dict(_seen)
    _seen[id(o)] = 1
    if isinstance(o, dict):
        return ("dict", tuple((repr(k), snapshot(v, _seen, depth + 1)) for k, v in sorted(o.items(), key=lambda t: repr(t[0]))))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(snapshot(v, _seen, depth + 1) for v in o))
    if callable(o) and not hasattr(o, "__dict__"):
        return ("callable", getattr(o, "__qualname__", str(type(o))))
    if hasattr(o, "__func__"):
        return ("method", o.__func__.__qualname__)
    if callable(o):
        return ("callable", getattr(o, "__qualname__", str(type(o))))
    if hasattr(o, "__dict__"):
        return ("obj", type(o).__name__, snapshot(vars(o), _seen, depth + 1))
    return ("?", type(o).__name__)


def kept(before, after):
    """are two snapshots of the same object equal? private attributes which did not exist or were None (caches filled
    on demand) may appear"""
    if before == after:
        return True
    if not (isinstance(before, tuple) and isinstance(after, tuple) and before and after and before[0] == after[0]):
        return False
    if before[0] == "obj":
        if before[1] != after[1] or before[2][0] != "dict" or after[2][0] != "dict":
            return False
        a, b = dict(before[2][1]), dict(after[2][1])
        for k in set(a) | set(b):
            if k.startswith("'_") and a.get(k) in (None, ("NoneType", None)):
                continue
            if k not in a or k not in b or not kept(a[k], b[k]):
                return False
        return True
    if before[0] == "dict":
        return [k for k, _ in before[1]] == [k for k, _ in after[1]] and all(kept(x, y) for (_, x), (_, y) in zip(before[1], after[1]))
    if before[0] in ("list", "tuple"):
        return len(before[1]) == len(after[1]) and all(kept(x, y) for x, y in zip(before[1], after[1]))
    return False


def digest(*parts):
    return hashlib.blake2b(repr(parts).encode(), digest_size=12).hexdigest()


# ---------------------------------------------------------------------------
# explicit-state search over the real code
def bfs(ck, kind, init, events, depth, start=None, cap=None):
    """Breadth-first search over event histories.

    init()  -> (impl, model) fresh pair
    events  -> list of (name, fn) ; fn(impl, model) applies one event on both and returns None or raises Skip
    start   -> observation function obs(impl, model, hist): reports violations itself, True if fine
    A state is the pair (deep snapshot of the implementation, snapshot of the model); a history reaching
    an already visited pair is not extended. Each node is rebuilt by replaying its history on fresh objects.
    """
    def build(hist):
        impl, model = init()
        for e in hist:
            try:
                by[e](impl, model)
            except Skip:
                return None
        return impl, model

    by = dict(events)
    first = build(())
    start(first[0], first[1], ())
    seen = {digest(snapshot(first[0]), snapshot(first[1]))}
    frontier = collections.deque([()])
    ck.states += 1
    ck.traces += 1
    done_depth = 0
    while frontier:
        hist = frontier.popleft()
        if len(hist) >= depth:
            continue
        for name, _ in events:
            h2 = hist + (name,)
            try:
                with quiet():
                    pair = build(h2)
            except Exception as e:
                ck.evaluations += 1
                ck.violation(kind + ":raised", history=h2, error="%s: %s" % (type(e).__name__, str(e)[:200]), where=traceback.format_exc(limit=-3)[-500:])
                continue
            if pair is None:
                continue
            ck.transitions += 1
            ck.traces += 1
            done_depth = max(done_depth, len(h2))
            key = digest(snapshot(pair[0]), snapshot(pair[1]))
            try:
                with quiet():
                    ok = start(pair[0], pair[1], h2)
            except Exception as e:
                ck.evaluations += 1
                ck.violation(kind + ":raised", history=h2, error="%s: %s" % (type(e).__name__, str(e)[:200]), where=traceback.format_exc(limit=-3)[-500:])
                continue
            # observation may itself have filled caches: state is taken after building only
            if key not in seen:
                seen.add(key)
                ck.states += 1
                if ok is not False:
                    frontier.append(h2)
            if cap and ck.states >= cap:
                ck.notes["capped"] = True
                return
    ck.notes.setdefault("max_depth", {})[kind] = done_depth


_JOB = []


def _do(a):
    return _JOB[0](a)


def parallel(f, args, workers=None):
    """[f(a) for a in args], shared out among processes (forked: f may be any closure); f returns plain values"""
    import multiprocessing

    n = workers or min(6, os.cpu_count() or 1)
    if n < 2 or len(args) < 4 * n:
        return [f(a) for a in args]
    _JOB[:] = [f]

    def child():
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, signal.SIG_DFL)

    with multiprocessing.get_context("fork").Pool(n, initializer=child) as pool:
        return pool.map(_do, args, chunksize=max(1, min(50, len(args) // (8 * n))))


class Skip(Exception):
    pass


# ---------------------------------------------------------------------------
# shapes in which a numeric argument can be handed over
def variants(vals):
    """name, container, index->position map. vals: 1-D list of floats"""
    v = np.array(vals, dtype=float)
    n = len(v)
    out = []
    out.append(("1d", v.copy()))
    two = np.concatenate([v, v[::-1]]).reshape(2, n)
    out.append(("2d", two))
    out.append(("F-order", np.asfortranarray(two)))
    out.append(("3d", np.concatenate([v, v, v[::-1], v]).reshape(2, 2, n)))
    big = np.repeat(v, 2)
    out.append(("strided", big[::2]))
    out.append(("reversed-view", v[::-1]))
    out.append(("size1", v[n // 2 : n // 2 + 1].copy()))
    out.append(("0d", np.array(v[n // 2])))
    ro = v.copy()
    ro.setflags(write=False)
    out.append(("readonly", ro))
    out.append(("unsorted", np.concatenate([v[1::2], v[::2]])))
    return out


def polymorphism(ck, kind, fn, vals, rtol=1e-12, atol=0.0, big=None, ints=(), np_scalar=True, skip=()):
    """fn(x): array result == elementwise scalar result, same shape, arguments untouched.

    Every representation of the argument is enumerated; ``big`` is a (lo, hi, n) dense array.
    """
    ref = {}

    def scalar(x):
        x = float(x)
        if x not in ref:
            r = ck.call(kind + ":scalar", fn, x)
            ref[x] = r if isinstance(r, Failure) else np.asarray(r, dtype=float)
        return ref[x]

    cases = [c for c in variants(vals) if c[0] not in skip]
    if big is not None:
        cases.append(("dense-%d" % big[2], np.linspace(*big)))
    for name, arr in cases:
        before = arr.copy()
        got = ck.call(kind + ":" + name, fn, arr)
        if isinstance(got, Failure):
            continue
        ck.true(kind + ":argument-unchanged", np.array_equal(before, arr), form=name)
        g = np.asarray(got)
        if g.shape != arr.shape and not (arr.size == 1 and g.size == 1):
            ck.evaluations += 1
            ck.violation(kind + ":shape", form=name, got=g.shape, want=arr.shape)
            continue
        flat = arr.ravel()
        idx = range(flat.size) if flat.size <= 300 else list(range(0, flat.size, max(1, flat.size // 150))) + [flat.size - 1]
        idx = list(idx)
        want = [scalar(flat[i]) for i in idx]
        if any(isinstance(w, Failure) for w in want):
            continue
        w = np.array([float(np.asarray(t).reshape(-1)[0]) for t in want])
        ck.close(kind + ":" + name.split("-")[0], g.ravel()[idx], w, rtol=rtol, atol=atol, x=flat[idx], form=name)
    for x in list(vals)[:6]:
        if np_scalar:
            g = ck.call(kind + ":np.float64", fn, np.float64(x))
            w = scalar(x)
            if not isinstance(g, Failure) and not isinstance(w, Failure):
                ck.close(kind + ":np.float64", np.asarray(g, dtype=float).reshape(-1)[0], float(w.reshape(-1)[0]), rtol=rtol, atol=atol, x=x)
    for k in ints:
        w = scalar(float(k))
        for form, val in (("int", int(k)), ("np.int64", np.int64(k)), ("int-array", np.array([k, k], dtype=int))):
            g = ck.call(kind + ":" + form, fn, val)
            if not isinstance(g, Failure) and not isinstance(w, Failure):
                ck.close(kind + ":" + form, np.asarray(g, dtype=float), float(w.reshape(-1)[0]), rtol=rtol, atol=atol, x=k)


def near(a, b, rtol=1e-10):
    """same structure and same values but for rounding"""
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(near(a[k], b[k], rtol) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(near(x, y, rtol) for x, y in zip(a, b))
    try:
        x, y = np.asarray(a), np.asarray(b)
        if x.shape != y.shape or x.dtype.kind not in "iufcb" or y.dtype.kind not in "iufcb":
            return snapshot(a) == snapshot(b)
        fin = np.isfinite(y)
        tol = rtol * np.max(np.abs(y[fin]), initial=0.0)
        return bool(np.array_equal(np.isfinite(x), fin) and np.array_equal(x[~fin], y[~fin], equal_nan=True) and np.all(np.abs(x[fin] - y[fin]) <= tol))
    except Exception:
        return snapshot(a) == snapshot(b)


def histories(ck, kind, calls, depth=2):
    """calls: list of (label, thunk). Every sequence of ``depth`` calls is executed and the value of each
    call must be the value it has as the very first call of a sequence (no hidden state)."""
    base, first = {}, {}
    for lab, th in calls:
        r = ck.call(kind, th)
        if isinstance(r, Failure):
            return
        base[lab] = snapshot(np.asarray(r) if not isinstance(r, (tuple, list, dict)) else r)
        first[lab] = copy.deepcopy(r)
    n = 0
    for seq in itertools.product(calls, repeat=depth):
        for lab, th in seq:
            r = ck.call(kind, th)
            if isinstance(r, Failure):
                return
            n += 1
            if snapshot(np.asarray(r) if not isinstance(r, (tuple, list, dict)) else r) != base[lab] and not near(r, first[lab]):
                ck.violation(kind + ":history-dependent", sequence=[s[0] for s in seq], call=lab)
    ck.evaluations += n
    ck.kinds[kind + ":sequences"] += n
    ck.rows[kind + ":sequences"].update(
        digest([s[0] for s in seq]).encode() for seq in itertools.product(calls, repeat=depth)
    )


def grid(*axes):
    """all combinations, as flat arrays"""
    m = np.meshgrid(*[np.asarray(a, dtype=float) for a in axes], indexing="ij")
    return [a.ravel() for a in m]
