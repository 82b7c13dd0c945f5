"""Controlled scheduler: runs two computations in two threads, only one at a time, switching at chosen source lines of
the library (every line executed in a file of the library is a scheduling point). Locks made by the library are
cooperative: a thread which has to wait for one lets the other run."""
import os
import sys
import threading

CURRENT = []  # the running pair: [handoff, done, thread ident -> index]


class Lock:
    """lock of the library under the controlled scheduler"""

    reentrant = False

    def __init__(self):
        self.owner, self.depth = None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        n = 0
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking or timeout > 0 and n > 2:
                return False
            n += 1
            if not CURRENT or me not in CURRENT[0][2] or n > 50:
                raise RuntimeError("deadlock")
            handoff, done, who = CURRENT[0]
            if done[1 - who[me]]:
                raise RuntimeError("deadlock: lock never released")
            handoff(who[me])
        self.owner, self.depth = me, self.depth + 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.depth -= 1
        if self.depth == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class RLock(Lock):
    reentrant = True


def cooperative_locks(package):
    """before the import of the library: the locks it makes are the ones above"""
    for nm, cls in (("Lock", Lock), ("RLock", RLock)):
        real = getattr(threading, nm)

        def make(real=real, cls=cls):
            g = sys._getframe(1).f_globals.get("__name__", "")
            return cls() if g == package or g.startswith(package + ".") else real()

        setattr(threading, nm, make)


class Pair:
    def __init__(self, root):
        self.root = os.path.realpath(root) + os.sep
        self.files = {}

    def _mine(self, fn):
        v = self.files.get(fn)
        if v is None:
            v = self.files[fn] = os.path.realpath(fn).startswith(self.root)
        return v

    def points(self, f, which=slice(None)):
        """for every distinct line of the library executed by f: numbers of its first, second and last executions
        (or the ones selected)"""
        seen, n = {}, [0]

        def local(frame, event, arg):
            if event == "line":
                o = seen.setdefault((frame.f_code.co_filename, frame.f_lineno), [])
                if len(o) < 3:
                    o.append(n[0])
                else:
                    o[2] = n[0]
                n[0] += 1
            return local

        old = sys.gettrace()
        sys.settrace(lambda frame, event, arg: local if self._mine(frame.f_code.co_filename) else None)
        try:
            f()
        finally:
            sys.settrace(old)
        return sorted({i for o in seen.values() for i in o[which]})

    def run(self, f, g, switches):
        """switches: list of numbers of lines; the running thread executes that many lines then the other one runs;
        when the list is exhausted the running thread runs to its end, then the other. Returns results and line counts."""
        sem = [threading.Semaphore(0), threading.Semaphore(0)]
        done = [False, False]
        res = [None, None]
        cnt = [0, 0]
        plan = list(switches)
        seg = [0]
        who = {}

        def handoff(i):
            j = 1 - i
            if done[j]:
                return
            seg[0] = 0
            sem[j].release()
            last = -1
            while not sem[i].acquire(timeout=20):
                # the other thread waits for something unknown to the scheduler: both run from now on
                if cnt[j] == last:
                    plan.clear()
                    sem[j].release()
                    return
                last = cnt[j]

        def body(i, h):
            def local(frame, event, arg):
                if event == "line":
                    cnt[i] += 1
                    if plan and not done[1 - i]:
                        if seg[0] >= plan[0]:
                            plan.pop(0)
                            handoff(i)
                        seg[0] += 1
                return local

            def tr(frame, event, arg):
                return local if self._mine(frame.f_code.co_filename) else None

            who[threading.get_ident()] = i
            sem[i].acquire()
            sys.settrace(tr)
            try:
                res[i] = ("ok", h())
            except BaseException as e:  # noqa
                res[i] = ("raised", repr(e)[:200])
            finally:
                sys.settrace(None)
                done[i] = True
                seg[0] = 0
                if plan:
                    plan.pop(0)
                sem[1 - i].release()

        T = [threading.Thread(target=body, args=(0, f)), threading.Thread(target=body, args=(1, g))]
        CURRENT[:] = [(handoff, done, who)]
        for t in T:
            t.start()
        sem[0].release()
        for t in T:
            t.join()
        CURRENT[:] = []
        return res, cnt
