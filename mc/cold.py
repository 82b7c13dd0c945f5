"""State of the library right after its import ("cold"), and its restoration: everything reachable from the modules of the
library which a computation could change (module variables, class attributes, attributes and defaults of functions,
closures, memoised results) is recorded, and put back in place before an execution."""
import copy
import sys
import threading
import types

import numpy as np

SIMPLE = (int, float, complex, str, bytes, bool, type(None), np.generic, tuple, frozenset)


class Cold:
    def __init__(self, package):
        self.package = package
        self.names = []  # (setter target, namespace, saved references)
        self.boxes = []  # containers changed in place
        self.caches = []
        self.cells = []
        self.seen = set()
        for nm, m in sorted(sys.modules.items()):
            if m is not None and (nm == package or nm.startswith(package + ".")):
                self._namespace(m)
        self.seen = {}

    def _own(self, o):
        return str(getattr(o, "__module__", "")).startswith(self.package)

    def _namespace(self, o):
        if id(o) in self.seen:
            return
        self.seen.add(id(o))
        d = {k: v for k, v in vars(o).items() if not (k.startswith("__") and k.endswith("__"))}
        self.names.append((o, d))
        for v in d.values():
            self._value(v)

    def _value(self, v):
        if isinstance(v, SIMPLE) and not isinstance(v, tuple):
            return
        if isinstance(v, (staticmethod, classmethod)):
            v = v.__func__
        if isinstance(v, property):
            for f in (v.fget, v.fset, v.fdel):
                if f is not None:
                    self._value(f)
            return
        if id(v) in self.seen:
            return
        if hasattr(v, "cache_clear"):
            self.seen.add(id(v))
            self.caches.append(v)
            return
        if isinstance(v, types.FunctionType):
            if not self._own(v):
                return
            self.seen.add(id(v))
            self.names.append((v, dict(vars(v))))
            for x in list(vars(v).values()) + list(v.__defaults__ or ()) + list((v.__kwdefaults__ or {}).values()):
                self._value(x)
            for c in v.__closure__ or ():
                try:
                    x = c.cell_contents
                except ValueError:
                    continue
                self.cells.append((c, x))
                self._value(x)
            return
        if isinstance(v, types.MethodType):
            self._value(v.__func__)
            return
        if isinstance(v, type):
            if self._own(v):
                self._namespace(v)
            return
        if isinstance(v, tuple):
            for x in v:
                self._value(x)
            return
        if type(v) in (dict, list, set) or isinstance(v, dict):
            self.seen.add(id(v))
            self.boxes.append((v, copy.copy(v)))
            for x in list(v.values() if isinstance(v, dict) else v):
                self._value(x)
            return
        if isinstance(v, np.ndarray):
            self.seen.add(id(v))
            self.boxes.append((v, v.copy()))
            return
        if self._own(type(v)) and hasattr(v, "__dict__"):
            self._namespace(v)

    def restore(self):
        for o, d in self.names:
            now = vars(o)
            if len(now) == len(d) and all(now.get(k, self) is v for k, v in d.items()):
                continue
            for k in [k for k in now if k not in d and not (k.startswith("__") and k.endswith("__"))]:
                delattr(o, k)
            for k, v in d.items():
                if now.get(k, self) is not v:
                    setattr(o, k, v)
        for v, s in self.boxes:
            if isinstance(v, np.ndarray):
                if v.flags.writeable:
                    v[...] = s
            elif isinstance(v, list):
                v[:] = s
            else:
                v.clear()
                v.update(s)
        for c, x in self.cells:
            if c.cell_contents is not x:
                c.cell_contents = x
        for f in self.caches:
            f.cache_clear()
