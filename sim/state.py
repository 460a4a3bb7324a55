"""Process-global state of modules under test: every run starts from the state right after import.

Works on whatever globals the modules have (values, containers, class attributes, functools caches), so that
it does not depend on how a module remembers things."""
import collections
import copy
import types

CONT = (dict, list, set, collections.deque)
SKIP = (types.ModuleType, types.FunctionType, types.BuiltinFunctionType)


def _copy(v, depth=0):
    if depth > 3:
        return v
    if type(v) is dict:
        return {k: _copy(x, depth + 1) for k, x in v.items()}
    if type(v) is list:
        return [_copy(x, depth + 1) for x in v]
    if type(v) is set:
        return set(v)
    if type(v) is collections.deque:
        return collections.deque(v, v.maxlen)
    return v


def _fill(v, c):
    if type(v) is dict:
        v.clear()
        v.update(_copy(c))
    elif type(v) is list:
        v[:] = _copy(c)
    elif type(v) is set:
        v.clear()
        v.update(c)
    elif type(v) is collections.deque:
        v.clear()
        v.extend(c)


class ModuleState:
    def __init__(self, *modules):
        self.mods = modules
        self.snap = []
        self.known = {}
        self.defaults = []       # mutable default arguments
        self.insts = []          # shared parser objects and their first state
        for m in modules:
            self._take(m.__dict__, m)
            for k, c in list(m.__dict__.items()):
                if isinstance(c, type) and c.__module__ == m.__name__:
                    self._take(c.__dict__, c)

    def _take(self, d, owner):
        vals = {}
        for k, v in d.items():
            if k.startswith("__") and k.endswith("__"):
                continue
            vals[k] = (v, _copy(v) if isinstance(v, CONT) else None)
            if not isinstance(v, type) and getattr(type(v), "__module__", "").startswith("ruamel.") and hasattr(v, "__dict__"):
                self.insts.append((v, copy.deepcopy(v.__dict__)))
            elif getattr(type(v), "__module__", "").startswith("cwl_utils.") and not isinstance(v, type) and type(getattr(v, "__dict__", None)) is dict and id(v) not in self.known:
                self.known[id(v)] = v
                self._take(v.__dict__, v)
            f = v.__func__ if isinstance(v, (staticmethod, classmethod)) else v
            f = getattr(f, "__wrapped__", f)
            for c in list(getattr(f, "__defaults__", None) or ()) + list((getattr(f, "__kwdefaults__", None) or {}).values()):
                if isinstance(c, CONT):
                    self.defaults.append((c, _copy(c)))
        self.snap.append((owner, vals))

    def restore(self):
        for v, d in self.insts:
            v.__dict__.clear()
            v.__dict__.update(copy.deepcopy(d))
        for v, c in self.defaults:
            _fill(v, c)
        for owner, vals in self.snap:
            d = owner.__dict__
            ismod = isinstance(owner, types.ModuleType)
            for k in list(d):
                if k.startswith("__") and k.endswith("__"):
                    continue
                if k not in vals:
                    if ismod and (isinstance(d[k], types.ModuleType)):
                        continue            # a lazily imported submodule
                    delattr(owner, k)
                    continue
                v, c = vals[k]
                if d[k] is not v:
                    setattr(owner, k, v)
                if c is not None:
                    _fill(v, c)
            for k, (v, c) in vals.items():
                if k not in owner.__dict__:
                    setattr(owner, k, v)
                f = v.__func__ if isinstance(v, (staticmethod, classmethod)) else v
                cc = getattr(f, "cache_clear", None)
                if callable(cc):
                    cc()
