"""Canonical dumps of library objects and of the library's module state, without naming any attribute of it.

Two states are merged only when their dumps are equal: every attribute of every reachable library object, every value in every
container, the aliasing between mutable containers and all mutable module/class level data are part of the dump, so merged states
have the same futures (the library keeps no other state)."""
import copy, sys, types
from decimal import Decimal
from fractions import Fraction

ATOM = (int, float, complex, str, bytes, bool, type(None), Decimal, Fraction)


def attrs(o):
    names = []
    for k in type(o).__mro__:
        s = k.__dict__.get("__slots__", ())
        names += [s] if isinstance(s, str) else list(s)
    names += list(getattr(o, "__dict__", {}))
    return sorted(set(n for n in names if n not in ("__dict__", "__weakref__")))


def dump(o, seen=None):
    seen = {} if seen is None else seen
    if isinstance(o, ATOM):
        return repr(o)
    if id(o) in seen:
        return f"@{seen[id(o)][0]}"
    if isinstance(o, tuple):
        return "(" + ",".join(dump(x, seen) for x in o) + ")"
    if isinstance(o, (types.FunctionType, types.BuiltinFunctionType, type, types.ModuleType, types.MethodType)):
        return f"<{getattr(o, '__qualname__', repr(o))}>"
    seen[id(o)] = (len(seen), o)          # keep o alive: ids stay unique during the dump
    if isinstance(o, list):
        return "[" + ",".join(dump(x, seen) for x in o) + "]"
    if isinstance(o, dict):
        return "{" + ",".join(sorted(f"{dump(k, seen)}:{dump(v, seen)}" for k, v in o.items())) + "}"
    if isinstance(o, (set, frozenset)):
        return "{" + ",".join(sorted(dump(x, seen) for x in o)) + "}"
    if type(o).__module__.startswith("PathLib"):
        out = []
        for n in attrs(o):
            try:
                out.append(f"{n}={dump(getattr(o, n), seen)}")
            except AttributeError:
                out.append(f"{n} unset")
        return f"{type(o).__name__}<" + ",".join(out) + ">"
    return f"<{type(o).__name__}>"


def _holders():
    for name in sorted(m for m in sys.modules if m == "PathLib" or m.startswith("PathLib.")):
        mod = sys.modules[name]
        yield name, mod
        for k, v in sorted(vars(mod).items()):
            if isinstance(v, type) and v.__module__ == name:
                yield f"{name}.{k}", v


def _vars(h):
    for k, v in sorted(vars(h).items()):
        if k.startswith("__") and k.endswith("__"):
            continue
        if isinstance(v, ATOM + (list, dict, set)):
            yield k, v


def module_dump(prefix=""):
    seen = {}
    return ";".join(f"{n}.{k}={dump(v, seen)}" for n, h in _holders() if n.startswith(prefix) for k, v in _vars(h))


class ModuleState:
    """Snapshot of all mutable module- and class-level data of the library; restore() puts it back in place."""

    def __init__(self):
        self.saved = []
        for n, h in _holders():
            for k, v in _vars(h):
                self.saved.append((h, k, v, copy.deepcopy(v) if isinstance(v, (list, dict, set)) else v))
        self.memos = [v for _, h in _holders() for v in vars(h).values() if hasattr(v, "cache_clear")]
        self.sizes = [(h, set(vars(h)), len(vars(h))) for _, h in _holders()]

    def restore(self):
        for f in self.memos:
            f.cache_clear()
        for h, names, n in self.sizes:
            if len(vars(h)) != n:
                for k in [k for k in vars(h) if k not in names]:
                    delattr(h, k)
        for h, k, ref, val in self.saved:
            if isinstance(ref, list):
                if ref != val:
                    ref[:] = copy.deepcopy(val)
            elif isinstance(ref, dict):
                if ref != val:
                    ref.clear()
                    ref.update(copy.deepcopy(val))
            elif isinstance(ref, set):
                if ref != val:
                    ref.clear()
                    ref |= val
            if vars(h).get(k) is not ref:
                setattr(h, k, ref)


def answer(o):
    """What a caller can see of a returned value, as plain nested data."""
    from PathLib.Bezier import Bezier, BContour, BOutline
    from PathLib.PathUtilities import BoundsRectangle
    if isinstance(o, bool) or o is None or isinstance(o, str):
        return o
    if isinstance(o, (int, float, Decimal, Fraction)):
        return float(o)
    if isinstance(o, Bezier):
        return ["Bezier", [answer(p) for p in o.controlPoints]]
    if isinstance(o, BoundsRectangle):
        return ["Rect", [answer(v) for v in o.points]]
    if isinstance(o, BContour):
        return ["BContour", [answer(b) for b in o]]
    if isinstance(o, dict):
        return ["dict", [[answer(k), answer(v)] for k, v in sorted(o.items())]]
    if isinstance(o, (list, tuple)) or hasattr(o, "__iter__"):
        return [answer(x) for x in o]
    return repr(type(o))


def same(a, b, tol=1e-9):
    if isinstance(a, float) and isinstance(b, float):
        return a == b or abs(a - b) <= tol * max(1.0, abs(a), abs(b)) or (a != a and b != b)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    return type(a) == type(b) and a == b
