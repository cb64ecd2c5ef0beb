"""Shared between the symbolic explorer and the concrete replayer (no z3 here)."""
import decimal
import json


class Case:
    """One bounded harness run: fn(h, **kw) executed symbolically over every path."""

    def __init__(self, name, fn, bounds='', must=(), budget=None, max_paths=20000, weight=1, witnesses=3, **kw):
        self.name, self.fn, self.bounds, self.kw = name, fn, bounds, kw
        self.must = tuple(must)
        self.budget = budget
        self.max_paths = max_paths
        self.weight = weight
        self.witnesses = witnesses


def enc(v):
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return v
    if isinstance(v, int):
        return {'i': str(v)}
    if isinstance(v, (bytes, bytearray)):
        return {'b': bytes(v).hex()}
    if isinstance(v, decimal.Decimal):
        return {'d': str(v)}
    if isinstance(v, float):
        return {'f': repr(v)}
    if isinstance(v, list):
        return [enc(x) for x in v]
    if isinstance(v, tuple):
        return {'t': [enc(x) for x in v]}
    if isinstance(v, dict):
        return {'m': [[enc(k), enc(x)] for k, x in v.items()]}
    return {'r': repr(v)}


def dec(v):
    if isinstance(v, list):
        return [dec(x) for x in v]
    if isinstance(v, dict):
        if 'i' in v:
            return int(v['i'])
        if 'b' in v:
            return bytes.fromhex(v['b'])
        if 'd' in v:
            return decimal.Decimal(v['d'])
        if 'f' in v:
            return float(v['f'])
        if 't' in v:
            return tuple(dec(x) for x in v['t'])
        if 'm' in v:
            return {dec(k): dec(x) for k, x in v['m']}
        return v.get('r')
    return v


def purge(extra=()):
    import sys
    for m in [m for m in sys.modules if m == 'bit' or m.startswith('bit.')]:
        del sys.modules[m]


class Patches:
    def __init__(self):
        self.undo = []

    def set(self, obj, name, val):
        had = name in vars(obj) if hasattr(obj, '__dict__') else hasattr(obj, name)
        old = vars(obj).get(name) if had and hasattr(obj, '__dict__') else getattr(obj, name, None)
        self.undo.append((obj, name, had, old))
        setattr(obj, name, val)

    def restore(self):
        for obj, name, had, old in reversed(self.undo):
            if had:
                setattr(obj, name, old)
            else:
                try:
                    delattr(obj, name)
                except AttributeError:
                    pass
        self.undo = []


def deep_eq(a, b):
    return a == b


class BaseH:
    """What both harness back ends share."""

    def patch(self, obj, name, val):
        self.patches.set(obj, name, val)

    def attempt(self, f, *a, **k):
        """(exception or None, result)."""
        try:
            return None, self.call(f, *a, **k)
        except Exception as e:  # engine control flow is BaseException
            return e, None

    def call(self, f, *a, **k):
        return f(*a, **k)
