"""Models of builtins and C-level library calls reached by the code under test."""
import binascii
import collections
import copy
import decimal
import fractions
import functools
import hashlib
import itertools
import json
import math
import operator
import random
import re
import string
import struct
import sys
import types

import z3

from . import core
from .core import EngineExc, EngineError, SpecAbort, PathEnd
from .values import (C, SymInt, SymBool, truth, decide, b_and, b_or, b_not, map_fn, pred_fn, concretize_int, bounds,
                     lin_add, mul, ite, get_atom, of_atom, new_var, sym_pow, floordiv, mod, mk_pw, values_view, MAP_CAP)
from . import seq
from .seq import (SymBytes, SymByteArray, SymStrBase, SymStr, HexStr, HexBytes, FmtStr, NumStr, HexNum, is_sym,
                  mkstr, mkbytes, blen, concat, from_bytes, int_to_bytes, bytes_of_items, list_bytes, join_bytes,
                  join_str, str_concat, hexstr, concretize, cps_of, CI, CB, CL, Blob, chunk_iv, bytes_eq, mk_generic,
                  concretize_opt)
from .dec import SymDecimal, SymFloat, SymRatio, DecStr, dec_from_text, m_fraction


def deep_sym(x, depth=3):
    if is_sym(x):
        return True
    if depth and isinstance(x, (list, tuple)):
        return any(deep_sym(v, depth - 1) for v in x)
    if depth and type(x) is dict:
        return any(deep_sym(k, depth - 1) or deep_sym(v, depth - 1) for k, v in x.items())
    return False


def pytype(x):
    if isinstance(x, SymInt):
        return int
    if isinstance(x, SymBool):
        return bool
    if isinstance(x, (SymBytes, HexBytes)):
        return bytes
    if isinstance(x, SymByteArray):
        return bytearray
    if isinstance(x, SymStrBase):
        return str
    if isinstance(x, SymDecimal):
        return x.cls
    t = getattr(type(x), '__pytype__', None)
    if t is not None:
        return t
    return type(x)


def deep_concretize(x):
    if is_sym(x):
        if isinstance(x, SymDecimal):
            from .dec import concretize_dec
            return concretize_dec(x)
        if isinstance(x, SymFloat):
            raise EngineError('float passed to native code')
        return concretize(x)
    if isinstance(x, list):
        return [deep_concretize(v) for v in x]
    if isinstance(x, tuple) and not hasattr(x, '_fields'):
        return tuple(deep_concretize(v) for v in x)
    if type(x) is dict:
        return {deep_concretize(k): deep_concretize(v) for k, v in x.items()}
    return x


# --------------------------------------------------------------------------- indexing
def index_seq(s, i):
    n = len(s)
    if not decide(b_and([i >= -n, i < n])):
        raise IndexError('%s index out of range' % type(s).__name__)
    items = list(s)
    if items and all(isinstance(v, (int, SymInt)) and not isinstance(v, bool) for v in items):
        if all(isinstance(v, int) for v in items):
            r = map_fn(i, lambda v: items[v])
            if r is not None:
                return r
    if items and all(isinstance(v, str) and len(v) == 1 for v in items):
        r = map_fn(i, lambda v: ord(items[v]))
        if r is not None:
            return mkstr((r,))
    if items and all(isinstance(v, bytes) for v in items) and len({len(v) for v in items}) == 1 and items[0]:
        k = len(items[0])
        r = map_fn(i, lambda v: int.from_bytes(items[v], 'big'))
        if r is not None:
            return mkbytes([chunk_iv(r, k)])
    return items[concretize_int(i)]


def dict_find(d, k):
    """(found, key) by linear comparison."""
    for kk in d:
        e = sym_eq(kk, k)
        if e is True or (e is not False and decide(e)):
            return True, kk
    return False, None


def sym_eq(a, b):
    if a is b:
        return True
    e = a == b
    if e is NotImplemented:
        return False
    return truth(e)


def dict_needs_scan(d, k):
    if deep_sym(k):
        return True
    if core.CUR is not None and C().state.get('symhash'):
        return any(deep_sym(kk) for kk in d)
    return False


def getitem(o, i):
    t = type(o)
    if t is dict or isinstance(o, dict):
        if core.CUR is not None and dict_needs_scan(o, i):
            return dict_get_sym(o, i)
        return o[i]
    if isinstance(i, SymBool):
        i = i.as_int()
    if isinstance(i, SymInt):
        if t in (list, tuple, str, bytes, range, collections.deque, bytearray):
            return index_seq(o, i)
        return o[i]
    if isinstance(i, slice) and t in (list, tuple, str, bytes, bytearray, range):
        if any(isinstance(v, (SymInt, SymBool)) for v in (i.start, i.stop, i.step)):
            if t is bytes:
                return seq.slice_bytes(o, i)
            if t in (list, tuple, str):
                n = len(o)
                st = seq.norm_index(i.start, n, 0) if i.step is None else i.start
                sp = seq.norm_index(i.stop, n, n) if i.step is None else i.stop
                return o[concretize_opt(st):concretize_opt(sp):concretize_opt(i.step)]
            return o[concretize_opt(i.start):concretize_opt(i.stop):concretize_opt(i.step)]
    return o[i]


def dict_get_sym(d, k, default=KeyError):
    # table lookup
    keys = list(d)
    if isinstance(k, SymStr) and len(k.c) == 1 and all(isinstance(x, str) for x in keys):
        cp = k.c[0]
        tbl = {ord(x): d[x] for x in keys if len(x) == 1}
        vals = list(tbl.values())
        if isinstance(cp, SymInt) and vals and (all(isinstance(v, int) and not isinstance(v, bool) for v in vals) or
                                               all(isinstance(v, str) and len(v) == 1 for v in vals)):
            inn = pred_fn(cp, lambda v: v in tbl)
            if inn is not None:
                if not decide(inn):
                    if default is KeyError:
                        raise KeyError(k)
                    return default
                if isinstance(vals[0], int):
                    return map_fn(cp, lambda v: tbl[v])
                return mkstr((map_fn(cp, lambda v: ord(tbl[v])),))
    if isinstance(k, SymInt) and all(isinstance(x, int) for x in keys):
        vals = list(d.values())
        if vals and all(isinstance(v, int) and not isinstance(v, bool) for v in vals):
            inn = pred_fn(k, lambda v: v in d)
            if inn is not None:
                if not decide(inn):
                    if default is KeyError:
                        raise KeyError(k)
                    return default
                return map_fn(k, lambda v: d[v])
    f, kk = dict_find(d, k)
    if f:
        return dict.__getitem__(d, kk) if not deep_sym(kk) else _raw_get(d, kk)
    if default is KeyError:
        if hasattr(type(d), '__missing__'):
            return d.__missing__(k)
        raise KeyError(k)
    return default


def _raw_get(d, kk):
    for a, v in d.items():
        if a is kk:
            return v
    raise KeyError(kk)


def setitem(o, i, v):
    if isinstance(o, dict) and core.CUR is not None and dict_needs_scan(o, i):
        f, kk = dict_find(o, i)
        if f:
            if deep_sym(kk):
                # replace in place keeping order
                items = [(a, v if a is kk else b) for a, b in o.items()]
                o.clear()
                for a, b in items:
                    dict.__setitem__(o, a, b)
            else:
                o[kk] = v
        else:
            o[i] = v
        return
    if isinstance(i, SymInt) and isinstance(o, list):
        i = concretize_int(i)
    o[i] = v


def aug(o, i, f):
    setitem(o, i, f(getitem(o, i)))


def contains(x, c):
    if core.CUR is None:
        return x in c
    t = type(c)
    f = getattr(t, '__symcontains__', None)
    if f is not None:
        return f(c, x)
    sx = is_sym(x)
    if t is str:
        if not sx:
            return x in c
        if isinstance(x, SymStr) and len(x.c) == 1:
            cp = x.c[0]
            r = pred_fn(cp, lambda v: chr(v) in c)
            if r is not None:
                return r
            return b_or([cp == ord(ch) for ch in dict.fromkeys(c)])
        if isinstance(x, SymStrBase):
            xs = cps_of(x)
            n = len(xs)
            cs = [ord(ch) for ch in c]
            return b_or([b_and([a == b for a, b in zip(cs[i:i + n], xs)]) for i in range(len(cs) - n + 1)])
        return x in c
    if t in (bytes, bytearray):
        if not sx:
            return x in c
        if isinstance(x, (SymInt, SymBool)):
            r = pred_fn(x, lambda v: v in c)
            return r if r is not None else b_or([x == v for v in c])
        return SymBytes([CB(bytes(c))]).__symcontains__(x)
    if t in (list, tuple, set, frozenset, collections.deque) or isinstance(c, (tuple, list)):
        if sx or deep_sym(x) or any(deep_sym(v) for v in c):
            out = []
            for v in c:
                e = sym_eq(v, x)
                if e is True:
                    return True
                out.append(e)
            return b_or(out)
        return x in c
    if isinstance(c, (dict, collections.abc.KeysView)):
        d = c
        if isinstance(c, dict) and not dict_needs_scan(c, x):
            return x in c
        if isinstance(x, SymStr) and len(x.c) == 1 and all(isinstance(k, str) for k in d):
            ks = {ord(k) for k in d if len(k) == 1}
            r = pred_fn(x.c[0], lambda v: v in ks)
            if r is not None:
                return r
        return b_or([sym_eq(k, x) for k in d])
    if t is range and isinstance(x, SymInt):
        if c.step == 1:
            return b_and([x >= c.start, x < c.stop])
        return b_or([x == v for v in c])
    if isinstance(c, (types.GeneratorType, map, filter)) or (not hasattr(t, '__contains__') and hasattr(t, '__iter__')):
        for v in c:
            if decide(sym_eq(v, x)):
                return True
        return False
    return x in c


# --------------------------------------------------------------------------- builtins
def m_len(x):
    f = getattr(type(x), '__symlen__', None)
    if f is not None:
        return f(x)
    return len(x)


def m_isinstance(x, t):
    p = pytype(x)
    if p is type(x):
        return isinstance(x, t)
    ts = t if isinstance(t, tuple) else (t,)
    flat = []

    def go(q):
        for u in q:
            if isinstance(u, tuple):
                go(u)
            else:
                flat.append(u)
    go(ts)
    for u in flat:
        if isinstance(u, types.UnionType):
            if issubclass(p, u):
                return True
        elif issubclass(p, u):
            return True
    return False


def m_type(*a, **k):
    if len(a) == 1 and not k:
        return pytype(a[0])
    return type(*a, **k)


def digit_val(cp, base):
    def f(v):
        ch = chr(v)
        if v < 128 and ch.isalnum():
            d = int(ch, 36)
            return d if d < base else -1
        return -1
    return f


def m_int(*a, **k):
    if not a:
        return int(**k)
    x = a[0]
    base = a[1] if len(a) > 1 else k.get('base')
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return x.as_int()
    if isinstance(x, (SymDecimal, SymFloat)):
        return x.__symint__()
    if isinstance(x, SymStrBase) or isinstance(x, HexBytes):
        if isinstance(x, HexBytes):
            x = x.hs
        b = 10 if base is None else concretize_int(base)
        if isinstance(x, HexStr) and b == 16:
            n = blen(x.rope)
            if not decide(n > 0):
                raise ValueError("invalid literal for int() with base 16: ''")
            return from_bytes(x.rope)
        if isinstance(x, NumStr) and b == 10:
            return x.x
        if isinstance(x, HexNum) and b in (16, 0) and (b == 16 or x.prefix):
            return x.x
        cps = x.cps()
        if not cps:
            raise ValueError('invalid literal for int()')
        ds = [map_fn(c, digit_val(c, b)) if isinstance(c, SymInt) else digit_val(c, b)(c) for c in cps]
        if any(d is None for d in ds) or not decide(b_and([d >= 0 for d in ds])):
            s = concretize(x)
            return int(s, b)
        v = 0
        for c in cps:
            d = map_fn(c, digit_val(c, b)) if isinstance(c, SymInt) else digit_val(c, b)(c)
            v = lin_add(d, v, b)
        return v
    if isinstance(x, SymBytes):
        return int(concretize(x), *a[1:], **k)
    f = getattr(type(x), '__int__', None)
    if f is not None and type(x).__module__ not in ('builtins', 'decimal', 'fractions') and base is None and \
            not isinstance(x, (int, float, decimal.Decimal)):
        return f(x)
    return int(*a, **k)


def m_from_bytes(b, byteorder='big', *, signed=False):
    if isinstance(b, SymByteArray):
        b = b.b
    if isinstance(b, SymBytes):
        if byteorder not in ('big', 'little'):
            raise ValueError("byteorder must be either 'little' or 'big'")
        return from_bytes(b, byteorder == 'big', signed)
    if not isinstance(b, (bytes, bytearray, memoryview)):
        b = list(b)
        if any(is_sym(v) for v in b):
            return from_bytes(bytes_of_items(b), byteorder == 'big', signed)
    return int.from_bytes(b, byteorder, signed=signed)


def m_bytes(*a, **k):
    if not a:
        return bytes(**k)
    x = a[0]
    if isinstance(x, SymBytes):
        return x
    if isinstance(x, SymByteArray):
        return x.b
    if isinstance(x, HexBytes):
        return x
    if isinstance(x, SymInt):
        return b'\x00' * concretize_int(x)
    if isinstance(x, SymStrBase):
        return x.encode(*(a[1:] or ('utf-8',)))
    f = getattr(type(x), '__bytes__', None)
    if f is not None:
        return f(x)
    if not isinstance(x, (bytes, bytearray, memoryview, str, int)) and hasattr(x, '__iter__'):
        items = list(x)
        if any(is_sym(v) for v in items):
            return bytes_of_items(items)
        return bytes(items)
    return bytes(*a, **k)


def m_bytearray(*a, **k):
    if a:
        x = a[0]
        if isinstance(x, (SymBytes, SymByteArray)):
            return SymByteArray(x if isinstance(x, SymBytes) else x.b)
        if not isinstance(x, (bytes, bytearray, memoryview, str, int)) and hasattr(x, '__iter__'):
            items = list(x)
            if any(is_sym(v) for v in items):
                return SymByteArray(bytes_of_items(items))
            return SymByteArray(bytes(items))
        if isinstance(x, SymInt):
            return SymByteArray(b'\x00' * concretize_int(x))
    return SymByteArray(bytes(bytearray(*a, **k)))


def m_fromhex(s):
    if isinstance(s, HexStr):
        return s.rope
    if isinstance(s, HexNum) or isinstance(s, (SymStr, FmtStr, NumStr)):
        cps = s.cps()

        def dv(v):
            ch = chr(v)
            return int(ch, 16) if v < 128 and ch in string.hexdigits else -1
        ds = [map_fn(c, dv) if isinstance(c, SymInt) else dv(c) for c in cps]
        if any(d is None for d in ds):
            return bytes.fromhex(concretize(s))
        if not decide(b_and([d >= 0 for d in ds])):
            return bytes.fromhex(concretize(s))
        if len(cps) % 2:
            raise ValueError('non-hexadecimal number found in fromhex()')
        ds = [map_fn(c, dv) if isinstance(c, SymInt) else dv(c) for c in cps]
        return bytes_of_items([lin_add(ds[i + 1], ds[i], 16) for i in range(0, len(ds), 2)])
    return bytes.fromhex(s)


def m_unhexlify(s):
    if isinstance(s, HexBytes):
        return s.hs.rope
    if isinstance(s, SymBytes):
        s = s.decode('ascii')
    if isinstance(s, SymStrBase):
        return m_fromhex(s)
    return binascii.unhexlify(s)


def m_hexlify(b, *a):
    if isinstance(b, SymByteArray):
        b = b.b
    if isinstance(b, SymBytes) and not a:
        return HexBytes(HexStr(b))
    return binascii.hexlify(deep_concretize(b), *a)


def m_str(*a, **k):
    if not a:
        return str(**k)
    x = a[0]
    if isinstance(x, SymInt):
        return NumStr(x)
    if isinstance(x, SymBool):
        return str(bool(x))
    if isinstance(x, SymStrBase):
        return x
    if isinstance(x, SymBytes):
        if len(a) > 1 or k:
            return x.decode(*(a[1:] or (k.get('encoding', 'utf-8'),)))
        return FmtStr(["b'<sym>'"])
    f = getattr(type(x), '__symstr__', None)
    if f is not None:
        return f(x)
    if len(a) == 1 and not k:
        f = type(x).__str__
        if isinstance(f, types.FunctionType):
            return f(x)
        if f is object.__str__:
            return m_repr(x)
        if isinstance(x, (list, tuple, dict)) and deep_sym(x):
            return FmtStr(['<sym-container>'])
        if isinstance(x, BaseException) and deep_sym(x.args):
            return m_str(x.args[0]) if len(x.args) == 1 else FmtStr(['<sym-exc>'])
    return str(*a, **k)


def m_repr(x):
    if isinstance(x, SymInt):
        return NumStr(x)
    if isinstance(x, SymBool):
        return str(bool(x))
    if is_sym(x):
        return FmtStr(['<repr ', x if isinstance(x, SymStrBase) else '', '>'])
    f = type(x).__repr__
    if isinstance(f, types.FunctionType):
        return f(x)
    if isinstance(x, (list, tuple, dict)) and deep_sym(x):
        return FmtStr(['<sym-container>'])
    return repr(x)


def fmt_value(v, conv, spec):
    if conv == 'r':
        v = m_repr(v)
    elif conv == 's':
        v = m_str(v)
    elif conv == 'a':
        v = m_repr(v)
    if is_sym(spec):
        spec = concretize(spec)
    f = getattr(type(v), '__symformat__', None)
    if f is not None:
        return f(v, spec)
    if not is_sym(v):
        ff = type(v).__format__
        if isinstance(ff, types.FunctionType):
            return ff(v, spec)
        if ff is object.__format__ and not spec:
            return m_str(v)
        if isinstance(v, (list, tuple, dict)) and deep_sym(v):
            return FmtStr(['<sym-container>'])
        return format(v, spec)
    if isinstance(v, SymBool):
        return format(bool(v), spec)
    if isinstance(v, SymInt):
        if spec in ('', 'd'):
            return NumStr(v)
        m = re.fullmatch(r'(0?)(\d*)([xXd])', spec)
        if m:
            w = int(m.group(2) or 0)
            if not decide(v >= 0):
                return format(concretize(v), spec)
            if m.group(3) in 'xX':
                up = m.group(3) == 'X'
                if not w or m.group(1):
                    return HexNum(v, '', up).padded(w) if w else HexNum(v, '', up)
                cps = HexNum(v, '', up).cps()
                return mkstr([32] * max(0, w - len(cps)) + cps)
            cps = NumStr(v).cps()
            pad = 48 if m.group(1) else 32
            return mkstr([pad] * max(0, w - len(cps)) + cps)
        return format(concretize(v), spec)
    if isinstance(v, SymStrBase):
        if spec in ('', 's'):
            return v
        return format(concretize(v), spec)
    if isinstance(v, (SymBytes, SymByteArray, HexBytes)):
        return FmtStr(["b'<sym>'"])
    return format(deep_concretize(v), spec)


def m_format(v, spec=''):
    return fmt_value(v, None, spec)


_formatter = string.Formatter()


def str_format(fmt, *a, **k):
    if not deep_sym(a) and not deep_sym(k) and not any(_pyobj(v) for v in a) and not any(_pyobj(v) for v in k.values()):
        return fmt.format(*a, **k)
    out = []
    auto = 0
    for lit, field, spec, conv in _formatter.parse(fmt):
        if lit:
            out.append(lit)
        if field is None:
            continue
        if field == '' or field[0] in '.[':
            field = str(auto) + field
            auto += 1
        first, rest = string._string.formatter_field_name_split(field)
        obj = a[first] if isinstance(first, int) else k[first]
        for is_attr, name in rest:
            obj = getattr(obj, name) if is_attr else getitem(obj, name)
        if spec and '{' in spec:
            spec = str_format(spec, *a, **k)
        out.append(fmt_value(obj, conv, spec))
    return str_concat([m_str(p) if not isinstance(p, (str, SymStrBase)) else p for p in out])


def _pyobj(v):
    return isinstance(type(v).__str__, types.FunctionType) or isinstance(type(v).__repr__, types.FunctionType) or \
        isinstance(v, BaseException)


def fstr(*parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(p)
        else:
            out.append(fmt_value(*p))
    return str_concat(out)


def mod_op(a, b):
    if isinstance(a, str) and (deep_sym(b)):
        args = b if isinstance(b, tuple) else (b,)
        out = []
        i = 0
        pos = 0
        for m in re.finditer(r'%(?:\((\w+)\))?([#0\- +]*)(\d*)(?:\.(\d+))?([diouxXeEfFgGcrs%])', a):
            out.append(a[pos:m.start()])
            pos = m.end()
            ty = m.group(5)
            if ty == '%':
                out.append('%')
                continue
            v = b[m.group(1)] if m.group(1) else args[i]
            i += 1
            if ty == 's':
                out.append(m_str(v))
            elif ty == 'r':
                out.append(m_repr(v))
            elif ty in 'di':
                out.append(fmt_value(v, None, m.group(2) + m.group(3) + 'd' if (m.group(2) or m.group(3)) else 'd'))
            elif ty in 'xX':
                out.append(fmt_value(v, None, m.group(2) + m.group(3) + ty))
            else:
                out.append(m.group(0) % deep_concretize(v))
        out.append(a[pos:])
        return str_concat(out)
    return a % b


class SymRange:
    def __init__(self, *a):
        a = [x.as_int() if isinstance(x, SymBool) else x for x in a]
        self.start = a[0] if len(a) > 1 else 0
        self.stop = a[1] if len(a) > 1 else a[0]
        self.step = concretize_int(a[2]) if len(a) > 2 else 1

    def __iter__(self):
        i = self.start
        while decide(i < self.stop) if self.step > 0 else decide(i > self.stop):
            yield i
            i = i + self.step

    def __symlen__(self):
        n = floordiv(lin_add(lin_add(self.stop, self.start, -1), self.step - 1 if self.step > 0 else self.step + 1),
                     self.step)
        return n if decide(n >= 0) else 0

    def __len__(self):
        return concretize_int(self.__symlen__())

    def __getitem__(self, i):
        return list(self)[i]

    def __symcontains__(self, x):
        if self.step == 1:
            return b_and([x >= self.start, x < self.stop])
        return b_or([x == v for v in self])


def m_range(*a):
    if any(isinstance(x, (SymInt, SymBool)) for x in a):
        return SymRange(*a)
    return range(*a)


def m_map(f, *its):
    def g():
        for args in zip(*its):
            yield call(f, *args)
    return g()


def m_filter(f, it):
    def g():
        for x in it:
            if decide(truth(call(f, x) if f is not None else x)):
                yield x
    return g()


def m_reduce(f, it, *init):
    it = iter(it)
    acc = init[0] if init else next(it)
    for x in it:
        acc = call(f, acc, x)
    return acc


def m_any(it):
    for x in it:
        if decide(truth(x)):
            return True
    return False


def m_all(it):
    for x in it:
        if not decide(truth(x)):
            return False
    return True


def merged_any(site, it, neg=False):
    """any/all over pure expressions, merged into one condition."""
    if core.CUR is None or site in C().nomerge:
        return (m_all if neg else m_any)(it)
    conds = []
    it = iter(it)
    c = C()
    while True:
        specing = bool(conds)
        if specing:
            c.spec.append(site)
        try:
            try:
                x = next(it)
                t = truth(x)
            except StopIteration:
                break
            except SpecAbort as e:
                if specing and e.site is None:
                    e.site = site
                raise
            except Exception:
                if specing:
                    raise SpecAbort(site)
                raise
        finally:
            if specing:
                c.spec.pop()
        if neg:
            t = b_not(t)
        if t is True:
            if not conds:
                return not neg
            conds.append(True)
            break
        if t is not False:
            conds.append(t)
    r = b_or(conds)
    return b_not(r) if neg else r


def m_sum(it, start=0):
    s = start
    for x in it:
        s = s + x
    return s


def minmax(args, key, default, is_min):
    if len(args) == 1:
        items = list(args[0])
    else:
        items = list(args)
    if not items:
        if default is not _NO:
            return default
        raise ValueError('arg is an empty sequence')
    if key is None and any(isinstance(x, SymInt) for x in items) and all(isinstance(x, (int, SymInt)) for x in items):
        r = items[0]
        for x in items[1:]:
            r = ite(truth((x < r) if is_min else (x > r)), x, r)
        return r
    kf = (lambda v: v) if key is None else (lambda v: call(key, v))
    best, bk = items[0], kf(items[0])
    for x in items[1:]:
        k = kf(x)
        if decide(truth(k < bk if is_min else k > bk)):
            best, bk = x, k
    return best


_NO = object()


def m_min(*a, key=None, default=_NO):
    if not deep_sym(a) and key is None and (len(a) > 1 or isinstance(a[0], (list, tuple))):
        return min(*a) if default is _NO else min(*a, default=default)
    return minmax(a, key, default, True)


def m_max(*a, key=None, default=_NO):
    if not deep_sym(a) and key is None and (len(a) > 1 or isinstance(a[0], (list, tuple))):
        return max(*a) if default is _NO else max(*a, default=default)
    return minmax(a, key, default, False)


def m_sorted(it, *, key=None, reverse=False):
    k = None if key is None else (lambda v: call(key, v))
    return sorted(it, key=k, reverse=decide(truth(reverse)))


def m_pow(b, e, m=None):
    if is_sym(b) or is_sym(e) or is_sym(m):
        if isinstance(b, SymDecimal):
            return b ** e
        if not isinstance(b, SymInt) and m is None:
            return b ** concretize_int(e)
        return sym_pow(b, e, m)
    return pow(b, e) if m is None else pow(b, e, m)


def m_hex(x):
    if isinstance(x, SymInt):
        if not decide(x >= 0):
            return hex(concretize(x))
        return HexNum(x)
    return hex(x)


def m_chr(x):
    if isinstance(x, SymInt):
        if not decide(b_and([x >= 0, x < 0x110000])):
            raise ValueError('chr() arg not in range(0x110000)')
        return mkstr((x,))
    return chr(x)


def m_ord(x):
    if isinstance(x, SymStrBase):
        cps = x.cps()
        if len(cps) != 1:
            raise TypeError('ord() expected a character')
        return cps[0]
    if isinstance(x, SymBytes):
        return x[0]
    return ord(x)


def m_bool(*a):
    if not a:
        return False
    return truth(a[0])


def m_list(*a):
    if a and is_sym(a[0]):
        return [x for x in iter(a[0])]
    return list(*a)


def m_tuple(*a):
    if a and is_sym(a[0]):
        return tuple([x for x in iter(a[0])])
    return tuple(*a)


def m_reversed(x):
    if isinstance(x, (SymBytes, SymStrBase)):
        return iter([v for v in iter(x)][::-1])
    return reversed(x)


def m_round(x, n=None):
    if isinstance(x, SymFloat):
        raise EngineError('float arithmetic round')
    if isinstance(x, SymDecimal):
        import decimal as d
        from .dec import round_exp
        if n is None:
            return round_exp(x, 0, d.ROUND_HALF_EVEN)
        return x.quantize(d.Decimal(1).scaleb(-n), rounding=d.ROUND_HALF_EVEN)
    return round(x) if n is None else round(x, n)


def m_abs(x):
    return abs(x)


def m_dict(*a, **k):
    return dict(*a, **k)


def m_hash(x):
    return hash(x)


# --------------------------------------------------------------------------- json
class JsonStr(SymStrBase):
    """json.dumps output with symbolic leaves."""

    def __init__(self, obj):
        self.obj = obj

    __hash__ = SymStrBase.__hash__

    def __symtruth__(self):
        return True

    def __symlen__(self):
        return len(concretize(self))

    def cps(self):
        return [ord(c) for c in concretize(self)]

    def __eq__(self, o):
        if isinstance(o, JsonStr):
            return json_eq(self.obj, o.obj)
        if isinstance(o, str):
            try:
                v = json.loads(o)
            except ValueError:
                return False
            return json_eq(self.obj, v)
        return False

    def __symeval__(self, m):
        return json.dumps(seq.eval_any(m, self.obj))

    def encode(self, *a):
        return JsonBytes(self)

    def startswith(self, p, *a):
        if isinstance(p, str) and len(p) == 1 and not a:
            return p == ('{' if isinstance(self.obj, dict) else '[' if isinstance(self.obj, list) else '"')
        return concretize(self).startswith(p, *a)

    def __getitem__(self, i):
        if isinstance(i, int) and i == 0 and isinstance(self.obj, (dict, list)):
            return '{' if isinstance(self.obj, dict) else '['
        return concretize(self)[i]

    def __symcontains__(self, x):
        return x in concretize(self)

    def strip(self, *a):
        return self

    def replace(self, *a):
        return concretize(self).replace(*a)


class JsonBytes:
    __symvalue__ = True

    def __init__(self, js):
        self.js = js

    def decode(self, *a):
        return self.js

    def __symeval__(self, m):
        return self.js.__symeval__(m).encode()


def json_eq(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return False
        return b_and([json_eq(a[k], b[k]) for k in a])
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return False
        return b_and([json_eq(x, y) for x, y in zip(a, b)])
    return sym_eq(a, b)


def json_norm(x, default=None):
    if x is None or isinstance(x, (bool, int, float, str, SymInt, SymBool)):
        return x
    if isinstance(x, SymStrBase):
        return x
    if isinstance(x, (list, tuple)):
        return [json_norm(v, default) for v in x]
    if isinstance(x, dict):
        return {(k if isinstance(k, str) else json.loads(json.dumps({k: 0})) and list(json.loads(json.dumps({k: 0})))[0]):
                json_norm(v, default) for k, v in x.items()}
    if default is not None:
        return json_norm(call(default, x), default)
    raise TypeError('Object of type %s is not JSON serializable' % pytype(x).__name__)


def has_sym_json(x):
    if is_sym(x):
        return True
    if isinstance(x, (list, tuple)):
        return any(has_sym_json(v) for v in x)
    if isinstance(x, dict):
        return any(has_sym_json(k) or has_sym_json(v) for k, v in x.items())
    return False


def m_json_dumps(obj, **k):
    if core.CUR is not None and has_sym_json(obj):
        return JsonStr(json_norm(obj, k.get('default')))
    return json.dumps(obj, **k)


def json_copy(x):
    if isinstance(x, list):
        return [json_copy(v) for v in x]
    if isinstance(x, dict):
        return {k: json_copy(v) for k, v in x.items()}
    return x


def m_json_loads(s, **k):
    if isinstance(s, JsonBytes):
        s = s.js
    if isinstance(s, JsonStr):
        return json_copy(s.obj)
    if isinstance(s, NumStr):
        return s.x
    if isinstance(s, HexStr):
        # a serialized transaction: hex text is not a JSON document when it starts with '0' + digit
        b = s.rope[0:1]
        if decide(truth(blen(s.rope) > 0)) and decide(b_and([s.rope[0] <= 15, blen(s.rope) > 0])):
            raise json.JSONDecodeError('Extra data', '', 1)
        return json.loads(concretize(s), **k)
    if isinstance(s, (SymStrBase, SymBytes)):
        return json.loads(concretize(s), **k)
    return json.loads(s, **k)


# --------------------------------------------------------------------------- regex
import re._parser as sre_parse
import re._constants as sre_c


def cls_pred(items):
    neg = False
    preds = []
    for op, av in items:
        if op is sre_c.NEGATE:
            neg = True
        elif op is sre_c.LITERAL:
            preds.append(lambda v, a=av: v == a)
        elif op is sre_c.RANGE:
            preds.append(lambda v, a=av: a[0] <= v <= a[1])
        elif op is sre_c.CATEGORY:
            rx = {sre_c.CATEGORY_DIGIT: r'\d', sre_c.CATEGORY_NOT_DIGIT: r'\D', sre_c.CATEGORY_SPACE: r'\s',
                  sre_c.CATEGORY_NOT_SPACE: r'\S', sre_c.CATEGORY_WORD: r'\w', sre_c.CATEGORY_NOT_WORD: r'\W'}[av]
            preds.append(lambda v, r=re.compile(rx): r.match(chr(v)) is not None)
        else:
            raise NotImplementedError
    return (lambda v: not any(p(v) for p in preds)) if neg else (lambda v: any(p(v) for p in preds))


class SymMatch:
    def __init__(self, s):
        self.s = s

    def group(self, *a):
        return self.s

    def __bool__(self):
        return True


def regex_simple(pattern, flags):
    """[(pred, min, max)] plus anchors, or None."""
    p = sre_parse.parse(pattern, flags)
    if p.state.flags & re.IGNORECASE:
        return None
    out = []
    end = None
    for op, av in p:
        if op is sre_c.AT:
            if av in (sre_c.AT_BEGINNING, sre_c.AT_BEGINNING_STRING):
                continue
            if av is sre_c.AT_END:
                end = '$'
                continue
            if av is sre_c.AT_END_STRING:
                end = 'Z'
                continue
            return None
        if end:
            return None
        lo, hi = 1, 1
        if op in (sre_c.MAX_REPEAT, sre_c.MIN_REPEAT):
            lo, hi, sub = av
            if len(sub) != 1:
                return None
            op, av = sub[0]
            hi = None if hi is sre_c.MAXREPEAT else int(hi)
        if op is sre_c.SUBPATTERN:
            return None
        if op is sre_c.IN:
            try:
                pr = cls_pred(av)
            except NotImplementedError:
                return None
        elif op is sre_c.LITERAL:
            pr = lambda v, a=av: v == a
        elif op is sre_c.ANY:
            pr = lambda v: v != 10
        else:
            return None
        out.append((pr, lo, hi))
    return out, end


def re_match(pattern, s, flags=0, full=False, search=False):
    if isinstance(pattern, re.Pattern):
        pattern, flags = pattern.pattern, pattern.flags & ~re.UNICODE
    if not is_sym(s):
        f = re.search if search else re.fullmatch if full else re.match
        return f(pattern, s, flags)
    rs = regex_simple(pattern, flags) if isinstance(pattern, str) else None
    if isinstance(s, HexStr) and rs is not None and not search:
        items, end = rs
        digs = '0123456789ABCDEF' if s.upper_ else HEXL
        if len(items) == 1 and all(items[0][0](ord(d)) for d in digs):
            n = s.__symlen__()
            ok = b_and([n >= items[0][1], True if items[0][2] is None or not (full or end) else n <= items[0][2]])
            return SymMatch(s) if decide(ok) else None
    if isinstance(s, JsonStr) and rs is not None and not search:
        items, end = rs
        first = ord('{' if isinstance(s.obj, dict) else '[')
        if items and not items[0][0](first) and (items[0][1] > 0 or (len(items) == 1 and (end or full))):
            return None
    if rs is None or search:
        f = re.search if search else re.fullmatch if full else re.match
        return f(pattern, concretize(s), flags)
    items, end = rs
    if full:
        end = 'Z'
    cps = cps_of(s)
    n = len(cps)
    # dynamic programming over positions: reach[i] condition
    reach = {0: True}
    for pr, lo, hi in items:
        new = {}
        for i, cnd in reach.items():
            cur = cnd
            j = i
            k = 0
            while True:
                if k >= lo:
                    new[j] = b_or([new.get(j, False), cur])
                if j >= n or (hi is not None and k >= hi):
                    break
                t = pred_fn(cps[j], pr)
                if t is None:
                    return re.match(pattern, concretize(s), flags)
                cur = b_and([cur, t])
                if cur is False:
                    break
                j += 1
                k += 1
        reach = new
    if end == 'Z':
        ok = reach.get(n, False)
    elif end == '$':
        ok = reach.get(n, False)
        if n and reach.get(n - 1) is not None:
            ok = b_or([ok, b_and([reach[n - 1], cps[n - 1] == 10])])
    else:
        ok = b_or(list(reach.values()))
    return SymMatch(s) if decide(truth(ok)) else None


HEXL = '0123456789abcdef'


# --------------------------------------------------------------------------- struct
SIZES = {'b': 1, 'B': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'l': 4, 'L': 4, 'q': 8, 'Q': 8}


def m_struct_pack(fmt, *a):
    if not deep_sym(a):
        return struct.pack(fmt, *a)
    order = 'little'
    f = fmt
    if f and f[0] in '<>!=':
        order = 'big' if f[0] in '>!' else 'little'
        f = f[1:]
    out = []
    i = 0
    for cnt, ch in re.findall(r'(\d*)([a-zA-Z?])', f):
        if ch == 's':
            out.append(a[i])
            i += 1
            continue
        for _ in range(int(cnt or 1)):
            v = a[i]
            i += 1
            try:
                out.append(int_to_bytes(v, SIZES[ch], order, ch.islower()))
            except OverflowError:
                raise struct.error('argument out of range')
    return concat(out)


def m_struct_unpack(fmt, b):
    if not is_sym(b):
        return struct.unpack(fmt, b)
    order = True
    f = fmt
    if f and f[0] in '<>!=':
        order = f[0] in '>!'
        f = f[1:]
    else:
        order = False
    if not decide(blen(b) == struct.calcsize(fmt)):
        raise struct.error('unpack requires a buffer of %d bytes' % struct.calcsize(fmt))
    out = []
    pos = 0
    for cnt, ch in re.findall(r'(\d*)([a-zA-Z?])', f):
        if ch == 's':
            n = int(cnt or 1)
            out.append(b[pos:pos + n])
            pos += n
            continue
        for _ in range(int(cnt or 1)):
            n = SIZES[ch]
            out.append(from_bytes(b[pos:pos + n], order, ch.islower()))
            pos += n
    return tuple(out)


# --------------------------------------------------------------------------- hashing
DIGEST = {'sha256': 32, 'ripemd160': 20, 'sha1': 20, 'sha512': 64, 'md5': 16, 'sha224': 28, 'sha384': 48}


def sym_digest(algo, data):
    """Uninterpreted hash with functional consistency."""
    if isinstance(data, SymByteArray):
        data = data.b
    if isinstance(data, (bytes, bytearray)):
        return hashlib.new(algo, bytes(data)).digest()
    if isinstance(data, HexBytes):
        data = data.expand()
    c = C()
    apps = c.hash_apps.setdefault(algo, [])
    n = DIGEST[algo]
    undecided = []
    for inp, out in apps:
        la, lb = blen(inp), blen(data)
        d = lin_add(la, lb, -1)
        if isinstance(d, int) and d != 0:
            continue
        if not isinstance(d, int):
            # different symbolic lengths: related only if equal; skip unless lengths are forced equal
            if (la == lb) is False:
                continue
        e = try_eq(inp, data)
        if e is True:
            return out
        if e is False or e is None:
            continue
        undecided.append((e, out))
    k = len(apps)
    v = new_var('%s#%d' % (algo, k), 0, 256 ** n - 1)
    out = mkbytes([CI(v, n)])
    apps.append((data, out))
    for e, o in undecided:
        from .values import zb
        c.add(z3.Implies(zb(e), zb(bytes_eq(o, out))))
    # concrete inputs of the same length hashed for real cannot be related here: treated as distinct
    return out


def try_eq(a, b):
    """Equality of ropes without forking; None when it cannot be decided structurally."""
    c = C()
    c.spec.append(('hash',))
    try:
        return truth(bytes_eq(a, b))
    except SpecAbort:
        return None
    finally:
        c.spec.pop()


class SymHash:
    def __init__(self, algo, data=b''):
        self.algo = algo
        self.name = algo
        self.data = data
        self.digest_size = DIGEST[algo]
        self.block_size = 64

    def update(self, b):
        self.data = concat([self.data, b.b if isinstance(b, SymByteArray) else b])

    def digest(self):
        return sym_digest(self.algo, self.data)

    def hexdigest(self):
        return hexstr(self.digest())

    def copy(self):
        return SymHash(self.algo, self.data)


def mk_hash(algo):
    def f(data=b'', **k):
        if isinstance(data, str) or isinstance(data, SymStrBase):
            raise TypeError('Strings must be encoded before hashing')
        return SymHash(algo, data.b if isinstance(data, SymByteArray) else data)
    return f


def m_hash_new(name, data=b'', **k):
    name = name.lower()
    if name not in DIGEST:
        return hashlib.new(name, deep_concretize(data), **k)
    return SymHash(name, data)


# --------------------------------------------------------------------------- ECDSA (ideal functionality)
import coincurve
REAL_PRIVATE, REAL_PUBLIC = coincurve.PrivateKey, coincurve.PublicKey
import coincurve.ecdsa
import coincurve.keys
import coincurve.utils


def ec_sign(pk, data, *a, **k):
    """Ideal deterministic signature: an opaque DER string per (key, message)."""
    if not is_sym(data):
        return REAL_PRIVATE.sign(pk, data, *a, **k)
    if a or k:
        C().degrade('sign with custom hasher')
    c = C()
    sec = pk.secret
    for s, d, out, _ in c.sigs:
        if s == sec:
            e = try_eq(d, data)
            if e is True:
                return out
    i = len(c.sigs)
    ln = new_var('siglen%d' % i, 68, 72)
    blob = Blob('sig%d' % i, ln)
    out = SymBytes([CL(blob, 0, ln)])
    c.sigs.append((sec, data, out, pk.public_key))
    return out


def known_sig(sig):
    for s, d, out, pub in C().sigs:
        e = try_eq(out, sig)
        if e is True:
            return s, d, out, pub
    return None


def m_der_to_cdata(der, *a, **k):
    if not is_sym(der):
        return coincurve.ecdsa.der_to_cdata(der, *a, **k)
    if known_sig(der) is not None:
        return object()
    n = blen(der)
    lo, hi = bounds(n)
    if hi < 8:
        raise ValueError('The DER-encoded signature could not be parsed.')
    # a DER signature starts with 0x30
    if not decide(der[0] == 0x30):
        raise ValueError('The DER-encoded signature could not be parsed.')
    C().degrade('DER parse of an unknown symbolic string')
    return coincurve.ecdsa.der_to_cdata(concretize(der), *a, **k)


def m_verify_signature(sig, data, pub, *a, **k):
    if not is_sym(sig) and not is_sym(data) and not is_sym(pub):
        return coincurve.verify_signature(sig, data, pub, *a, **k)
    ks = known_sig(sig) if is_sym(sig) else None
    if ks is None:
        return False
    s, d, out, p = ks
    if not (sym_eq(pub, p.format()) is True or sym_eq(pub, p.format(compressed=False)) is True):
        return False
    e = try_eq(d, data)
    if e is True:
        return True
    if e is False:
        return False
    # same key, other message: valid only for an equal message
    return decide(truth(bytes_eq(d, data)))


# --------------------------------------------------------------------------- Decimal
def m_decimal_new(cls, value='0', context=None):
    if isinstance(value, SymInt):
        return SymDecimal(value, 0, 1, cls)
    if isinstance(value, SymRatio):
        raise TypeError('conversion from Fraction to Decimal is not supported')
    if isinstance(value, SymDecimal):
        return SymDecimal(value.coef, value.exp, value.den, cls)
    if isinstance(value, SymBool):
        return SymDecimal(value.as_int(), 0, 1, cls)
    if isinstance(value, SymFloat):
        raise EngineError('Decimal of a binary float')
    if isinstance(value, SymStrBase):
        r = dec_from_text(value, cls)
        if r is not None:
            return r
        value = concretize(value)
    return decimal.Decimal.__new__(cls, value) if context is None else decimal.Decimal.__new__(cls, value, context)


def m_decimal(value='0', context=None):
    return m_decimal_new(decimal.Decimal, value, context)


# --------------------------------------------------------------------------- random
def rand_below(n):
    c = C()
    n = concretize_int(n)
    if getattr(c, 'rand_limit', None) is not None and len(c.choices) >= c.rand_limit:
        return 0
    v = c.choose_free(n)
    c.choices.append(v)
    return v


# --------------------------------------------------------------------------- copy
def m_copy(x):
    if is_sym(x) and not isinstance(x, SymByteArray):
        return x
    return copy.copy(x)


def m_deepcopy(x, memo=None):
    return copy.deepcopy(x)


for _cls in (SymInt, SymBool, SymBytes, SymStrBase, SymDecimal, HexBytes, JsonBytes):
    _cls.__deepcopy__ = lambda self, memo: self
    _cls.__copy__ = lambda self: self


MODELS = {
    len: m_len, isinstance: m_isinstance, type: m_type, int: m_int, int.from_bytes: m_from_bytes,
    bytes: m_bytes, bytearray: m_bytearray, bytes.fromhex: m_fromhex, bytearray.fromhex: lambda s: SymByteArray(m_fromhex(s)),
    binascii.hexlify: m_hexlify, binascii.b2a_hex: m_hexlify, binascii.unhexlify: m_unhexlify,
    binascii.a2b_hex: m_unhexlify, str: m_str, repr: m_repr, format: m_format, range: m_range, map: m_map,
    filter: m_filter, functools.reduce: m_reduce, any: m_any, all: m_all, sum: m_sum, min: m_min, max: m_max,
    sorted: m_sorted, pow: m_pow, hex: m_hex, chr: m_chr, ord: m_ord, bool: m_bool, list: m_list, tuple: m_tuple,
    reversed: m_reversed, round: m_round, json.dumps: m_json_dumps, json.loads: m_json_loads,
    re.match: lambda p, s, flags=0: re_match(p, s, flags),
    re.fullmatch: lambda p, s, flags=0: re_match(p, s, flags, full=True),
    re.search: lambda p, s, flags=0: re_match(p, s, flags, search=True),
    struct.pack: m_struct_pack, struct.unpack: m_struct_unpack,
    hashlib.sha256: mk_hash('sha256'), hashlib.sha1: mk_hash('sha1'), hashlib.sha512: mk_hash('sha512'),
    hashlib.new: m_hash_new,
    coincurve.ecdsa.der_to_cdata: m_der_to_cdata, coincurve.verify_signature: m_verify_signature,
    fractions.Fraction: m_fraction, decimal.Decimal: m_decimal, decimal.Decimal.__new__: m_decimal_new,
    copy.copy: m_copy,
    operator.getitem: getitem, operator.contains: lambda c, x: contains(x, c), operator.truth: lambda x: truth(x),
    operator.not_: lambda x: b_not(truth(x)), operator.index: lambda x: x,
    math.floor: lambda x: x.__floor__() if is_sym(x) else math.floor(x),
    math.ceil: lambda x: x.__ceil__() if is_sym(x) else math.ceil(x),
    math.trunc: lambda x: x.__trunc__() if is_sym(x) else math.trunc(x),
}
# models that must run even when no argument is symbolic at the top level
ALWAYS = {len, bytes, map, filter, functools.reduce, any, all, sum, min, max, sorted, str, repr, format, json.dumps,
          isinstance, range, bytearray, hashlib.sha256, hashlib.new, int, bytes.fromhex}

NATIVE_OK = {
    getattr, setattr, hasattr, iter, next, id, callable, print, enumerate, zip, list, tuple, set, frozenset, dict,
    object, abs, divmod, slice, property, classmethod, staticmethod, vars, dir, issubclass, delattr,
    collections.deque, collections.OrderedDict, collections.defaultdict, collections.Counter, itertools.islice,
    itertools.chain, itertools.count, itertools.cycle, itertools.repeat, itertools.starmap, itertools.takewhile,
    itertools.dropwhile, itertools.zip_longest, itertools.product, itertools.tee, operator.itemgetter,
    operator.attrgetter, functools.partial, copy.deepcopy, itertools.chain.from_iterable, hash,
    operator.add, operator.sub, operator.mul, operator.xor, operator.and_, operator.or_, operator.eq, operator.ne,
    operator.lt, operator.le, operator.gt, operator.ge, operator.lshift, operator.rshift, operator.concat,
    operator.floordiv, operator.mod, operator.neg,
}

NATIVE_MODULES = ('requests', 'random', 'collections', 'functools', 'logging', 'copy', 'typing', 'contextlib', 'enum', 'abc',
                  'dataclasses', 'unittest', 'types', 'operator', 'itertools', 'warnings')
INSTRUMENTED = ('bit', 'props', 'symbit')


def str_method(s, name, a, k):
    if name == 'join':
        return join_str(s, a[0])
    if name == 'format':
        return str_format(s, *a, **k)
    if name in ('find', 'index', 'rfind', 'rindex') and len(a) == 1 and isinstance(a[0], SymStr) and len(a[0].c) == 1:
        cp = a[0].c[0]
        f = getattr(s, 'find' if name in ('find', 'index') else 'rfind')
        r = map_fn(cp, lambda v: f(chr(v)))
        if r is not None:
            if name in ('index', 'rindex') and not decide(r >= 0):
                raise ValueError('substring not found')
            return map_fn(cp, lambda v: f(chr(v))) if isinstance(cp, SymInt) else r
    if not deep_sym(a) and not deep_sym(k):
        return getattr(s, name)(*a, **k)
    g = SymStr.__dict__.get(name)
    if g is not None:
        return g(SymStr(tuple(ord(c) for c in s)), *a, **k)
    return getattr(s, name)(*[deep_concretize(x) for x in a], **k)


def bytes_method(s, name, a, k):
    if name == 'join':
        return join_bytes(s, [x for x in a[0]])
    if not deep_sym(a) and not deep_sym(k):
        return getattr(s, name)(*a, **k)
    if name == 'decode':
        return s.decode(*a, **k)
    g = SymBytes.__dict__.get(name)
    if g is not None:
        return g(SymBytes([CB(s)]), *a, **k)
    return getattr(s, name)(*[deep_concretize(x) for x in a], **k)


def dict_method(d, name, a, k):
    if name in ('get', 'pop', 'setdefault', '__getitem__', '__contains__') and a and dict_needs_scan(d, a[0]):
        if name == 'get':
            return dict_get_sym(d, a[0], a[1] if len(a) > 1 else None)
        if name == '__getitem__':
            return dict_get_sym(d, a[0])
        if name == '__contains__':
            return contains(a[0], d)
        f, kk = dict_find(d, a[0])
        if name == 'pop':
            if f:
                v = _raw_get(d, kk)
                items = [(x, y) for x, y in d.items() if x is not kk]
                d.clear()
                for x, y in items:
                    dict.__setitem__(d, x, y)
                return v
            if len(a) > 1:
                return a[1]
            raise KeyError(a[0])
        if f:
            return _raw_get(d, kk)
        v = a[1] if len(a) > 1 else None
        d[a[0]] = v
        return v
    return getattr(d, name)(*a, **k)


BUILTIN_METHOD = type(len)
METHOD_DESC = type(str.join)
SLOT_WRAP = type(int.__add__)
METHOD_WRAP = type((1).__add__)
CLASSMETHOD_DESC = type(int.__dict__['from_bytes'])


def call(_f, /, *a, **k):
    if core.CUR is None:
        return _f(*a, **k)
    f = _f
    tf = type(f)
    if tf is types.FunctionType:
        mod_name = f.__module__ or ''
        if mod_name == 'bit' or mod_name.startswith('bit.') or mod_name.startswith('props'):
            return f(*a, **k)
        m = MODELS.get(f)
        if m is not None:
            return m(*a, **k)
        if not mod_name.startswith(('symbit',) + NATIVE_MODULES) and (deep_sym(a) or deep_sym(k)):
            C().degrade('call to %s.%s with symbolic arguments' % (mod_name, f.__qualname__))
            return f(*[deep_concretize(x) for x in a], **{n: deep_concretize(v) for n, v in k.items()})
        return f(*a, **k)
    if tf is types.MethodType:
        fn = f.__func__
        s = f.__self__
        if isinstance(s, REAL_PRIVATE):
            if fn.__name__ == 'sign':
                return ec_sign(s, *a, **k)
        if isinstance(s, REAL_PUBLIC) and fn.__name__ == 'verify' and (deep_sym(a)):
            return m_verify_signature(a[0], a[1], s.format())
        mod_name = getattr(fn, '__module__', '') or ''
        if mod_name.startswith('re') and isinstance(s, re.Pattern):
            pass
        if (mod_name.startswith('coincurve') or mod_name.startswith('json')) and (deep_sym(a) or deep_sym(k)):
            C().degrade('call to %s.%s with symbolic arguments' % (mod_name, fn.__qualname__))
            return f(*[deep_concretize(x) for x in a], **{n: deep_concretize(v) for n, v in k.items()})
        return f(*a, **k)
    if tf is functools.partial:
        kk = dict(f.keywords)
        kk.update(k)
        return call(f.func, *f.args, *a, **kk)
    if isinstance(f, type):
        if f in MODELS:
            if f in ALWAYS or deep_sym(a, 1) or deep_sym(k, 1):
                return MODELS[f](*a, **k)
            return f(*a, **k)
        if f in (REAL_PRIVATE, REAL_PUBLIC) and (deep_sym(a) or deep_sym(k)):
            C().degrade('coincurve key from symbolic bytes')
            return f(*[deep_concretize(x) for x in a], **{n: deep_concretize(v) for n, v in k.items()})
        return f(*a, **k)
    if tf is BUILTIN_METHOD:
        s = f.__self__
        ts = type(s)
        if s is None or ts is types.ModuleType or isinstance(s, type):
            try:
                m = MODELS.get(f)
            except TypeError:
                m = None
            if m is not None:
                if f in ALWAYS or deep_sym(a, 2) or deep_sym(k, 2):
                    return m(*a, **k)
                return f(*a, **k)
            if isinstance(s, type) and f.__name__ == '__new__' and issubclass(s, decimal.Decimal):
                if deep_sym(a):
                    return m_decimal_new(*a, **k)
                return f(*a, **k)
            if isinstance(s, type) and f.__name__ == 'from_bytes' and issubclass(s, int):
                return m_from_bytes(*a, **k)
            if f in NATIVE_OK or not (deep_sym(a) or deep_sym(k)):
                return f(*a, **k)
            if isinstance(s, type) and f.__name__ in ('__new__', 'fromkeys', '__init_subclass__'):
                return f(*a, **k)
            if getattr(f, '__module__', None) in ('_operator', 'itertools', '_functools', '_collections'):
                return f(*a, **k)
            C().degrade('call to %s with symbolic arguments' % getattr(f, '__qualname__', f))
            return f(*[deep_concretize(x) for x in a], **{n: deep_concretize(v) for n, v in k.items()})
        if ts is str:
            return str_method(s, f.__name__, a, k)
        if ts is bytes or ts is bytearray:
            if ts is bytearray:
                if f.__name__ in ('extend', 'append', 'insert'):
                    a = tuple(deep_concretize(x) for x in a)
                return f(*a, **k)
            return bytes_method(s, f.__name__, a, k)
        if isinstance(s, dict):
            return dict_method(s, f.__name__, a, k)
        if ts in (list, set, collections.deque, tuple, frozenset) or isinstance(s, (list, tuple)):
            if f.__name__ == 'sort':
                kf = k.get('key')
                if kf is not None:
                    k = dict(k)
                    k['key'] = lambda v: call(kf, v)
                return f(*a, **k)
            if f.__name__ in ('insert', 'pop') and isinstance(s, list):
                a = tuple(concretize_int(x) if i == 0 else x for i, x in enumerate(a))
            return f(*a, **k)
        if isinstance(s, re.Pattern) and deep_sym(a):
            if f.__name__ in ('match', 'fullmatch', 'search'):
                return re_match(s, a[0], 0, f.__name__ == 'fullmatch', f.__name__ == 'search')
            return f(*[deep_concretize(x) for x in a], **k)
        if isinstance(s, int) and deep_sym(a) or (isinstance(s, int) and deep_sym(k)):
            if f.__name__ == 'to_bytes':
                a = [concretize_int(x) if i == 0 else x for i, x in enumerate(a)]
                if 'length' in k:
                    k = dict(k, length=concretize_int(k['length']))
                return f(*a, **k)
            return f(*[deep_concretize(x) for x in a], **k)
        if isinstance(s, (decimal.Decimal, fractions.Fraction)) and deep_sym(a):
            return getattr(SymDecimal, f.__name__)(_as_dec(s), *a, **k)
        if hasattr(ts, 'digest') and f.__name__ == 'update' and deep_sym(a):
            raise EngineError('hash object created outside the model')
        return f(*a, **k)
    if tf is METHOD_DESC and a:
        if is_sym(a[0]):
            return getattr(a[0], f.__name__)(*a[1:], **k)
        if isinstance(a[0], str):
            return str_method(a[0], f.__name__, a[1:], k)
        if isinstance(a[0], bytes):
            return bytes_method(a[0], f.__name__, a[1:], k)
        if isinstance(a[0], dict):
            return dict_method(a[0], f.__name__, a[1:], k)
        return f(*a, **k)
    if tf in (SLOT_WRAP,) and a and is_sym(a[0]):
        return getattr(a[0], f.__name__)(*a[1:], **k)
    if tf is operator.itemgetter and deep_sym(a):
        r = f.__reduce__()[1]
        if len(r) == 1:
            return getitem(a[0], r[0])
        return tuple(getitem(a[0], x) for x in r)
    return f(*a, **k)


def _as_dec(d):
    from .dec import as_dec
    return as_dec(d)


# --------------------------------------------------------------------------- boolean structure
def s_not(x):
    t = truth(x)
    return (not t) if isinstance(t, bool) else b_not(t)


def s_and(site, test, *fs):
    return _boolop(site, test, fs, True)


def s_or(site, test, *fs):
    return _boolop(site, test, fs, False)


def _boolop(site, test, fs, is_and):
    c = core.CUR
    n = len(fs)
    conds = []
    for i, f in enumerate(fs):
        if conds:
            c.spec.append(site)
            try:
                v = f()
                t = truth(v)
            except SpecAbort as e:
                raise
            except Exception:
                raise SpecAbort(site)
            finally:
                c.spec.pop()
        else:
            v = f()
            if c is None:
                t = bool(v)
            else:
                t = truth(v)
        last = i == n - 1
        if isinstance(t, bool):
            if conds:
                if t is (not is_and):
                    # absorbing element reached
                    if test or isinstance(v, (bool, SymBool)):
                        return t
                    raise SpecAbort(site)
                if not test and not isinstance(v, (bool, SymBool)):
                    raise SpecAbort(site)
                continue
            if t is (not is_and):
                return v
            if last:
                return v
            continue
        # symbolic truth
        mergeable = (test or isinstance(v, SymBool)) and site not in c.nomerge
        if not mergeable:
            if conds:
                raise SpecAbort(site)
            if last:
                return v
            b = decide(t)
            if b is (not is_and):
                return v
            continue
        conds.append(t)
    return b_and(conds) if is_and else b_or(conds)


def s_ifexp(site, t, f, g):
    t = truth(t)
    if isinstance(t, bool):
        return f() if t else g()
    c = C()
    if site in c.nomerge:
        return f() if decide(t) else g()
    c.spec.append(site)
    try:
        a = f()
        b = g()
    except SpecAbort:
        raise
    except Exception:
        raise SpecAbort(site)
    finally:
        c.spec.pop()
    try:
        return merge_val(t, a, b)
    except TypeError:
        return a if decide(t) else b


def merge_val(t, a, b):
    if a is b:
        return a
    if isinstance(a, (bytes, SymBytes)) and isinstance(b, (bytes, SymBytes)):
        la, lb = blen(a), blen(b)
        if isinstance(la, int) and isinstance(lb, int) and la == lb and la <= 64:
            if la == 0:
                return a
            return mkbytes([chunk_iv(ite(t, from_bytes(a), from_bytes(b)), la)])
        raise TypeError('merge')
    if isinstance(a, str) and isinstance(b, str):
        if a == b:
            return a
        raise TypeError('merge')
    if type(a) is type(b) and isinstance(a, (int, bool)) and a == b:
        return a
    return ite(t, a, b)


UNDEF = type('UNDEF', (), {'__repr__': lambda s: 'UNDEF'})()


class Abort(Exception):
    pass


def s_test(site, v):
    """bool, or SymBool when the site may be merged."""
    if core.CUR is None:
        return bool(v)
    t = truth(v)
    if isinstance(t, bool):
        return t
    if site in C().nomerge:
        return decide(t)
    return t


def s_names(loc, *names):
    return tuple(loc.get(n, UNDEF) for n in names)


def spec_enter(site):
    C().spec.append(site)


def spec_exit():
    C().spec.pop()


def s_merge(site, t, a, b):
    out = []
    for x, y in zip(a, b):
        if x is UNDEF or y is UNDEF:
            raise SpecAbort(site)
        try:
            out.append(merge_val(t, x, y))
        except TypeError:
            raise SpecAbort(site)
    return tuple(out)


def spec_fail(site, e):
    if isinstance(e, EngineExc):
        raise e
    raise SpecAbort(site)


def enter(name):
    if core.CUR is not None:
        core.CUR.stats.functions.add(name)
