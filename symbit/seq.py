"""Symbolic bytes (ropes) and strings."""
import z3

from . import core
from .core import PathEnd, SpecAbort, EngineError
from .values import (C, SymInt, SymBool, bounds, lin_add, floordiv, mod, new_var, get_atom, of_atom, b_and, b_or,
                     b_not, decide, concretize_int, map_fn, pred_fn, mkbool, eval_int, ite, truth, mul, zb,
                     values_view, mk_pw, note_bounds, base_of, to_bits)


class SymLen:
    pass


def is_sym(x):
    return isinstance(x, (SymInt, SymBool, SymBytes, SymStrBase)) or hasattr(type(x), '__symvalue__')


# --------------------------------------------------------------------------- chunks
class CB:
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b

    def n(self):
        return len(self.b)

    def key(self):
        return ('B', self.b)


class CI:
    """k bytes holding integer x (0 <= x < 256**k)."""
    __slots__ = ('x', 'k', 'big')

    def __init__(self, x, k, big=True):
        self.x, self.k, self.big = x, k, big if k > 1 else True

    def n(self):
        return self.k

    def key(self):
        return ('I', self.x.key(), self.k, self.big)


class Blob:
    """Opaque byte string of possibly symbolic length."""
    def __init__(self, name, length):
        c = C()
        self.name = name
        self.length = length
        self.id = len(c.blobs)
        c.blobs.append(self)
        self.reads = []


class CL:
    __slots__ = ('blob', 'off', 'len', 'rev')

    def __init__(self, blob, off, ln, rev=False):
        self.blob, self.off, self.len, self.rev = blob, off, ln, rev

    def n(self):
        return self.len

    def key(self):
        return ('L', self.blob.id, _k(self.off), _k(self.len), self.rev)


def _k(x):
    return x.key() if isinstance(x, SymInt) else x


def chunk_iv(x, k, big=True):
    if isinstance(x, int):
        return CB(x.to_bytes(k, 'big' if big else 'little'))
    lo, hi = bounds(x)
    if lo == hi:
        return CB(lo.to_bytes(k, 'big' if big else 'little'))
    return CI(x, k, big)


def blob_int(ch):
    """Integer (big endian) value of a fixed-length blob slice."""
    n = ch.len
    key = ('blobint', ch.blob.id, _k(ch.off), n, ch.rev)
    a = get_atom(key, 'var', 0, 256 ** n - 1, 'blob%d@%s+%d%s' % (ch.blob.id, _k(ch.off), n, 'r' if ch.rev else ''))
    if not any(r[0] == key for r in ch.blob.reads):
        ch.blob.reads.append((key, ch, of_atom(a)))
    return of_atom(a)


def mkbytes(chunks):
    out = []
    for ch in chunks:
        if isinstance(ch, CB):
            if not ch.b:
                continue
            if out and isinstance(out[-1], CB):
                out[-1] = CB(out[-1].b + ch.b)
                continue
        elif isinstance(ch, CI):
            if ch.k == 0:
                continue
            if isinstance(ch.x, int):
                ch = chunk_iv(ch.x, ch.k, ch.big)
                if out and isinstance(out[-1], CB):
                    out[-1] = CB(out[-1].b + ch.b)
                    continue
        else:
            n = ch.len
            if isinstance(n, int) and n == 0:
                continue
            if isinstance(n, SymInt):
                lo, hi = bounds(n)
                if hi == 0:
                    continue
            if out and isinstance(out[-1], CL) and out[-1].blob is ch.blob and not ch.rev and not out[-1].rev:
                p = out[-1]
                if isinstance(lin_add(lin_add(p.off, p.len), ch.off, -1), int) and \
                        lin_add(lin_add(p.off, p.len), ch.off, -1) == 0:
                    out[-1] = CL(p.blob, p.off, lin_add(p.len, ch.len), False)
                    continue
        out.append(ch)
    if not out:
        return b''
    if len(out) == 1 and isinstance(out[0], CB):
        return out[0].b
    return SymBytes(out)


def chunks_of(b):
    if isinstance(b, SymBytes):
        return b.ch
    if isinstance(b, (bytes, bytearray)):
        return [CB(bytes(b))] if b else []
    if isinstance(b, memoryview):
        return [CB(bytes(b))]
    raise TypeError("a bytes-like object is required, not %r" % type(b).__name__)


def blen(b):
    if isinstance(b, (bytes, bytearray, memoryview)):
        return len(b)
    t = 0
    for ch in b.ch:
        t = lin_add(t, ch.n())
    return t


def concat(parts):
    out = []
    for p in parts:
        out.extend(chunks_of(p))
    return mkbytes(out)


def chunk_bytes(ch):
    """list of per-byte ints (CB/CI or fixed-length CL)."""
    if isinstance(ch, CB):
        return list(ch.b)
    if isinstance(ch, CL):
        n = concretize_int(ch.len)
        if ch.rev:
            return [byte_at(ch, i) for i in range(n)]
        return [byte_at(ch, i) for i in range(n)]
    out = []
    for i in range(ch.k):
        sh = ch.k - 1 - i if ch.big else i
        out.append(mod(floordiv(ch.x, 256 ** sh), 256))
    return out


def byte_at(ch, i):
    if isinstance(ch, CB):
        return ch.b[i]
    if isinstance(ch, CL):
        if ch.rev:
            off = lin_add(lin_add(ch.off, ch.len), -1 - i)
        else:
            off = lin_add(ch.off, i)
        return blob_int(CL(ch.blob, off, 1, False))
    sh = ch.k - 1 - i if ch.big else i
    return mod(floordiv(ch.x, 256 ** sh), 256)


def chunk_cut(ch, pos):
    """Split ch at pos (concrete unless CL)."""
    if isinstance(ch, CL):
        rest = lin_add(ch.len, pos, -1)
        if ch.rev:
            # reversed view: first `pos` bytes are the last of the slice
            return (CL(ch.blob, lin_add(ch.off, rest), pos, True), CL(ch.blob, ch.off, rest, True))
        return CL(ch.blob, ch.off, pos), CL(ch.blob, lin_add(ch.off, pos), rest)
    pos = concretize_int(pos)
    if isinstance(ch, CB):
        return CB(ch.b[:pos]), CB(ch.b[pos:])
    k = ch.k
    if ch.big:
        m = 256 ** (k - pos)
        return chunk_iv(floordiv(ch.x, m), pos, True), chunk_iv(mod(ch.x, m), k - pos, True)
    m = 256 ** pos
    return chunk_iv(mod(ch.x, m), pos, False), chunk_iv(floordiv(ch.x, m), k - pos, False)


def split_at(chunks, pos):
    """pos assumed within [0, len]."""
    left, right = [], list(chunks)
    rem = pos
    while right:
        if isinstance(rem, int) and rem == 0:
            break
        ch = right[0]
        diff = lin_add(rem, ch.n(), -1)
        if decide(diff >= 0):
            left.append(right.pop(0))
            rem = diff
            continue
        a, b = chunk_cut(ch, rem)
        left.append(a)
        right[0] = b
        break
    return left, right


def norm_index(i, n, default):
    """Clamp a slice bound."""
    if i is None:
        return default
    if isinstance(i, SymBool):
        i = i.as_int()
    if not isinstance(i, (int, SymInt)):
        i = i.__index__()
    if isinstance(i, int) and isinstance(n, int):
        if i < 0:
            i += n
        return max(0, min(i, n))
    if decide(i < 0) if not isinstance(i, int) else i < 0:
        i = lin_add(i, n)
        if decide(i < 0) if not isinstance(i, int) else i < 0:
            return 0
    if decide(lin_add(i, n, -1) >= 0):
        return n
    return i


def slice_bytes(b, sl):
    chs = chunks_of(b)
    n = blen(b)
    step = sl.step
    if step is not None:
        step = concretize_int(step)
    if step is None or step == 1:
        start = norm_index(sl.start, n, 0)
        stop = norm_index(sl.stop, n, n)
        ln = lin_add(stop, start, -1)
        if decide(ln <= 0):
            return b''
        _, right = split_at(chs, start)
        mid, _ = split_at(right, ln)
        return mkbytes(mid)
    if step == -1 and sl.start is None and sl.stop is None:
        out = []
        for ch in reversed(chs):
            if isinstance(ch, CB):
                out.append(CB(ch.b[::-1]))
            elif isinstance(ch, CI):
                out.append(CI(ch.x, ch.k, not ch.big))
            else:
                out.append(CL(ch.blob, ch.off, ch.len, not ch.rev))
        return mkbytes(out)
    n = concretize_int(n)
    items = list_bytes(b)
    return bytes_of_items(items[slice(concretize_opt(sl.start), concretize_opt(sl.stop), step)])


def concretize_opt(x):
    return None if x is None else concretize_int(x)


def list_bytes(b):
    out = []
    for ch in chunks_of(b):
        out.extend(chunk_bytes(ch))
    return out


def bytes_of_items(items):
    chs = []
    for it in items:
        if isinstance(it, SymBool):
            it = it.as_int()
        if isinstance(it, SymInt):
            if not decide(it >= 0) or not decide(it <= 255):
                raise ValueError('bytes must be in range(0, 256)')
            chs.append(chunk_iv(it, 1))
        else:
            chs.append(CB(bytes([it])))
    return mkbytes(chs)


def from_bytes(b, big=True, signed=False):
    chs = list(chunks_of(b))
    if not big:
        chs = list(reversed(chs))
    acc = 0
    total = 0
    for ch in chs:
        n = ch.n()
        if not isinstance(n, int):
            n = concretize_int(n)
        if n == 0:
            continue
        total += n
        if isinstance(ch, CB):
            v = int.from_bytes(ch.b, 'big' if big else 'little')
        elif isinstance(ch, CL):
            ch2 = CL(ch.blob, ch.off, n, ch.rev if big else not ch.rev)
            v = blob_int(ch2) if n > 1 else byte_at(ch2, 0)
        else:
            if ch.k == 1 or ch.big == big:
                v = ch.x
            else:
                v = 0
                bs = chunk_bytes(ch)
                if not big:
                    bs = bs[::-1]
                for x in bs:
                    v = lin_add(x, v, 256)
        acc = lin_add(v, acc, 256 ** n)
    if signed and total:
        if decide(acc >= 256 ** total // 2):
            acc = lin_add(acc, -256 ** total)
    return acc


def int_to_bytes(x, length, order, signed=False):
    length = concretize_int(length)
    if length < 0:
        raise ValueError('length argument must be non-negative')
    if order not in ('big', 'little'):
        raise ValueError("byteorder must be either 'little' or 'big'")
    if isinstance(x, SymBool):
        x = x.as_int()
    if isinstance(x, int):
        return int(x).to_bytes(length, order, signed=signed)
    if signed:
        if not decide(x >= -(256 ** length // 2)) or not decide(x < 256 ** length // 2):
            raise OverflowError('int too big to convert')
        x = mod(x, 256 ** length)
    else:
        if not decide(x >= 0):
            raise OverflowError("can't convert negative int to unsigned")
        if not decide(x < 256 ** length):
            raise OverflowError('int too big to convert')
    if length == 0:
        return b''
    return mkbytes([chunk_iv(x, length, order == 'big')])


def chunk_eq(a, b):
    if a.key() == b.key():
        return True
    if isinstance(a, CL) and isinstance(b, CL):
        na = a.len
        if isinstance(na, SymInt):
            lo, hi = bounds(na)
        else:
            lo = hi = na
        if a.blob is b.blob and a.rev == b.rev:
            d = lin_add(a.off, b.off, -1)
            if isinstance(d, int) and d == 0:
                return True
        ka, kb = sorted([a.key(), b.key()], key=repr)
        key = ('blobeq', ka, kb)
        c = C()
        z = c.opaque_eq.get(key)
        if z is None:
            z = z3.Bool('beq!%d' % len(c.opaque_eq))
            c.opaque_eq[key] = z
            if lo == 0:
                from .values import zint
                c.add(z3.Implies(zint(na) == 0, z))
        return SymBool(z)
    n = a.n()
    big = True
    if isinstance(a, CI) and not a.big and (not isinstance(b, CI) or not b.big):
        big = False
    elif isinstance(b, CI) and not b.big and not isinstance(a, CI):
        big = False
    return from_bytes(SymBytes([a]), big) == from_bytes(SymBytes([b]), big)


def bytes_eq(x, y):
    ca, cb = list(chunks_of(x)), list(chunks_of(y))
    la, lb = blen(x), blen(y)
    conds = []
    leq = (la == lb)
    if leq is False:
        return False
    if leq is not True:
        # fork on the length relation: the alignment below needs it
        if not decide(leq):
            return False
    while ca and cb:
        a, b = ca[0], cb[0]
        d = lin_add(a.n(), b.n(), -1)
        if isinstance(d, SymInt):
            if decide(d == 0):
                d = 0
            else:
                d = 1 if decide(d >= 0) else -1
        if d == 0:
            ca.pop(0)
            cb.pop(0)
        elif d > 0:
            l, r = split_at(ca, b.n())
            a = l[0] if len(l) == 1 else None
            if a is None:
                raise EngineError('eq split')
            ca = r
            cb.pop(0)
        else:
            l, r = split_at(cb, a.n())
            b = l[0] if len(l) == 1 else None
            if b is None:
                raise EngineError('eq split')
            cb = r
            ca.pop(0)
        e = chunk_eq(a, b)
        if e is False:
            return False
        if e is not True:
            conds.append(e)
    for ch in ca + cb:
        conds.append(ch.n() == 0)
    return b_and(conds)


def bytes_lt(x, y, strict=True):
    """Lexicographic comparison, byte by byte (concrete lengths)."""
    lx, ly = list_bytes(x), list_bytes(y)
    for a, b in zip(lx, ly):
        if decide(a < b if not isinstance(a, int) or not isinstance(b, int) else a < b):
            return True
        if decide(a > b if not isinstance(a, int) or not isinstance(b, int) else a > b):
            return False
    return len(lx) < len(ly) if strict else len(lx) <= len(ly)


class SymBytes:
    __slots__ = ('ch',)

    def __init__(self, ch):
        self.ch = ch

    def __repr__(self):
        return '<symbytes>'

    def __hash__(self):
        C().state['symhash'] = True
        return 0x53

    def __symlen__(self):
        return blen(self)

    def __len__(self):
        return concretize_int(blen(self))

    def __symtruth__(self):
        n = blen(self)
        if isinstance(n, int):
            return n > 0
        return n > 0

    def __bool__(self):
        return decide(self.__symtruth__())

    def __bytes__(self):
        return concretize(self)

    def __add__(self, o):
        if isinstance(o, (bytes, bytearray, SymBytes)):
            return concat([self, o])
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (bytes, bytearray, SymBytes)):
            return concat([o, self])
        return NotImplemented

    def __mul__(self, k):
        k = concretize_int(k)
        return concat([self] * max(k, 0))

    __rmul__ = __mul__

    def __eq__(self, o):
        if isinstance(o, (bytes, bytearray, SymBytes)):
            return bytes_eq(self, o)
        return False

    def __ne__(self, o):
        return b_not(self.__eq__(o))

    def __lt__(self, o):
        return bytes_lt(self, o)

    def __gt__(self, o):
        return bytes_lt(o, self)

    def __le__(self, o):
        return not bytes_lt(o, self)

    def __ge__(self, o):
        return not bytes_lt(self, o)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return slice_bytes(self, i)
        n = blen(self)
        if not isinstance(i, (int, SymInt)):
            i = i.__index__()
        if decide(i < 0):
            i = lin_add(i, n)
            if decide(i < 0):
                raise IndexError('index out of range')
        if not decide(lin_add(i, n, -1) < 0):
            raise IndexError('index out of range')
        _, right = split_at(self.ch, i)
        while right and not decide(right[0].n() > 0 if not isinstance(right[0].n(), int) else right[0].n() > 0):
            right.pop(0)
        return byte_at(right[0], 0)

    def __iter__(self):
        for ch in list(self.ch):
            if isinstance(ch, CL) and not isinstance(ch.len, int):
                i = 0
                while decide(ch.len > i):
                    yield byte_at(ch, i)
                    i += 1
            elif isinstance(ch, CB):
                yield from ch.b
            else:
                n = ch.n()
                for i in range(n):
                    yield byte_at(ch, i)

    def __contains__(self, x):
        return decide(self.__symcontains__(x))

    def __symcontains__(self, x):
        if isinstance(x, (bytes, bytearray, SymBytes)):
            n = concretize_int(blen(self))
            k = concretize_int(blen(x))
            return b_or([self[i:i + k] == x for i in range(n - k + 1)])
        return b_or([b == x for b in list_bytes(self)])

    # methods
    def hex(self, *a):
        if a:
            return concretize(self).hex(*a)
        return HexStr(self)

    def decode(self, encoding='utf-8', errors='strict'):
        items = list_bytes(self)
        cps = []
        for it in items:
            if isinstance(it, SymInt):
                if not decide(it < 128):
                    if encoding.lower().replace('-', '') in ('ascii', 'usascii'):
                        raise UnicodeDecodeError('ascii', b'', 0, 1, 'sym')
                    C().degrade('non-ascii decode')
                    return concretize(self).decode(encoding, errors)
            elif it >= 128:
                return concretize(self).decode(encoding, errors)
            cps.append(it)
        return mkstr(cps)

    def startswith(self, p, *a):
        if a:
            return sub_affix(self, 'startswith', p, *a)
        if isinstance(p, tuple):
            return b_or([self.startswith(q) for q in p])
        k = concretize_int(blen(p))
        n = blen(self)
        if not decide(n >= k):
            return False
        return self[:k] == p

    def endswith(self, p, *a):
        if a:
            return sub_affix(self, 'endswith', p, *a)
        if isinstance(p, tuple):
            return b_or([self.endswith(q) for q in p])
        k = concretize_int(blen(p))
        if k == 0:
            return True
        n = blen(self)
        if not decide(n >= k):
            return False
        return self[-k:] == p

    def lstrip(self, chars=None):
        if chars is None:
            return concretize(self).lstrip()
        b = self
        while True:
            n = blen(b)
            if not decide(n > 0):
                return b''
            x = b[0]
            if not decide(b_or([x == q for q in chars])):
                return b
            b = b[1:]
            if isinstance(b, bytes):
                return b.lstrip(chars)

    def rstrip(self, chars=None):
        if chars is None:
            return concretize(self).rstrip()
        b = self
        while True:
            n = blen(b)
            if not decide(n > 0):
                return b''
            x = b[-1]
            if not decide(b_or([x == q for q in chars])):
                return b
            b = b[:-1]
            if isinstance(b, bytes):
                return b.rstrip(chars)

    def strip(self, chars=None):
        b = self.lstrip(chars)
        return b.rstrip(chars)

    def join(self, it):
        return join_bytes(self, list(it))

    def count(self, x):
        s = 0
        for b in list_bytes(self):
            if isinstance(x, (int, SymInt)):
                e = b == x
            else:
                if concretize_int(blen(x)) != 1:
                    return concretize(self).count(x)
                e = b == x[0]
            s = s + (e.as_int() if isinstance(e, SymBool) else int(e))
        return s

    def rjust(self, width, fill=b' '):
        n = blen(self)
        w = lin_add(width, n, -1)
        w = concretize_int(w)
        return concat([fill * max(w, 0), self])

    def ljust(self, width, fill=b' '):
        n = blen(self)
        w = concretize_int(lin_add(width, n, -1))
        return concat([self, fill * max(w, 0)])

    def find(self, sub, start=0, end=None):
        bs = list_bytes(self)
        xs = [sub] if isinstance(sub, (int, SymInt)) else list_bytes(sub)
        end = len(bs) if end is None else min(end, len(bs))
        for i in range(start, end - len(xs) + 1):
            if decide(b_and([p == q for p, q in zip(bs[i:i + len(xs)], xs)])):
                return i
        return -1

    def rfind(self, sub, start=0, end=None):
        bs = list_bytes(self)
        xs = [sub] if isinstance(sub, (int, SymInt)) else list_bytes(sub)
        end = len(bs) if end is None else min(end, len(bs))
        for i in range(end - len(xs), start - 1, -1):
            if decide(b_and([p == q for p, q in zip(bs[i:i + len(xs)], xs)])):
                return i
        return -1

    def index(self, sub, *a):
        i = self.find(sub, *a)
        if i < 0:
            raise ValueError('subsection not found')
        return i

    def rindex(self, sub, *a):
        i = self.rfind(sub, *a)
        if i < 0:
            raise ValueError('subsection not found')
        return i

    def partition(self, sep):
        i = self.find(sep)
        return (self, b'', b'') if i < 0 else (self[:i], sep, self[i + len(sep):])

    def rpartition(self, sep):
        i = self.rfind(sep)
        return (b'', b'', self) if i < 0 else (self[:i], sep, self[i + len(sep):])

    def removeprefix(self, p):
        return self[blen(p):] if decide(self.startswith(p)) else self

    def removesuffix(self, p):
        n = blen(p)
        if isinstance(n, int) and n == 0:
            return self
        return self[:lin_add(blen(self), n, -1)] if decide(self.endswith(p)) else self

    def zfill(self, width):
        return self.rjust(width, b'0')

    def __getattr__(self, name):
        if name.startswith('__') or not hasattr(bytes, name):
            raise AttributeError("'bytes' object has no attribute %r" % name)

        def m(*a, **k):
            C().degrade('bytes.%s on symbolic bytes' % name)
            return getattr(concretize(self), name)(*[concretize(x) for x in a], **k)
        return m


def join_bytes(sep, items):
    items = list(items)
    for i, p in enumerate(items):
        if not isinstance(p, (bytes, bytearray, SymBytes, SymByteArray, memoryview)):
            raise TypeError('sequence item %d: expected a bytes-like object, %s found' % (i, type(p).__name__))
    items = [p.freeze() if isinstance(p, SymByteArray) else p for p in items]
    if isinstance(sep, bytes) and not sep:
        return concat(items)
    out = []
    for i, p in enumerate(items):
        if i:
            out.append(sep)
        out.append(p)
    return concat(out)


def sub_affix(x, name, p, start=None, end=None):
    """x.startswith(p, start, end), x.endswith(p, start, end)"""
    if start is not None and decide(start > xlen(x)):
        return False
    return getattr(x[start:end], name)(p)


def xlen(x):
    f = getattr(type(x), '__symlen__', None)
    return f(x) if f else len(x)


class SymByteArray:
    """bytearray holding symbolic content (mutable wrapper around a rope)."""
    __symvalue__ = True

    def __init__(self, b=b''):
        self.b = b

    def freeze(self):
        return self.b

    def __symlen__(self):
        return blen(self.b)

    def __len__(self):
        return concretize_int(blen(self.b))

    def __symtruth__(self):
        return truth(self.b)

    def __bool__(self):
        return decide(truth(self.b))

    def __iadd__(self, o):
        self.b = concat([self.b, o.b if isinstance(o, SymByteArray) else o])
        return self

    def __add__(self, o):
        return SymByteArray(concat([self.b, o.b if isinstance(o, SymByteArray) else o]))

    def __radd__(self, o):
        return concat([o, self.b])

    def extend(self, o):
        if isinstance(o, (bytes, bytearray, SymBytes)):
            self.b = concat([self.b, o])
        else:
            self.b = concat([self.b, bytes_of_items(list(o))])

    def append(self, x):
        self.b = concat([self.b, bytes_of_items([x])])

    def insert(self, i, x):
        i = concretize_int(i)
        self.b = concat([self.b[:i], bytes_of_items([x]), self.b[i:]])

    def reverse(self):
        self.b = self.b[::-1]

    def pop(self, i=-1):
        x = self.b[i]
        items = list_bytes(self.b)
        items.pop(i)
        self.b = bytes_of_items(items)
        return x

    def __getitem__(self, i):
        r = self.b[i]
        return SymByteArray(r) if isinstance(i, slice) else r

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            items = list_bytes(self.b)
            items[slice(concretize_opt(i.start), concretize_opt(i.stop), concretize_opt(i.step))] = \
                list_bytes(v) if isinstance(v, (bytes, SymBytes)) else list(v)
        else:
            items = list_bytes(self.b)
            items[concretize_int(i)] = v
        self.b = bytes_of_items(items)

    def __iter__(self):
        return iter(self.b)

    def __eq__(self, o):
        return self.b == (o.b if isinstance(o, SymByteArray) else o)

    def __ne__(self, o):
        return b_not(self == o)

    def __bytes__(self):
        return bytes(concretize(self.b))

    __hash__ = None

    def __getattr__(self, name):
        if name.startswith('__') or name == 'b':
            raise AttributeError(name)
        return getattr(self.b, name)


# --------------------------------------------------------------------------- strings
class SymStrBase:
    def __hash__(self):
        C().state['symhash'] = True
        return 0x53

    def __str__(self):
        return '<symstr>'

    def __repr__(self):
        return '<symstr>'

    def __format__(self, spec):
        return '<symstr>'

    def __radd__(self, o):
        if isinstance(o, (str, SymStrBase)):
            return str_concat([o, self])
        return NotImplemented

    def __add__(self, o):
        if isinstance(o, (str, SymStrBase)):
            return str_concat([self, o])
        return NotImplemented

    def __ne__(self, o):
        return b_not(self.__eq__(o))

    def __mul__(self, k):
        return str_concat([self] * concretize_int(k))

    __rmul__ = __mul__

    def __bool__(self):
        return decide(self.__symtruth__())

    def __symtruth__(self):
        n = self.__symlen__()
        return n > 0

    def __len__(self):
        return concretize_int(self.__symlen__())

    def __contains__(self, x):
        return decide(self.__symcontains__(x))

    def __iter__(self):
        n = self.__symlen__()
        i = 0
        while decide(n > i if isinstance(n, SymInt) else n > i):
            yield self[i]
            i += 1

    def cps(self):
        """list of code points (may concretise the length)."""
        raise NotImplementedError

    def generic(self):
        return SymStr(tuple(self.cps()))

    def __getattr__(self, name):
        if name.startswith('__') or not hasattr(str, name):
            raise AttributeError("'str' object has no attribute %r" % name)
        g = getattr(SymStr, name, None)
        if g is not None and not isinstance(self, SymStr) and name in SymStr.__dict__:
            return getattr(mk_generic(self), name)

        def m(*a, **k):
            C().degrade('str.%s on symbolic string' % name)
            return getattr(concretize(self), name)(*[concretize(x) for x in a], **k)
        return m

    def __lt__(self, o):
        return cps_lt(cps_of(self), cps_of(o))

    def __gt__(self, o):
        return cps_lt(cps_of(o), cps_of(self))

    def __le__(self, o):
        return not cps_lt(cps_of(o), cps_of(self))

    def __ge__(self, o):
        return not cps_lt(cps_of(self), cps_of(o))


def cps_lt(x, y):
    for a, b in zip(x, y):
        if decide(a < b):
            return True
        if decide(a > b):
            return False
    return len(x) < len(y)


def mk_generic(s):
    r = mkstr(s.cps())
    return r


def mkstr(cps):
    if all(isinstance(c, int) for c in cps):
        return ''.join(map(chr, cps))
    return SymStr(tuple(cps))


def cps_of(s):
    if isinstance(s, str):
        return [ord(c) for c in s]
    return list(s.cps())


def str_concat(parts):
    parts = [p for p in parts if not (isinstance(p, str) and p == '')]
    if not parts:
        return ''
    if len(parts) == 1:
        return parts[0]
    if all(isinstance(p, (str, SymStr)) for p in parts):
        out = []
        for p in parts:
            out.extend(cps_of(p))
        return mkstr(out)
    if all(isinstance(p, HexStr) or (isinstance(p, str) and is_hex(p)) for p in parts) and \
            len({p.upper_ for p in parts if isinstance(p, HexStr)}) == 1:
        return HexStr(concat([p.rope if isinstance(p, HexStr) else bytes.fromhex(p) for p in parts]),
                      [p.upper_ for p in parts if isinstance(p, HexStr)][0])
    out = []
    for p in parts:
        if isinstance(p, FmtStr):
            out.extend(p.parts)
        else:
            out.append(p)
    merged = []
    for p in out:
        if merged and isinstance(p, str) and isinstance(merged[-1], str):
            merged[-1] += p
        else:
            merged.append(p)
    return FmtStr(merged)


def is_hex(s, lower=True):
    return len(s) % 2 == 0 and all(c in '0123456789abcdef' for c in s)


class SymStr(SymStrBase):
    """Concrete length, symbolic code points."""
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c

    def cps(self):
        return list(self.c)

    def __symlen__(self):
        return len(self.c)

    def __len__(self):
        return len(self.c)

    def __symtruth__(self):
        return len(self.c) > 0

    def __hash__(self):
        C().state['symhash'] = True
        return 0x53

    def __eq__(self, o):
        if isinstance(o, (str, SymStr)):
            oc = cps_of(o)
            if len(oc) != len(self.c):
                return False
            return b_and([a == b for a, b in zip(self.c, oc)])
        if isinstance(o, SymStrBase):
            return o == self
        return False

    def __getitem__(self, i):
        if isinstance(i, slice):
            i = slice(concretize_opt(i.start), concretize_opt(i.stop), concretize_opt(i.step))
            return mkstr(self.c[i])
        if isinstance(i, SymInt):
            from .models import index_seq
            return index_seq([mkstr((x,)) for x in self.c], i)
        return mkstr((self.c[i],))

    def __symcontains__(self, x):
        xs = cps_of(x)
        if not xs:
            return True
        n = len(xs)
        return b_or([b_and([a == b for a, b in zip(self.c[i:i + n], xs)]) for i in range(len(self.c) - n + 1)])

    def _map(self, f, name):
        out = []
        for c in self.c:
            if isinstance(c, int):
                r = f(chr(c))
                if len(r) != 1:
                    return concretize_str_method(self, name)
                out.append(ord(r))
            else:
                lo, hi = bounds(c)
                bad = []

                def g(v):
                    r = f(chr(v))
                    if len(r) != 1:
                        bad.append(v)
                        return v
                    return ord(r)
                if hi - lo <= 4096:
                    r = map_fn(c, g)
                else:
                    ch = among(c, changed_points(f))
                    if ch is None:
                        r = None
                    elif not decide(ch):
                        out.append(c)
                        continue
                    else:
                        r = map_fn(c, g)
                        if bad and r is not None:
                            odd = among(c, [(v, v) for v in sorted(bad)])
                            if decide(odd):
                                C().degrade('str.%s changes length' % name)
                                return getattr(concretize(self), name)()
                            del bad[:]
                            r = map_fn(c, g)
                if r is None or bad:
                    C().degrade('str.%s on wide code points' % name)
                    return getattr(concretize(self), name)()
                out.append(r)
        return mkstr(out)

    def lower(self):
        return self._map(str.lower, 'lower')

    def upper(self):
        return self._map(str.upper, 'upper')

    def casefold(self):
        return self._map(str.casefold, 'casefold')

    def swapcase(self):
        return self._map(str.swapcase, 'swapcase')

    def _all(self, f):
        if not self.c:
            return False
        rs = []
        for c in self.c:
            r = pred_fn(c, lambda v: f(chr(v)))
            if r is None:
                C().degrade('character class on wide code points')
                return f(concretize(self))
            rs.append(r)
        return b_and(rs)

    def isdigit(self):
        return self._all(str.isdigit)

    def isdecimal(self):
        return self._all(str.isdecimal)

    def isnumeric(self):
        return self._all(str.isnumeric)

    def isalpha(self):
        return self._all(str.isalpha)

    def isalnum(self):
        return self._all(str.isalnum)

    def isspace(self):
        return self._all(str.isspace)

    def isascii(self):
        return b_and([pred_fn(c, lambda v: v < 128) if not isinstance(c, int) else c < 128 for c in self.c])

    def isprintable(self):
        return self._all(str.isprintable)

    def _case(self, want_upper):
        cased = []
        ok = []
        for c in self.c:
            if want_upper:
                ok.append(pred_fn(c, lambda v: not chr(v).islower()))
                cased.append(pred_fn(c, lambda v: chr(v).isupper()))
            else:
                ok.append(pred_fn(c, lambda v: not chr(v).isupper()))
                cased.append(pred_fn(c, lambda v: chr(v).islower()))
        return b_and([b_and(ok), b_or(cased)])

    def isupper(self):
        return self._case(True)

    def islower(self):
        return self._case(False)

    def find(self, sub, start=0, end=None):
        xs = cps_of(sub)
        n = len(self.c)
        end = n if end is None else end
        for i in range(start, min(end, n) - len(xs) + 1):
            if decide(b_and([a == b for a, b in zip(self.c[i:i + len(xs)], xs)])):
                return i
        return -1

    def rfind(self, sub, start=0, end=None):
        xs = cps_of(sub)
        n = len(self.c)
        end = n if end is None else end
        for i in range(min(end, n) - len(xs), start - 1, -1):
            if decide(b_and([a == b for a, b in zip(self.c[i:i + len(xs)], xs)])):
                return i
        return -1

    def index(self, sub, *a):
        i = self.find(sub, *a)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def rindex(self, sub, *a):
        i = self.rfind(sub, *a)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def count(self, sub):
        xs = cps_of(sub)
        if len(xs) != 1:
            return concretize(self).count(sub)
        s = 0
        for c in self.c:
            e = c == xs[0]
            s = s + (e.as_int() if isinstance(e, SymBool) else int(e))
        return s

    def startswith(self, p, *a):
        if a:
            return sub_affix(self, 'startswith', p, *a)
        if isinstance(p, tuple):
            return b_or([self.startswith(q) for q in p])
        xs = cps_of(p)
        if len(xs) > len(self.c):
            return False
        return b_and([a == b for a, b in zip(self.c, xs)])

    def endswith(self, p, *a):
        if a:
            return sub_affix(self, 'endswith', p, *a)
        if isinstance(p, tuple):
            return b_or([self.endswith(q) for q in p])
        xs = cps_of(p)
        if len(xs) > len(self.c):
            return False
        return b_and([a == b for a, b in zip(self.c[len(self.c) - len(xs):], xs)])

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return '', '', self
        return self[:i], sep, self[i + len(sep):]

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, '', ''
        return self[:i], sep, self[i + len(sep):]

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            out, cur, left = [], [], maxsplit
            for i, c in enumerate(self.c):
                if left == 0 and cur:
                    cur.append(c)
                elif decide(cp_in(c, SPACES)):
                    if cur:
                        out.append(mkstr(cur))
                        cur = []
                        left -= 1
                else:
                    cur.append(c)
            if cur:
                out.append(mkstr(cur) if maxsplit < 0 or left != 0 else mkstr(cur))
            return out
        out = []
        s = self
        while maxsplit != 0:
            i = s.find(sep)
            if i < 0:
                break
            out.append(s[:i])
            s = s[i + len(sep):]
            maxsplit -= 1
        out.append(s)
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            return concretize(self).rsplit()
        out = []
        s = self
        while maxsplit != 0:
            i = s.rfind(sep)
            if i < 0:
                break
            out.insert(0, s[i + len(sep):])
            s = s[:i]
            maxsplit -= 1
        out.insert(0, s)
        return out

    def lstrip(self, chars=None):
        i = 0
        f = SPACES if chars is None else cps_of(chars)
        while i < len(self.c) and decide(cp_in(self.c[i], f)):
            i += 1
        return mkstr(self.c[i:])

    def rstrip(self, chars=None):
        i = len(self.c)
        f = SPACES if chars is None else cps_of(chars)
        while i > 0 and decide(cp_in(self.c[i - 1], f)):
            i -= 1
        return mkstr(self.c[:i])

    def rjust(self, width, fill=' '):
        return str_concat([fill * max(0, concretize_int(width) - len(self.c)), self])

    def ljust(self, width, fill=' '):
        return str_concat([self, fill * max(0, concretize_int(width) - len(self.c))])

    def zfill(self, width):
        n = max(0, concretize_int(width) - len(self.c))
        if n and self.c and decide(cp_in(self.c[0], [43, 45])):
            return mkstr([self.c[0]] + [48] * n + list(self.c[1:]))
        return str_concat(['0' * n, self])

    def removeprefix(self, p):
        return self[len(p):] if decide(self.startswith(p)) else self

    def removesuffix(self, p):
        return self[:len(self.c) - len(p)] if len(p) and decide(self.endswith(p)) else self

    def strip(self, chars=None):
        return self.lstrip(chars).rstrip(chars)

    def replace(self, a, b, cnt=-1):
        if len(a) == 1 and cnt == -1:
            out = []
            for c in self.c:
                if decide(c == ord(a)):
                    out.extend(cps_of(b))
                else:
                    out.append(c)
            return mkstr(out)
        return concretize(self).replace(a, b, cnt)

    def join(self, it):
        return join_str(self, it)

    def encode(self, encoding='utf-8', errors='strict'):
        enc = encoding.lower().replace('-', '').replace('_', '')
        out = []
        for c in self.c:
            if isinstance(c, int):
                out.append(CB(chr(c).encode(encoding, errors)))
                continue
            if enc in ('ascii', 'usascii'):
                if not decide(c < 128):
                    raise UnicodeEncodeError('ascii', '', 0, 1, 'sym')
                out.append(chunk_iv(c, 1))
            elif enc in ('latin1', 'iso88591'):
                if not decide(c < 256):
                    raise UnicodeEncodeError('latin-1', '', 0, 1, 'sym')
                out.append(chunk_iv(c, 1))
            elif enc == 'utf8':
                if decide(c < 128):
                    out.append(chunk_iv(c, 1))
                elif decide(c < 0x800):
                    out.append(chunk_iv(lin_add(floordiv(c, 64), 0xC0), 1))
                    out.append(chunk_iv(lin_add(mod(c, 64), 0x80), 1))
                elif decide(c < 0x10000):
                    if decide(b_and([c >= 0xD800, c <= 0xDFFF])):
                        raise UnicodeEncodeError('utf-8', '', 0, 1, 'surrogates not allowed')
                    out.append(chunk_iv(lin_add(floordiv(c, 4096), 0xE0), 1))
                    out.append(chunk_iv(lin_add(mod(floordiv(c, 64), 64), 0x80), 1))
                    out.append(chunk_iv(lin_add(mod(c, 64), 0x80), 1))
                else:
                    out.append(chunk_iv(lin_add(floordiv(c, 1 << 18), 0xF0), 1))
                    out.append(chunk_iv(lin_add(mod(floordiv(c, 4096), 64), 0x80), 1))
                    out.append(chunk_iv(lin_add(mod(floordiv(c, 64), 64), 0x80), 1))
                    out.append(chunk_iv(lin_add(mod(c, 64), 0x80), 1))
            else:
                return concretize(self).encode(encoding, errors)
        return mkbytes(out)


SPACES = [c for c in range(0x3001) if chr(c).isspace()]


def cp_in(c, cps):
    if isinstance(c, int):
        return b_or([c == x for x in cps]) if any(not isinstance(x, int) for x in cps) else c in cps
    lo, hi = bounds(c)
    return b_or([c == x for x in cps if not isinstance(x, int) or ((lo is None or x >= lo) and (hi is None or x <= hi))])


_CHANGED = {}


def changed_points(f):
    """Ranges of code points that the case mapping f changes."""
    if f not in _CHANGED:
        out = []
        for v in range(0x110000):
            if f(chr(v)) != chr(v):
                if out and out[-1][1] == v - 1:
                    out[-1] = (out[-1][0], v)
                else:
                    out.append((v, v))
        _CHANGED[f] = out
    return _CHANGED[f]


def among(x, ranges):
    """x lies in one of the ranges; None if x is not a shifted base."""
    bt, k = base_of(x.t, x.c)
    if k != 1:
        return None
    return b_or([SymBool(rc=(bt, [(lo - x.c, hi - x.c) for lo, hi in ranges]))])


def concretize_str_method(s, name):
    C().degrade('str.%s changes length' % name)
    return getattr(concretize(s), name)()


HEXD = '0123456789abcdef'


def nibble_cp(v, upper):
    digs = HEXD.upper() if upper else HEXD
    return map_fn(v, lambda n: ord(digs[n]))


class HexStr(SymStrBase):
    """hexlify(rope) as text."""

    def __init__(self, rope, upper=False):
        self.rope = rope
        self.upper_ = upper

    __hash__ = SymStrBase.__hash__

    def __symlen__(self):
        return mul(blen(self.rope), 2)

    def cps(self):
        out = []
        for b in list_bytes(self.rope):
            out.append(nibble_cp(floordiv(b, 16) if isinstance(b, SymInt) else b >> 4, self.upper_))
            out.append(nibble_cp(mod(b, 16) if isinstance(b, SymInt) else b & 15, self.upper_))
        return out

    def __eq__(self, o):
        if isinstance(o, HexStr) and o.upper_ == self.upper_:
            return bytes_eq(self.rope, o.rope)
        if isinstance(o, str):
            if len(o) % 2:
                return False
            try:
                v = bytes.fromhex(o)
            except ValueError:
                return False
            if len(v) * 2 != len(o) or o != (v.hex().upper() if self.upper_ else v.hex()):
                return False
            return bytes_eq(self.rope, v)
        if isinstance(o, (SymStr, HexStr)):
            return mk_generic(self) == (o if isinstance(o, SymStr) else mk_generic(o))
        if isinstance(o, SymStrBase):
            return o.__eq__(self)
        return False

    def __getitem__(self, i):
        if isinstance(i, slice):
            st, sp = i.start, i.stop
            ok = i.step in (None, 1)
            for v in (st, sp):
                if v is not None and not isinstance(v, (int, SymInt)):
                    ok = False
                if isinstance(v, int) and v % 2:
                    ok = False
                if isinstance(v, SymInt) and (v.c % 2 or any(co % 2 for _, co in v.t)):
                    ok = False
            if ok:
                h = slice(None if st is None else st // 2, None if sp is None else sp // 2)
                r = slice_bytes(self.rope, h)
                return hexstr(r, self.upper_)
            return mk_generic(self)[i]
        b = self.rope[i // 2] if not isinstance(i, int) or i >= 0 else None
        if isinstance(i, int):
            if i < 0:
                return mk_generic(self)[i]
            b = self.rope[i // 2]
            v = (b // 16) if i % 2 == 0 else (b % 16)
            return mkstr((nibble_cp(v, self.upper_),))
        return mk_generic(self)[i]

    def __symcontains__(self, x):
        return mk_generic(self).__symcontains__(x)

    def upper(self):
        return HexStr(self.rope, True)

    def lower(self):
        return HexStr(self.rope, False)

    def encode(self, *a):
        return HexBytes(self)

    def zfill(self, w):
        n = self.__symlen__()
        if decide(n >= w):
            return self
        return mk_generic(self).zfill(w)

    def isalnum(self):
        return truth(self)

    def join(self, it):
        return join_str(self, it)


def hexstr(r, upper=False):
    if isinstance(r, bytes):
        return r.hex().upper() if upper else r.hex()
    return HexStr(r, upper)


class HexBytes:
    """bytes object holding hex digits of a rope (result of hexlify)."""
    __symvalue__ = True

    def __init__(self, hs):
        self.hs = hs

    def decode(self, *a, **k):
        return self.hs

    def upper(self):
        return HexBytes(self.hs.upper())

    def __symlen__(self):
        return self.hs.__symlen__()

    def __len__(self):
        return concretize_int(self.__symlen__())

    def __eq__(self, o):
        if isinstance(o, HexBytes):
            return self.hs == o.hs
        return self.expand() == o

    def __ne__(self, o):
        return b_not(self == o)

    __hash__ = None

    def expand(self):
        return mk_generic(self.hs).encode('ascii')

    def __getitem__(self, i):
        return self.expand()[i]

    def __iter__(self):
        return iter(self.expand())


class FmtStr(SymStrBase):
    """Text assembled from parts (str, SymStr, NumStr...)."""

    def __init__(self, parts):
        self.parts = parts

    __hash__ = SymStrBase.__hash__

    def __symlen__(self):
        return len(self.cps())

    def __symtruth__(self):
        if any(isinstance(p, str) and p for p in self.parts):
            return True
        return len(self.cps()) > 0

    def cps(self):
        out = []
        for p in self.parts:
            out.extend(cps_of(p))
        return out

    def __eq__(self, o):
        if isinstance(o, FmtStr) and len(o.parts) == len(self.parts):
            if all((isinstance(a, str) and isinstance(b, str) and a == b) or
                   (type(a) is type(b) and not isinstance(a, str)) for a, b in zip(self.parts, o.parts)):
                return b_and([a == b for a, b in zip(self.parts, o.parts) if not isinstance(a, str)])
        if isinstance(o, str):
            # fast refutation on the literal prefix
            if self.parts and isinstance(self.parts[0], str) and not o.startswith(self.parts[0]):
                return False
            if self.parts and isinstance(self.parts[-1], str) and not o.endswith(self.parts[-1]):
                return False
        if isinstance(o, (str, SymStrBase)):
            return mk_generic(self) == o if not isinstance(o, FmtStr) else mk_generic(self) == mk_generic(o)
        return False

    def __getitem__(self, i):
        return mk_generic(self)[i]

    def __symcontains__(self, x):
        if isinstance(x, str) and any(isinstance(p, str) and x in p for p in self.parts):
            return True
        g = mk_generic(self)
        return g.__symcontains__(x) if isinstance(g, SymStr) else x in g

    def startswith(self, p, *a):
        if self.parts and isinstance(self.parts[0], str) and isinstance(p, str) and len(self.parts[0]) >= len(p):
            return self.parts[0].startswith(p)
        return mk_generic(self).startswith(p, *a)

    def endswith(self, p, *a):
        if self.parts and isinstance(self.parts[-1], str) and isinstance(p, str) and len(self.parts[-1]) >= len(p):
            return self.parts[-1].endswith(p)
        return mk_generic(self).endswith(p, *a)

    def encode(self, *a):
        return mk_generic(self).encode(*a)


class NumStr(SymStrBase):
    """Decimal text of a symbolic integer."""

    def __init__(self, x):
        self.x = x

    __hash__ = SymStrBase.__hash__

    def digits(self):
        """fork on the number of digits."""
        x = self.x
        neg = decide(x < 0)
        if neg:
            x = -x
        n = 1
        while not decide(x < 10 ** n):
            n += 1
        return neg, x, n

    def __symlen__(self):
        neg, x, n = self.digits()
        return n + (1 if neg else 0)

    def __symtruth__(self):
        return True

    def cps(self):
        neg, x, n = self.digits()
        out = [45] if neg else []
        for i in range(n - 1, -1, -1):
            out.append(lin_add(mod(floordiv(x, 10 ** i), 10), 48))
        return out

    def __eq__(self, o):
        if isinstance(o, NumStr):
            return self.x == o.x
        if isinstance(o, str):
            try:
                v = int(o)
            except ValueError:
                return False
            if str(v) != o:
                return False
            return self.x == v
        if isinstance(o, SymStrBase):
            return mk_generic(self) == mk_generic(o)
        return False

    def __getitem__(self, i):
        return mk_generic(self)[i]

    def __symcontains__(self, x):
        return mk_generic(self).__symcontains__(x)


class HexNum(SymStrBase):
    """hex(x)[2:]-style text of a symbolic integer; prefix '0x' kept separately."""

    def __init__(self, x, prefix='0x', upper=False):
        self.x, self.prefix, self.up = x, prefix, upper

    __hash__ = SymStrBase.__hash__

    def __symtruth__(self):
        return True

    def cps(self):
        n = 1
        while not decide(self.x < 16 ** n):
            n += 1
        out = [ord(c) for c in self.prefix]
        for i in range(n - 1, -1, -1):
            out.append(nibble_cp(mod(floordiv(self.x, 16 ** i), 16), self.up))
        return out

    def __symlen__(self):
        return len(self.cps())

    def __eq__(self, o):
        if isinstance(o, HexNum) and o.prefix == self.prefix and o.up == self.up:
            return self.x == o.x
        if isinstance(o, HexStr) and o.upper_ == self.up and self.prefix == '':
            n = blen(o.rope)
            if isinstance(n, int):
                if n == 0:
                    return False
                return b_and([self.x == from_bytes(o.rope), self.x >= 16 ** (2 * n - 1)])
        return mk_generic(self) == (mk_generic(o) if isinstance(o, SymStrBase) and not isinstance(o, SymStr) else o)

    def __getitem__(self, i):
        if isinstance(i, slice) and i.start == 2 and i.stop is None and i.step is None and self.prefix == '0x':
            return HexNum(self.x, '', self.up)
        return mk_generic(self)[i]

    def upper(self):
        if self.prefix == '':
            return HexNum(self.x, '', True)
        return mk_generic(self).upper()

    def padded(self, w):
        """at least w digits, zeros first"""
        if self.prefix == '' and w % 2 == 0 and w > 0 and decide(self.x < 16 ** w):
            return hexstr(int_to_bytes(self.x, w // 2, 'big'), self.up)
        cps = self.cps()
        return mkstr([48] * max(0, w - len(cps)) + cps)

    def zfill(self, w):
        return self.padded(concretize_int(w)) if self.prefix == '' else mk_generic(self).zfill(w)

    def rjust(self, w, fill=' '):
        return self.padded(concretize_int(w)) if self.prefix == '' and fill == '0' else mk_generic(self).rjust(w, fill)

    def __symcontains__(self, x):
        return mk_generic(self).__symcontains__(x)


def join_str(sep, items):
    items = list(items)
    for i, p in enumerate(items):
        if not isinstance(p, (str, SymStrBase)):
            raise TypeError('sequence item %d: expected str instance, %s found' % (i, type(p).__name__))
    out = []
    for i, p in enumerate(items):
        if i and (not isinstance(sep, str) or sep):
            out.append(sep)
        out.append(p)
    return str_concat(out)


# --------------------------------------------------------------------------- concretisation
def blob_content(blob, n, m=None):
    import random
    r = random.Random('blob:%s' % blob.name)
    data = bytearray(r.getrandbits(8) for _ in range(n))
    if m is not None:
        for key, ch, v in blob.reads:
            off = eval_int(m, ch.off)
            val = eval_int(m, v)
            ln = ch.len
            bs = val.to_bytes(ln, 'big')
            if ch.rev:
                bs = bs[::-1]
            if off >= 0 and off + ln <= n:
                data[off:off + ln] = bs
    return bytes(data)


def eval_bytes(m, b):
    if isinstance(b, SymByteArray):
        b = b.b
    if isinstance(b, (bytes, bytearray)):
        return bytes(b)
    out = b''
    for ch in b.ch:
        if isinstance(ch, CB):
            out += ch.b
        elif isinstance(ch, CI):
            out += eval_int(m, ch.x).to_bytes(ch.k, 'big' if ch.big else 'little')
        else:
            n = eval_int(m, ch.len)
            off = eval_int(m, ch.off)
            tot = eval_int(m, ch.blob.length)
            d = blob_content(ch.blob, tot, m)[off:off + n]
            out += d[::-1] if ch.rev else d
    return out


def eval_any(m, x):
    """Concrete value of x under model m (deep)."""
    if isinstance(x, (SymInt, SymBool)):
        return eval_int(m, x)
    if isinstance(x, (SymBytes, SymByteArray)):
        return eval_bytes(m, x)
    if isinstance(x, HexStr):
        h = eval_bytes(m, x.rope).hex()
        return h.upper() if x.upper_ else h
    if isinstance(x, HexBytes):
        return eval_any(m, x.hs).encode()
    if isinstance(x, NumStr):
        return str(eval_int(m, x.x))
    if isinstance(x, HexNum):
        h = '%x' % eval_int(m, x.x)
        return x.prefix + (h.upper() if x.up else h)
    if isinstance(x, SymStr):
        return ''.join(chr(eval_int(m, c)) for c in x.c)
    if isinstance(x, FmtStr):
        return ''.join(p if isinstance(p, str) else eval_any(m, p) for p in x.parts)
    f = getattr(type(x), '__symeval__', None)
    if f is not None:
        return f(x, m)
    if isinstance(x, dict):
        return {eval_any(m, k): eval_any(m, v) for k, v in x.items()}
    if isinstance(x, list):
        return [eval_any(m, v) for v in x]
    if isinstance(x, tuple):
        if hasattr(x, '_fields'):
            return type(x)(*[eval_any(m, v) for v in x])
        return tuple(eval_any(m, v) for v in x)
    return x


def concretize(x):
    """One concrete value for x, fixed on this path (flags the case incomplete)."""
    if isinstance(x, (SymInt, SymBool)):
        return concretize_int(x)
    if not is_sym(x):
        if isinstance(x, (list, tuple, dict)):
            pass
        return x
    c = C()
    if c.spec:
        raise SpecAbort(c.spec[-1])
    c.degrade('concretised a symbolic %s' % type(x).__name__)
    m = c.model()
    if m is None:
        raise PathEnd()
    v = eval_any(m, x)
    try:
        e = x == v
        if isinstance(e, SymBool):
            c.assume(e.z())
            e.learn(True)
        elif e is False:
            raise PathEnd()
    except core.EngineExc:
        raise
    return v
