"""Symbolic integers and booleans.

SymInt is a linear form over atoms (all atoms bounded).  Atom kinds:
  var   free integer
  div   floor(base / d), d a positive constant
  bits  LSB-first vector of GF(2)-affine forms (bit masks over bit atoms, bit 0 = constant 1)
  pw    piecewise constant function of a base linear form
  z     integer-valued z3 expression (ite, products, uninterpreted results)
SymBool carries a z3 condition plus, when available, a set-of-ranges view over one
linear form (rc) or a conjunction of GF(2)-affine equations (affs).
"""
import decimal
from fractions import Fraction
import math
from math import gcd

import z3

from . import core
from .core import PathEnd, SpecAbort, EngineError

MAP_CAP = 4096


def C():
    return core.CUR


# --------------------------------------------------------------------------- ranges
def r_inter(a, b):
    out = []
    i = j = 0
    while i < len(a) and j < len(b):
        lo = max(a[i][0], b[j][0])
        hi = min(a[i][1], b[j][1])
        if lo <= hi:
            out.append((lo, hi))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


def r_norm(rs):
    rs = sorted(rs)
    out = []
    for lo, hi in rs:
        if lo > hi:
            continue
        if out and lo <= out[-1][1] + 1:
            if hi > out[-1][1]:
                out[-1] = (out[-1][0], hi)
        else:
            out.append((lo, hi))
    return tuple(out)


def r_compl(a, lo, hi):
    out = []
    cur = lo
    for x, y in a:
        if y < lo or x > hi:
            continue
        if x > cur:
            out.append((cur, x - 1))
        cur = max(cur, y + 1)
    if cur <= hi:
        out.append((cur, hi))
    return tuple(out)


# --------------------------------------------------------------------------- atoms
class Atom:
    __slots__ = ('id', 'key', 'kind', 'lo', 'hi', 'data', 'z')

    def __repr__(self):
        return '<%s %s [%s,%s]>' % (self.kind, self.id, self.lo, self.hi)


def get_atom(key, kind, lo, hi, data=None):
    c = C()
    a = c.atoms.get(key)
    if a is None:
        a = Atom()
        a.id = len(c.atom_list)
        a.key, a.kind, a.lo, a.hi, a.data, a.z = key, kind, lo, hi, data, None
        c.atom_list.append(a)
        c.atoms[key] = a
    return a


def of_atom(a):
    if a.lo == a.hi:
        return a.lo
    return SymInt(((a.id, 1),), 0)


def new_var(name, lo, hi):
    if lo > hi:
        raise PathEnd()
    return of_atom(get_atom(('var', name), 'var', lo, hi, name))


def atom_dom(a):
    d = C().dom.get(((a.id, 1),))
    if d is not None:
        return d
    if a.kind == 'pw':
        ps = pw_pieces(a)
        if ps:
            return ((min(p[2] for p in ps), max(p[2] for p in ps)),)
    return ((a.lo, a.hi),)


def atom_bounds(a):
    d = atom_dom(a)
    if not d:
        raise PathEnd()
    return d[0][0], d[-1][1]


def base_of(t, c):
    """lin = k*base + c with base primitive, leading coefficient positive."""
    g = 0
    for _, co in t:
        g = gcd(g, co)
    if t[0][1] < 0:
        g = -g
    if g == 1:
        return t, 1
    return tuple((i, co // g) for i, co in t), g


def base_dom(bt):
    c = C()
    lo = hi = 0
    for i, co in bt:
        l, h = atom_bounds(c.atom_list[i])
        if co > 0:
            lo += co * l
            hi += co * h
        else:
            lo += co * h
            hi += co * l
    b = c.linb.get(bt)
    if b is not None:
        lo, hi = max(lo, b[0]), min(hi, b[1])
    d = c.dom.get(bt)
    if d is not None:
        d = r_inter(d, ((lo, hi),))
    else:
        d = ((lo, hi),) if lo <= hi else ()
    if not d:
        raise PathEnd()
    return d


def bounds(x):
    if isinstance(x, int):
        return int(x), int(x)
    bt, k = base_of(x.t, x.c)
    d = base_dom(bt)
    lo, hi = d[0][0], d[-1][1]
    if k > 0:
        return k * lo + x.c, k * hi + x.c
    return k * hi + x.c, k * lo + x.c


def note_bounds(x, lo, hi):
    """Record bounds that hold by construction."""
    if isinstance(x, int):
        return x
    bt, k = base_of(x.t, x.c)
    if k > 0:
        l, h = -((x.c - lo) // k), (hi - x.c) // k
    else:
        kk = -k
        # lo <= -kk*b + c <= hi
        l = -((hi - x.c) // kk)
        h = (x.c - lo) // kk
    cur = C().linb.get(bt)
    if cur is None:
        C().linb[bt] = (l, h)
    else:
        C().linb[bt] = (max(cur[0], l), min(cur[1], h))
    l2, h2 = bounds(x)
    if l2 == h2:
        return l2
    return x


def mk(terms, c):
    t = tuple(sorted((i, co) for i, co in terms.items() if co))
    if not t:
        return c
    return SymInt(t, c)


def lin_add(a, b, kb=1):
    """a + kb*b"""
    if isinstance(b, int):
        b = int(b)
        if isinstance(a, int):
            return a + kb * b
        return SymInt(a.t, a.c + kb * b)
    if isinstance(a, int):
        if kb == 0:
            return int(a)
        return SymInt(tuple((i, co * kb) for i, co in b.t), int(a) + kb * b.c)
    d = dict(a.t)
    for i, co in b.t:
        d[i] = d.get(i, 0) + kb * co
    return mk(d, a.c + kb * b.c)


def lin_scale(a, k):
    if isinstance(a, int):
        return a * k
    if k == 0:
        return 0
    return SymInt(tuple((i, co * k) for i, co in a.t), a.c * k)


# --------------------------------------------------------------------------- z3 views
def zint(x):
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    parts = []
    for i, co in x.t:
        z = atom_z(C().atom_list[i])
        parts.append(z if co == 1 else z3.IntVal(co) * z)
    if x.c:
        parts.append(z3.IntVal(x.c))
    return z3.Sum(parts) if len(parts) > 1 else parts[0]


def zint_t(t):
    return zint(SymInt(t, 0))


def atom_z(a):
    if a.z is not None:
        return a.z
    c = C()
    if a.kind == 'var':
        a.z = z3.Int('v!' + str(a.data))
        c.add(z3.And(a.z >= a.lo, a.z <= a.hi))
    elif a.kind == 'div':
        base, d = a.data
        a.z = z3.Int('q!%d' % a.id)
        b = zint(base)
        c.add(z3.And(d * a.z <= b, b <= d * a.z + (d - 1)))
    elif a.kind == 'bits':
        parts = []
        for i, f in enumerate(a.data):
            if f == 0:
                continue
            if f == 1:
                parts.append(z3.IntVal(1 << i))
            else:
                parts.append(z3.If(aff_z(f), z3.IntVal(1 << i), z3.IntVal(0)))
        v = z3.Int('bv!%d' % a.id)
        c.add(v == z3.Sum(parts))
        a.z = v
    elif a.kind == 'pw':
        bt, pieces = a.data
        b = zint_t(bt)
        e = None
        # compress runs
        runs = []
        for lo, hi, v in pieces:
            if runs and lo == hi and runs[-1][3] is not None and runs[-1][1] == lo - 1 and v - lo == runs[-1][3] \
                    and (runs[-1][0] == runs[-1][1] or runs[-1][4]):
                r = runs[-1]
                runs[-1] = (r[0], hi, r[2], r[3], True)
            elif runs and runs[-1][1] == lo - 1 and runs[-1][2] == v and not runs[-1][4]:
                r = runs[-1]
                runs[-1] = (r[0], hi, v, None if (r[0] != hi) else r[3], False)
            else:
                runs.append((lo, hi, v, (v - lo) if lo == hi else None, False))
        for lo, hi, v, off, aff in reversed(runs):
            val = (b + off) if aff else z3.IntVal(v)
            e = val if e is None else z3.If(b <= hi, val, e)
        v = z3.Int('pw!%d' % a.id)
        c.add(v == e)
        a.z = v
    elif a.kind == 'z':
        a.z = z3.Int('e!%d' % a.id)
        if a.data is not None:
            c.add(a.z == a.data())
        c.add(z3.And(a.z >= a.lo, a.z <= a.hi))
    else:
        raise EngineError('atom kind ' + a.kind)
    return a.z


def bit_atom(key, zfn):
    c = C()
    i = c.bit_keys.get(key)
    if i is None:
        i = len(c.bit_z)
        c.bit_keys[key] = i
        c.bit_z.append(zfn)
    return 1 << i


def bit_atom_z(i):
    c = C()
    z = c.bit_z[i]
    if callable(z) and not isinstance(z, z3.ExprRef):
        z = z()
        c.bit_z[i] = z
    return z


def aff_reduce(m):
    for piv, row in C().gf2:
        if m & piv:
            m ^= row
    return m


def aff_z(m):
    if m == 0:
        return z3.BoolVal(False)
    if m == 1:
        return z3.BoolVal(True)
    e = None
    i = 1
    mm = m >> 1
    while mm:
        if mm & 1:
            b = bit_atom_z(i)
            e = b if e is None else z3.Xor(e, b)
        mm >>= 1
        i += 1
    return z3.Not(e) if m & 1 else e


def gf2_add(m):
    """Learn that affine form m is 0."""
    c = C()
    m = aff_reduce(m)
    if m == 0:
        return
    if m == 1:
        raise PathEnd()
    piv = 1 << (m.bit_length() - 1)
    rows = []
    for p, r in c.gf2:
        if r & piv:
            r ^= m
        rows.append((p, r))
    rows.append((piv, m))
    c.gf2 = rows


# --------------------------------------------------------------------------- SymBool
class SymBool:
    __slots__ = ('_z', 'rc', 'affs')

    def __init__(self, z=None, rc=None, affs=None):
        self._z = z
        self.rc = rc
        self.affs = affs

    def z(self):
        if self._z is None:
            if self.rc is not None:
                bt, rs = self.rc
                b = zint_t(bt)
                ds = base_dom(bt)
                dlo, dhi = ds[0][0], ds[-1][1]
                parts = []
                for lo, hi in rs:
                    if lo == hi:
                        parts.append(b == lo)
                    else:
                        ps = []
                        if lo > dlo:
                            ps.append(b >= lo)
                        if hi < dhi:
                            ps.append(b <= hi)
                        parts.append(z3.And(ps) if len(ps) != 1 else ps[0])
                        if not ps:
                            parts[-1] = z3.BoolVal(True)
                self._z = z3.Or(parts) if len(parts) != 1 else parts[0]
            else:
                ps = [z3.Not(aff_z(m)) for m in self.affs]
                self._z = z3.And(ps) if len(ps) != 1 else ps[0]
        return self._z

    def quick(self):
        """True/False when decided without the solver, else None."""
        if self.rc is not None:
            d = base_dom(self.rc[0])
            i = r_inter(d, self.rc[1])
            if not i:
                return False
            if i == d:
                return True
            return None
        if self.affs is not None:
            allz = True
            for m in self.affs:
                m = aff_reduce(m)
                if m == 1:
                    return False
                if m:
                    allz = False
            return True if allz else None
        if z3.is_true(self._z):
            return True
        if z3.is_false(self._z):
            return False
        return None

    def learn(self, val):
        if self.rc is not None:
            bt, rs = self.rc
            d = base_dom(bt)
            nd = r_inter(d, rs) if val else r_inter(d, r_compl(rs, d[0][0], d[-1][1]))
            if not nd:
                raise PathEnd()
            C().dom[bt] = nd
        elif self.affs is not None:
            if val:
                for m in self.affs:
                    gf2_add(m)
            elif len(self.affs) == 1:
                gf2_add(self.affs[0] ^ 1)

    def __bool__(self):
        q = self.quick()
        if q is not None:
            return q
        c = C()
        v = c.branch(self.z())
        if not c.spec:
            self.learn(v)
        return v

    # integer behaviour of bool
    def as_int(self):
        q = self.quick()
        if q is not None:
            return int(q)
        if self.affs is not None and len(self.affs) == 1:
            return mk_bits([self.affs[0] ^ 1])
        z = z3.simplify(self.z())
        C().keep.append(z)
        return of_atom(get_atom(('b2i', z.get_id()), 'z', 0, 1, lambda: z3.If(z, z3.IntVal(1), z3.IntVal(0))))

    def __invert__(self):
        return ~self.as_int()

    def __eq__(self, o):
        if isinstance(o, bool):
            return self if o else b_not(self)
        if isinstance(o, SymBool):
            return mkbool(z3.simplify(self.z() == o.z()))
        if isinstance(o, (int, SymInt)):
            return self.as_int() == o
        return False

    def __ne__(self, o):
        return b_not(self.__eq__(o))

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return b_and([self, o])
        return self.as_int() & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return b_or([self, o])
        return self.as_int() | o

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, SymBool)):
            return b_not(self == o)
        return self.as_int() ^ o

    __rxor__ = __xor__

    def __add__(self, o):
        return self.as_int() + o

    def __radd__(self, o):
        return o + self.as_int()

    def __sub__(self, o):
        return self.as_int() - o

    def __rsub__(self, o):
        return o - self.as_int()

    def __mul__(self, o):
        return self.as_int() * o

    __rmul__ = __mul__

    def __lt__(self, o):
        return self.as_int() < o

    def __le__(self, o):
        return self.as_int() <= o

    def __gt__(self, o):
        return self.as_int() > o

    def __ge__(self, o):
        return self.as_int() >= o

    def __index__(self):
        return int(bool(self))

    def __repr__(self):
        return 'SymBool'

    def __str__(self):
        return str(bool(self))

    def __format__(self, spec):
        return format(bool(self), spec)


def mkbool(z):
    if z is True or z is False:
        return z
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return SymBool(z)


def zb(b):
    if isinstance(b, SymBool):
        return b.z()
    return z3.BoolVal(bool(b))


def b_not(b):
    if b is True or b is False:
        return not b
    if b is NotImplemented:
        return b
    q = b.quick()
    if q is not None:
        return not q
    if b.rc is not None:
        bt, rs = b.rc
        d = base_dom(bt)
        return SymBool(rc=(bt, r_inter(d, r_compl(rs, d[0][0], d[-1][1]))))
    if b.affs is not None and len(b.affs) == 1:
        return SymBool(affs=(b.affs[0] ^ 1,))
    return mkbool(z3.simplify(z3.Not(b.z())))


def b_and(bs):
    out = []
    affs = []
    rcs = {}
    for b in bs:
        if b is True:
            continue
        if b is False:
            return False
        q = b.quick()
        if q is True:
            continue
        if q is False:
            return False
        if b.affs is not None:
            affs.extend(b.affs)
        elif b.rc is not None:
            cur = rcs.get(b.rc[0])
            rcs[b.rc[0]] = b.rc[1] if cur is None else r_inter(cur, b.rc[1])
            if not rcs[b.rc[0]]:
                return False
        else:
            out.append(b)
    items = list(out)
    for bt, rs in rcs.items():
        items.append(SymBool(rc=(bt, rs)))
    if affs:
        items.append(SymBool(affs=tuple(dict.fromkeys(affs))))
    if not items:
        return True
    if len(items) == 1:
        q = items[0].quick()
        return items[0] if q is None else q
    return mkbool(z3.And([i.z() for i in items]))


def b_or(bs):
    out = []
    rcs = {}
    for b in bs:
        if b is False:
            continue
        if b is True:
            return True
        q = b.quick()
        if q is False:
            continue
        if q is True:
            return True
        if b.rc is not None:
            cur = rcs.get(b.rc[0])
            rcs[b.rc[0]] = b.rc[1] if cur is None else r_norm(cur + b.rc[1])
        else:
            out.append(b)
    items = list(out)
    for bt, rs in rcs.items():
        items.append(SymBool(rc=(bt, rs)))
    if not items:
        return False
    if len(items) == 1:
        q = items[0].quick()
        return items[0] if q is None else q
    return mkbool(z3.Or([i.z() for i in items]))


def truth(x):
    """bool or SymBool for the truth value of x (no forking)."""
    if x is True or x is False:
        return x
    if isinstance(x, SymBool):
        q = x.quick()
        return x if q is None else q
    if isinstance(x, SymInt):
        return x != 0
    f = getattr(type(x), '__symtruth__', None)
    if f is not None:
        return f(x)
    return bool(x)


def decide(x):
    b = truth(x)
    return b if isinstance(b, bool) else bool(b)


# --------------------------------------------------------------------------- comparisons
def univariate(t):
    """If every atom of t is (a pw of) one common base: (base_t, [(coef, pieces)], coef_on_base)."""
    c = C()
    base = None
    pws = []
    own = {}
    for i, co in t:
        a = c.atom_list[i]
        if a.kind == 'pw':
            bt = a.data[0]
            if base is None:
                base = bt
            elif base != bt:
                return None
            pws.append((co, a))
        else:
            own[i] = co
    if base is None:
        return None
    kb = 0
    if own:
        bd = dict(base)
        if set(bd) != set(own):
            return None
        i0 = next(iter(bd))
        if own[i0] % bd[i0]:
            return None
        kb = own[i0] // bd[i0]
        if any(own[i] != kb * bd[i] for i in bd):
            return None
    return base, [(co, pw_pieces(a)) for co, a in pws], kb


def pw_pieces(a):
    bt, pieces = a.data
    d = base_dom(bt)
    if len(d) == 1 and d[0][0] <= pieces[0][0] and d[0][1] >= pieces[-1][1]:
        return pieces
    out = []
    j = 0
    for lo, hi, v in pieces:
        while j < len(d) and d[j][1] < lo:
            j += 1
        k = j
        while k < len(d) and d[k][0] <= hi:
            out.append((max(lo, d[k][0]), min(hi, d[k][1]), v))
            k += 1
    return tuple(out)


def refresh(x):
    """Rebuild piecewise atoms canonically under the current domains."""
    if isinstance(x, int) or not C().dom:
        return x
    al = C().atom_list
    if not any(al[i].kind == 'pw' for i, _ in x.t):
        return x
    r = x.c
    for i, co in x.t:
        a = al[i]
        v = mk_pw(a.data[0], a.data[1]) if a.kind == 'pw' else SymInt(((i, 1),), 0)
        r = lin_add(r, v, co)
    return r


def cmp0(x, op):
    """x op 0 for op in '<=', '==' -> bool/SymBool."""
    x = refresh(x)
    if isinstance(x, int):
        return x <= 0 if op == '<=' else x == 0
    u = univariate(x.t)
    if u is not None:
        base, pws, kb = u
        cuts = None
        for co, ps in pws:
            cur = [(lo, hi, co * v) for lo, hi, v in ps]
            if cuts is None:
                cuts = cur
            else:
                new = []
                i = j = 0
                while i < len(cuts) and j < len(cur):
                    lo = max(cuts[i][0], cur[j][0])
                    hi = min(cuts[i][1], cur[j][1])
                    if lo <= hi:
                        new.append((lo, hi, cuts[i][2] + cur[j][2]))
                    if cuts[i][1] < cur[j][1]:
                        i += 1
                    else:
                        j += 1
                cuts = new
        rs = []
        for lo, hi, v in cuts:
            v += x.c
            if kb == 0:
                if (v <= 0 if op == '<=' else v == 0):
                    rs.append((lo, hi))
            elif op == '==':
                if v % kb == 0 and lo <= -v // kb <= hi:
                    rs.append((-v // kb, -v // kb))
            else:
                if kb > 0:
                    h = (-v) // kb
                    rs.append((lo, min(hi, h)))
                else:
                    # kb*b + v <= 0, kb < 0  ->  b >= ceil(v / -kb)
                    l = -((-v) // (-kb))
                    rs.append((max(lo, l), hi))
        rs = r_norm(rs)
        if not rs:
            return False
        b = SymBool(rc=(base, rs))
        q = b.quick()
        return b if q is None else q
    bt, k = base_of(x.t, x.c)
    # single div atom: rewrite on its base
    if len(bt) == 1:
        a = C().atom_list[bt[0][0]]
        if a.kind == 'div':
            inner, d = a.data
            dom = base_dom(bt)
            if op == '==':
                if x.c % k:
                    return False
                v = -x.c // k
                return b_and([cmp0(lin_add(d * v, inner, -1), '<='), cmp0(lin_add(inner, -(d * v + d - 1)), '<=')])
            if k > 0:
                v = (-x.c) // k            # q <= v
                return cmp0(lin_add(inner, -(d * v + d - 1)), '<=')
            v = -((-x.c) // (-k))          # q >= ceil(c / -k)
            return cmp0(lin_add(d * v, inner, -1), '<=')
        if a.kind == 'bits' and op == '==':
            if x.c % k:
                return False
            v = -x.c // k
            if v < 0 or v.bit_length() > len(a.data):
                return False
            affs = []
            for i, f in enumerate(a.data):
                m = aff_reduce(f ^ ((v >> i) & 1))
                if m == 1:
                    return False
                if m:
                    affs.append(m)
            if not affs:
                return True
            return SymBool(affs=tuple(affs))
    if op == '==' and len(x.t) == 2 and x.c == 0:
        (i, ci), (j, cj) = x.t
        ai, aj = C().atom_list[i], C().atom_list[j]
        if ci == -cj and ai.kind == 'bits' and aj.kind == 'bits':
            affs = []
            n = max(len(ai.data), len(aj.data))
            for q in range(n):
                m = (ai.data[q] if q < len(ai.data) else 0) ^ (aj.data[q] if q < len(aj.data) else 0)
                m = aff_reduce(m)
                if m == 1:
                    return False
                if m:
                    affs.append(m)
            if not affs:
                return True
            return SymBool(affs=tuple(dict.fromkeys(affs)))
        if ci == -cj and ai.kind == 'pw' and aj.kind == 'pw':
            pa, pb = pw_pieces(ai), pw_pieces(aj)
            if all(p[0] == p[1] for p in pa) and all(p[0] == p[1] for p in pb):
                ma, mb = {p[2]: p[0] for p in pa}, {p[2]: p[0] for p in pb}
                if ma == mb and len(ma) == len(pa) and len(mb) == len(pb):
                    return cmp0(lin_add(SymInt(ai.data[0], 0), SymInt(aj.data[0], 0), -1), '==')
    if op == '==' and all(C().atom_list[i].kind == 'bits' for i, _ in x.t):
        fp = bits_sum([(i, co) for i, co in x.t if co > 0], max(x.c, 0))
        fn = bits_sum([(i, -co) for i, co in x.t if co < 0], max(-x.c, 0))
        if fp is not None and fn is not None:
            affs = []
            for q in range(max(len(fp), len(fn))):
                m = aff_reduce((fp[q] if q < len(fp) else 0) ^ (fn[q] if q < len(fn) else 0))
                if m == 1:
                    return False
                if m:
                    affs.append(m)
            if not affs:
                return True
            return SymBool(affs=tuple(dict.fromkeys(affs)))
    if op == '==':
        if x.c % k:
            return False
        v = -x.c // k
        rs = ((v, v),)
    else:
        d = base_dom(bt)
        if k > 0:
            rs = ((d[0][0], (-x.c) // k),)
        else:
            rs = ((-((-x.c) // (-k)), d[-1][1]),)
        if rs[0][0] > rs[0][1]:
            return False
    b = SymBool(rc=(bt, rs))
    q = b.quick()
    return b if q is None else q


def _isint(o):
    return isinstance(o, (int, SymInt)) or isinstance(o, SymBool)


def _ti(o):
    if isinstance(o, SymBool):
        return o.as_int()
    if isinstance(o, int):
        return int(o)
    return o


# --------------------------------------------------------------------------- SymInt
def _dec(x, other=None):
    from .dec import as_dec, SymDecimal, SymRatio
    if isinstance(other, Fraction):
        return SymRatio(x)
    return SymDecimal(x, 0) if isinstance(x, SymInt) else as_dec(x)


class SymInt:
    __slots__ = ('t', 'c')

    def __init__(self, t, c):
        self.t = t
        self.c = c

    def key(self):
        return (self.t, self.c)

    def __repr__(self):
        return 'SymInt(%s+%d)' % (self.t, self.c)

    def __hash__(self):
        C().state['symhash'] = True
        return 0x53

    # arithmetic
    def __add__(self, o):
        if isinstance(o, (decimal.Decimal, Fraction)):
            return _dec(self, o) + o
        if not _isint(o):
            if isinstance(o, float):
                return concretize_int(self) + o
            return NotImplemented
        return lin_add(self, _ti(o))

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, (decimal.Decimal, Fraction)):
            return _dec(self, o) - o
        if not _isint(o):
            if isinstance(o, float):
                return concretize_int(self) - o
            return NotImplemented
        return lin_add(self, _ti(o), -1)

    def __rsub__(self, o):
        if isinstance(o, (decimal.Decimal, Fraction)):
            return _dec(o) - _dec(self, o)
        if not _isint(o):
            if isinstance(o, float):
                return o - concretize_int(self)
            return NotImplemented
        return lin_add(_ti(o), self, -1)

    def __mul__(self, o):
        if isinstance(o, (decimal.Decimal, Fraction)):
            return _dec(self, o) * o
        if isinstance(o, float):
            return concretize_int(self) * o
        if not _isint(o):
            if isinstance(o, (str, bytes, list, tuple)):
                return repeat_seq(o, self)
            return NotImplemented
        return mul(self, _ti(o))

    __rmul__ = __mul__

    def __neg__(self):
        return lin_scale(self, -1)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if decide(self >= 0) else -self

    def __invert__(self):
        return lin_add(-1, self, -1)

    def __floordiv__(self, o):
        if isinstance(o, (decimal.Decimal, Fraction)):
            return _dec(self, o) // o
        if not _isint(o):
            return NotImplemented
        return floordiv(self, _ti(o))

    def __rfloordiv__(self, o):
        if not _isint(o):
            return NotImplemented
        return floordiv(_ti(o), self)

    def __mod__(self, o):
        if isinstance(o, (decimal.Decimal, Fraction)):
            return _dec(self, o) % o
        if not _isint(o):
            return NotImplemented
        return mod(self, _ti(o))

    def __rmod__(self, o):
        if not _isint(o):
            return NotImplemented
        return mod(_ti(o), self)

    def __divmod__(self, o):
        if not _isint(o):
            return NotImplemented
        o = _ti(o)
        q = floordiv(self, o)
        return q, lin_add(self, mul(q, o), -1) if not isinstance(o, int) else mod(self, o)

    def __rdivmod__(self, o):
        return floordiv(o, self), mod(o, self)

    def __truediv__(self, o):
        if isinstance(o, (decimal.Decimal, Fraction)):
            return _dec(self, o) / o
        if isinstance(o, int) and not isinstance(o, bool) and o:
            # exact float division only when small and exact results matter: concretise
            return concretize_int(self) / o
        if isinstance(o, (SymInt, float)):
            return concretize_int(self) / (o if isinstance(o, float) else concretize_int(o))
        return NotImplemented

    def __rtruediv__(self, o):
        if isinstance(o, (decimal.Decimal, Fraction)):
            return _dec(o) / _dec(self, o)
        if isinstance(o, (int, float)):
            return o / concretize_int(self)
        return NotImplemented

    def __pow__(self, e, m=None):
        return sym_pow(self, e, m)

    def __rpow__(self, b):
        e = concretize_int(self)
        return b ** e

    def __lshift__(self, k):
        k = concretize_int(k)
        bt = as_bits_atom(self)
        if bt is not None:
            return mk_bits([0] * k + list(bt))
        return lin_scale(self, 1 << k)

    def __rlshift__(self, o):
        return o << concretize_int(self)

    def __rshift__(self, k):
        k = concretize_int(k)
        return floordiv(self, 1 << k)

    def __rrshift__(self, o):
        return o >> concretize_int(self)

    def __and__(self, o):
        if not _isint(o):
            return NotImplemented
        return bit_and(self, _ti(o))

    __rand__ = __and__

    def __or__(self, o):
        if not _isint(o):
            return NotImplemented
        return bit_or(self, _ti(o))

    __ror__ = __or__

    def __xor__(self, o):
        if not _isint(o):
            return NotImplemented
        return bit_xor(self, _ti(o))

    __rxor__ = __xor__

    # comparisons
    def __eq__(self, o):
        if isinstance(o, (decimal.Decimal, Fraction)):
            return _dec(self, o) == o
        if isinstance(o, float):
            return o == int(o) and self == int(o)
        if not _isint(o):
            if hasattr(o, '__symnum__'):
                return NotImplemented
            return False
        return cmp0(lin_add(self, _ti(o), -1), '==')

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else b_not(r)

    def __le__(self, o):
        if isinstance(o, (decimal.Decimal, Fraction)):
            return _dec(self, o) <= o
        if isinstance(o, float):
            o = math.floor(o)
        if not _isint(o):
            return NotImplemented
        return cmp0(lin_add(self, _ti(o), -1), '<=')

    def __lt__(self, o):
        if isinstance(o, (decimal.Decimal, Fraction)):
            return _dec(self, o) < o
        if isinstance(o, float):
            o = math.ceil(o)
        if not _isint(o):
            return NotImplemented
        return cmp0(lin_add(self, lin_add(_ti(o), -1), -1), '<=')

    def __ge__(self, o):
        if isinstance(o, (decimal.Decimal, Fraction)):
            return _dec(self, o) >= o
        if isinstance(o, float):
            o = math.ceil(o)
        if not _isint(o):
            return NotImplemented
        return cmp0(lin_add(_ti(o), self, -1), '<=')

    def __gt__(self, o):
        if isinstance(o, (decimal.Decimal, Fraction)):
            return _dec(self, o) > o
        if isinstance(o, float):
            o = math.floor(o)
        if not _isint(o):
            return NotImplemented
        return cmp0(lin_add(lin_add(_ti(o), 1), self, -1), '<=')

    def __bool__(self):
        return decide(self != 0)

    def __index__(self):
        return concretize_int(self)

    def __int__(self):
        return concretize_int(self)

    def __float__(self):
        return float(concretize_int(self))

    def __round__(self, n=None):
        return self if n is None or n >= 0 else round(concretize_int(self), n)

    def __ceil__(self):
        return self

    def __floor__(self):
        return self

    def __trunc__(self):
        return self

    def __str__(self):
        return '<symint>'

    def __format__(self, spec):
        return '<symint>'

    # int methods
    def bit_length(self):
        lo, hi = bounds(self)
        if lo < 0:
            if not decide(self >= 0):
                return (-self).bit_length()
            lo, hi = bounds(self)
            lo = max(lo, 0)
        n = hi.bit_length()

        def pieces(l, h):
            ps = []
            if l <= 0:
                ps.append((0, 0, 0))
            for k in range(max(1, l.bit_length()), h.bit_length() + 1):
                ps.append((max(l, 1 << (k - 1)), min(h, (1 << k) - 1), k))
            return ps
        return range_fn(self, pieces)

    def bit_count(self):
        bits = to_bits(self)
        s = 0
        for f in bits:
            s = s + mk_bits([f])
        return s

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        from .seq import int_to_bytes
        return int_to_bytes(self, length, byteorder, signed)

    def conjugate(self):
        return self

    def is_integer(self):
        return True

    def as_integer_ratio(self):
        return (self, 1)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1


def repeat_seq(s, n):
    if isinstance(s, bytes) and len(s) == 1:
        pass
    k = concretize_int(n)
    return s * k


def mul(a, b):
    if isinstance(b, int):
        if isinstance(a, int):
            return a * b
        bt = as_bits_atom(a)
        if bt is not None and b > 0 and b & (b - 1) == 0:
            return mk_bits([0] * (b.bit_length() - 1) + list(bt))
        return lin_scale(a, b)
    if isinstance(a, int):
        return mul(b, a)
    ka, kb = a.key(), b.key()
    if kb < ka:
        a, b, ka, kb = b, a, kb, ka
    la, ha = bounds(a)
    lb, hb = bounds(b)
    vs = [la * lb, la * hb, ha * lb, ha * hb]
    if la >= 0 and ha <= 1:
        pass
    return of_atom(get_atom(('mul', ka, kb), 'z', min(vs), max(vs), lambda: zint(a) * zint(b)))


def sym_pow(x, e, m=None):
    if m is not None:
        if not isinstance(m, int):
            m = concretize_int(m)
        kx = x.key() if isinstance(x, SymInt) else x
        ke = e.key() if isinstance(e, SymInt) else e
        return of_atom(get_atom(('powmod', kx, ke, m), 'z', 0, m - 1, None))
    e = concretize_int(e)
    if e < 0:
        return concretize_int(x) ** e
    r = 1
    for _ in range(e):
        r = mul(r, x) if not isinstance(r, int) or r != 1 else x
    return r


def concretize_int(x):
    """Fork over every feasible value (bounded)."""
    if isinstance(x, SymBool):
        return int(bool(x))
    if not isinstance(x, SymInt):
        return x
    c = C()
    n = 0
    while True:
        lo, hi = bounds(x)
        if lo == hi:
            return lo
        cands = candidate_values(x)
        if cands is not None:
            for v in cands:
                if decide(x == v):
                    return v
            raise PathEnd()
        if c.spec:
            raise SpecAbort(c.spec[-1])
        if hi - lo > c.ENUM_CAP or n > 64:
            m = c.model()
            if m is None:
                raise PathEnd()
            v = eval_int(m, x)
            c.degrade('integer concretised (range %d)' % min(hi - lo, 10 ** 9))
            c.stash()
            c.assume(zb(x == v))
            e = x == v
            if isinstance(e, SymBool):
                e.learn(True)
            return v
        # deterministic enumeration keeps prefix replay valid
        if decide(x == lo):
            return lo
        n += 1


def candidate_values(x):
    u = univariate(x.t)
    if u is None:
        return None
    base, pws, kb = u
    if kb or len(pws) != 1:
        return None
    co, ps = pws[0]
    return sorted({co * v + x.c for _, _, v in ps})


def eval_int(m, x):
    if isinstance(x, bool):
        return x
    if isinstance(x, int):
        return x
    if isinstance(x, SymBool):
        return z3.is_true(m.eval(x.z(), model_completion=True))
    memo = C().state.setdefault('evalmemo', (None, {}))
    if memo[0] is not m:
        memo = (m, {})
        C().state['evalmemo'] = memo
    t = x.c
    for i, co in x.t:
        t += co * eval_atom(m, C().atom_list[i], memo[1])
    return t


def eval_atom(m, a, memo):
    """Value of an atom under a model, computed from the free inputs (the model may predate the atom)."""
    v = memo.get(a.id)
    if v is not None:
        return v
    if a.kind == 'var' or (a.kind == 'z' and a.data is None):
        v = None
        if a.z is not None:
            r = m.eval(a.z)
            if z3.is_int_value(r):
                v = r.as_long()
        if v is None:
            v = atom_dom(a)[0][0]
    elif a.kind == 'div':
        v = eval_int(m, a.data[0]) // a.data[1]
    elif a.kind == 'bits':
        v = 0
        for i, f in enumerate(a.data):
            if eval_aff(m, f):
                v |= 1 << i
    elif a.kind == 'pw':
        b = eval_int(m, SymInt(a.data[0], 0))
        for lo, hi, pv in a.data[1]:
            if lo <= b <= hi:
                v = pv
                break
        else:
            v = a.data[1][0][2]
    else:
        v = m.eval(a.data(), model_completion=True).as_long()
    memo[a.id] = v
    return v


def eval_aff(m, f):
    c = C()
    for p, row in c.gf2:
        if f & p:
            f ^= row
    v = f & 1
    i = 1
    f >>= 1
    while f:
        if f & 1 and z3.is_true(m.eval(bit_atom_z(i), model_completion=True)):
            v ^= 1
        f >>= 1
        i += 1
    return v


# --------------------------------------------------------------------------- piecewise
def mk_pw(bt, pieces):
    """pieces: sorted (lo,hi,val) covering the current domain of base bt."""
    d = base_dom(bt)
    out = []
    i = j = 0
    while i < len(pieces) and j < len(d):
        lo, hi, v = pieces[i]
        l, h = max(lo, d[j][0]), min(hi, d[j][1])
        if l <= h:
            if out and out[-1][2] == v and out[-1][1] == l - 1:
                out[-1] = (out[-1][0], h, v)
            else:
                out.append((l, h, v))
        if hi < d[j][1]:
            i += 1
        else:
            j += 1
    if not out:
        raise PathEnd()
    vals = {p[2] for p in out}
    if len(vals) == 1:
        return out[0][2]
    if all(p[0] == p[1] for p in out):
        off = out[0][2] - out[0][0]
        if all(p[2] - p[0] == off for p in out):
            return SymInt(bt, off)
    # a contiguous run may hide an identity over a merged range of length 1 only
    a = get_atom(('pw', bt, tuple(out)), 'pw', min(vals), max(vals), (bt, tuple(out)))
    return of_atom(a)


def bits_sum(terms, const):
    """forms of a sum of scaled bits atoms occupying disjoint bit positions, else None."""
    out = {}
    al = C().atom_list
    for j in range(const.bit_length()):
        if (const >> j) & 1:
            out[j] = 1
    for i, co in terms:
        a = al[i]
        if co & (co - 1):
            if len(a.data) != 1:
                return None
            items = [(j, a.data[0]) for j in range(co.bit_length()) if (co >> j) & 1]
        else:
            sh = co.bit_length() - 1
            items = [(sh + j, f) for j, f in enumerate(a.data) if f]
        for j, f in items:
            if j in out:
                return None
            out[j] = f
    n = max(out) + 1 if out else 0
    return [out.get(j, 0) for j in range(n)]


def norm_bits(x):
    """A disjoint sum of bits atoms as one bits atom."""
    if isinstance(x, SymInt) and len(x.t) > 1 and x.c >= 0:
        al = C().atom_list
        if all(co > 0 and al[i].kind == 'bits' for i, co in x.t):
            f = bits_sum(x.t, x.c)
            if f is not None:
                return mk_bits(f)
    return x


def values_view(x, cap=MAP_CAP):
    """(bt, [(lo,hi,val)]) describing x as piecewise function of a base, or None."""
    u = univariate(x.t)
    if u is not None:
        base, pws, kb = u
        cuts = None
        for co, ps in pws:
            cur = [(lo, hi, co * v) for lo, hi, v in ps]
            if cuts is None:
                cuts = cur
            else:
                new = []
                for a in cuts:
                    for b in cur:
                        lo, hi = max(a[0], b[0]), min(a[1], b[1])
                        if lo <= hi:
                            new.append((lo, hi, a[2] + b[2]))
                cuts = new
        if kb == 0:
            return base, [(lo, hi, v + x.c) for lo, hi, v in cuts]
        tot = sum(hi - lo + 1 for lo, hi, _ in cuts)
        if tot > cap:
            return None
        out = []
        for lo, hi, v in cuts:
            for b in range(lo, hi + 1):
                out.append((b, b, kb * b + v + x.c))
        return base, out
    bt, k = base_of(x.t, x.c)
    d = base_dom(bt)
    tot = sum(h - l + 1 for l, h in d)
    if tot > cap:
        return None
    return bt, [(b, b, k * b + x.c) for l, h in d for b in range(l, h + 1)]


def map_fn(x, f, cap=MAP_CAP):
    """Apply a concrete int function to x pointwise; None if the range is too large.
    f may raise ValueError-like -> propagated as None value handled by caller."""
    x = norm_bits(x)
    if isinstance(x, int):
        return f(x)
    v = values_view(x, cap)
    if v is None:
        return None
    bt, ps = v
    return mk_pw(bt, [(lo, hi, f(val)) for lo, hi, val in ps])


def pred_fn(x, f, cap=MAP_CAP):
    """Predicate on x as SymBool/bool; None if the range is too large."""
    x = norm_bits(x)
    if isinstance(x, int):
        return bool(f(x))
    v = values_view(x, cap)
    if v is None:
        return None
    bt, ps = v
    rs = r_norm([(lo, hi) for lo, hi, val in ps if f(val)])
    if not rs:
        return False
    b = SymBool(rc=(bt, rs))
    q = b.quick()
    return b if q is None else q


def range_fn(x, pieces):
    """x -> step function; pieces(lo,hi) gives (lo,hi,val) over x's own values."""
    u = univariate(x.t)
    if u is not None:
        r = map_fn(x, lambda v: pieces(v, v)[0][2])
        if r is not None:
            return r
    lo, hi = bounds(x)
    ps = pieces(lo, hi)
    bt, k = base_of(x.t, x.c)
    out = []
    for l, h, v in ps:
        if k > 0:
            bl, bh = -((-(l - x.c)) // k), (h - x.c) // k
        else:
            bl, bh = -((-(x.c - h)) // -k), (x.c - l) // -k
        if bl <= bh:
            out.append((bl, bh, v))
    out.sort()
    return mk_pw(bt, out)


# --------------------------------------------------------------------------- div / mod
def floordiv(x, d):
    if not isinstance(d, int):
        lo, hi = bounds(d)
        if lo == hi:
            d = lo
        else:
            if decide(d == 0):
                raise ZeroDivisionError('integer division or modulo by zero')
            kx = x.key() if isinstance(x, SymInt) else x
            lx, hx = bounds(x)
            m = max(abs(lx), abs(hx)) + 1
            a = get_atom(('fdiv', kx, d.key()), 'z', -m, m, None)
            q = of_atom(a)
            if a.z is None:
                zq, zx, zd = atom_z(a), zint(x), zint(d)
                C().add(z3.If(zd > 0, z3.And(zq * zd <= zx, zx < zq * zd + zd),
                              z3.And(zq * zd >= zx, zx > zq * zd + zd)))
            if lx >= 0 and bounds(d)[0] > 0:
                a.lo, a.hi = lx // bounds(d)[1], hx // bounds(d)[0]
            return q
    if d == 0:
        raise ZeroDivisionError('integer division or modulo by zero')
    if isinstance(x, int):
        return x // d
    if d < 0:
        return floordiv(lin_scale(x, -1), -d)
    if d == 1:
        return x
    lo, hi = bounds(x)
    if lo // d == hi // d:
        return lo // d
    bt = as_bits_sum(x) if d & (d - 1) == 0 else None
    if bt is not None:
        return mk_bits(bt[d.bit_length() - 1:])
    u = univariate(x.t)
    if u is not None and u[2] == 0:
        return map_fn(x, lambda v: v // d)
    r = _floordiv(x, d)
    return note_bounds(r, lo // d, hi // d)


def _split(x, g, exact=False):
    """x = g*A + B, B holding the terms not divisible by g and const mod g."""
    a, b = {}, {}
    for i, co in x.t:
        if co % g == 0:
            a[i] = co // g
        elif exact:
            b[i] = co
        else:
            q, r = divmod(co, g)
            if r * 2 > g:
                q, r = q + 1, r - g
            if q:
                a[i] = q
            b[i] = r
    qa, rc = divmod(x.c, g)
    return mk(a, qa), mk(b, rc)


def _floordiv(x, d):
    if isinstance(x, int):
        return x // d
    A, B = _split(x, d)
    # B = x - d*A
    lo, hi = bounds(B)
    if lo // d == hi // d:
        return lin_add(A, lo // d)
    A, B = _split(x, d, True)
    lo, hi = bounds(B)
    if lo // d == hi // d:
        return lin_add(A, lo // d)
    # try coarser grouping: B = g*U + R with 0 <= R < g, g | d
    if isinstance(B, SymInt):
        gs = set()
        for _, co in B.t:
            g = gcd(co, d)
            if g > 1:
                gs.add(g)
        g_all = d
        for _, co in B.t:
            g_all = gcd(g_all, co)
        if g_all > 1:
            gs.add(g_all)
        for g in sorted(gs):
            if g >= d:
                continue
            U, R = _split(B, g)
            l, h = bounds(R)
            if l // g == h // g:
                return lin_add(A, _floordiv(lin_add(U, l // g), d // g))
        # nested division: (div(Y,e)*1 + c) // d
        if len(B.t) == 1 and B.t[0][1] == 1:
            a = C().atom_list[B.t[0][0]]
            if a.kind == 'div':
                Y, e = a.data
                return lin_add(A, _floordiv(lin_add(Y, B.c * e), e * d))
        # (Y - e*div(Y,e)*k ...) handled by _split since e multiple of d goes to A
        lo, hi = bounds(B)
        atom = get_atom(('div', B.key(), d), 'div', lo // d, hi // d, (B, d))
        return lin_add(A, of_atom(atom))
    return lin_add(A, B // d)


def mod(x, d):
    if not isinstance(d, int):
        lo, hi = bounds(d)
        if lo != hi:
            q = floordiv(x, d)
            r = lin_add(x, mul(q, d), -1)
            if isinstance(r, SymInt) and lo > 0:
                note_bounds(r, 0, hi - 1)
            return r
        d = lo
    if isinstance(x, int):
        return x % d
    if d == 0:
        raise ZeroDivisionError('integer modulo by zero')
    if d < 0:
        return lin_scale(mod(lin_scale(x, -1), -d), -1)
    bt = as_bits_sum(x) if d & (d - 1) == 0 else None
    if bt is not None:
        return mk_bits(bt[:d.bit_length() - 1])
    u = univariate(x.t)
    if u is not None and u[2] == 0:
        return map_fn(x, lambda v: v % d)
    r = lin_add(x, floordiv(x, d), -d)
    return note_bounds(r, 0, d - 1)


# --------------------------------------------------------------------------- bits
def as_bits_atom(x):
    """forms if x is exactly one bits atom (coefficient a power of two, no constant)."""
    if isinstance(x, int):
        return None
    if len(x.t) == 1 and x.c == 0:
        i, co = x.t[0]
        a = C().atom_list[i]
        if a.kind == 'bits' and co > 0 and co & (co - 1) == 0:
            return (0,) * (co.bit_length() - 1) + a.data
    return None


def as_bits_sum(x):
    b = as_bits_atom(x)
    if b is None and x.c >= 0:
        al = C().atom_list
        if all(co > 0 and al[i].kind == 'bits' for i, co in x.t):
            b = bits_sum(x.t, x.c)
    return b


def mk_bits(forms):
    if C().gf2:
        forms = [aff_reduce(f) for f in forms]
    forms = list(forms)
    while forms and forms[-1] == 0:
        forms.pop()
    if not forms:
        return 0
    if all(f in (0, 1) for f in forms):
        return sum(f << i for i, f in enumerate(forms))
    key = tuple(forms)
    al = C().derived_bits.get(key)
    if al is not None:
        return al
    lo = sum(1 << i for i, f in enumerate(forms) if f == 1)
    hi = sum(1 << i for i, f in enumerate(forms) if f != 0)
    return of_atom(get_atom(('bits', key), 'bits', lo, hi, key))


def to_bits(x):
    if isinstance(x, int):
        if x < 0:
            raise EngineError('bits of negative')
        return [(x >> i) & 1 for i in range(x.bit_length())]
    b = as_bits_atom(x)
    if b is not None:
        return list(b)
    lo, hi = bounds(x)
    if lo < 0:
        if not decide(x >= 0):
            C().degrade('bit operation on negative symbolic integer')
            return to_bits(concretize_int(x))
        lo, hi = bounds(x)
    n = hi.bit_length()
    # concatenation of disjoint bit vectors
    parts = []
    ok = True
    for i, co in x.t:
        a = C().atom_list[i]
        if co > 0 and co & (co - 1) and a.kind == 'bits' and len(a.data) == 1:
            parts.append((0, [a.data[0] if (co >> j) & 1 else 0 for j in range(co.bit_length())]))
            continue
        if co <= 0 or co & (co - 1):
            ok = False
            break
        if a.kind == 'bits':
            parts.append((co.bit_length() - 1, list(a.data)))
        else:
            al, ah = atom_bounds(a)
            if al < 0 or len(x.t) == 1:
                ok = False
                break
            parts.append((co.bit_length() - 1, to_bits(of_atom(a))))
    if ok and parts:
        if x.c:
            ok = x.c > 0
            if ok:
                parts.append((0, [(x.c >> i) & 1 for i in range(x.c.bit_length())]))
        if ok:
            out = [0] * (n + 8)
            used = [False] * (n + 8)
            for sh, fs in parts:
                for j, f in enumerate(fs):
                    if f == 0:
                        continue
                    if sh + j >= len(out) or used[sh + j]:
                        ok = False
                        break
                    used[sh + j] = True
                    out[sh + j] = f
                if not ok:
                    break
            if ok:
                while out and out[-1] == 0:
                    out.pop()
                return out
    out = []
    vv = values_view(x, 1024) if hi - lo <= 1024 or univariate(x.t) else None
    for i in range(n):
        if vv is not None:
            bt, ps = vv
            rs = r_norm([(l, h) for l, h, v in ps if (v >> i) & 1])
            d = base_dom(bt)
            inter = r_inter(d, rs)
            if not inter:
                out.append(0)
                continue
            if inter == d:
                out.append(1)
                continue
            sb = SymBool(rc=(bt, rs))
            out.append(bit_atom(('bitpw', bt, rs), sb.z))
        else:
            def zf(i=i):
                q = floordiv(x, 1 << i)
                return zint(mod(q, 2)) == 1
            out.append(bit_atom(('bitof', x.key(), i), zf))
    key = list(out)
    while key and key[-1] == 0:
        key.pop()
    if key and not all(f in (0, 1) for f in key):
        C().derived_bits.setdefault(tuple(key), x)
    return out


def bit_and(a, b):
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        if b == 0:
            return 0
        if b > 0:
            ba = as_bits_atom(a)
            if ba is not None:
                return mk_bits([f if (b >> i) & 1 else 0 for i, f in enumerate(ba)])
            # contiguous runs of ones
            res = 0
            i = 0
            while b >> i:
                if (b >> i) & 1:
                    j = i
                    while (b >> j) & 1:
                        j += 1
                    part = mod(floordiv(a, 1 << i), 1 << (j - i))
                    res = lin_add(res, part, 1 << i)
                    i = j
                else:
                    i += 1
            return res
        if b == -1:
            return a
        # negative mask: a - (a & ~b)
        return lin_add(a, bit_and(a, ~b), -1)
    fa, fb = to_bits(a), to_bits(b)
    out = []
    for x, y in zip(fa, fb):
        out.append(form_and(x, y))
    return mk_bits(out)


def form_and(x, y):
    if x == 0 or y == 0:
        return 0
    if x == 1:
        return y
    if y == 1:
        return x
    if x == y:
        return x
    if x == y ^ 1:
        return 0
    return bit_atom(('and', min(x, y), max(x, y)), lambda: z3.And(aff_z(x), aff_z(y)))


def bit_or(a, b):
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    for x, y in ((a, b), (b, a)):
        # x multiple of 2^k, 0 <= y < 2^k
        if as_bits_atom(x) is not None and (isinstance(y, int) or as_bits_atom(y) is not None):
            break
        lo, hi = bounds(y)
        if lo >= 0:
            k = hi.bit_length()
            m = 1 << k
            if isinstance(x, int):
                ok = x % m == 0
            else:
                ok = x.c % m == 0 and all(co % m == 0 for _, co in x.t)
            if ok:
                return lin_add(x, y)
    fa, fb = to_bits(a), to_bits(b)
    n = max(len(fa), len(fb))
    fa += [0] * (n - len(fa))
    fb += [0] * (n - len(fb))
    out = []
    for x, y in zip(fa, fb):
        out.append(x ^ y ^ form_and(x, y))
    return mk_bits(out)


def bit_xor(a, b):
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    fa, fb = to_bits(a), to_bits(b)
    n = max(len(fa), len(fb))
    fa += [0] * (n - len(fa))
    fb += [0] * (n - len(fb))
    return mk_bits([x ^ y for x, y in zip(fa, fb)])


# --------------------------------------------------------------------------- ite
def ite(cond, a, b):
    """Merged value for ints/bools; raises TypeError if not mergeable."""
    if cond is True:
        return a
    if cond is False:
        return b
    if a is b:
        return a
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        if a is True and b is False:
            return cond
        if a is False and b is True:
            return b_not(cond)
        return mkbool(z3.simplify(z3.If(cond.z(), zb(a), zb(b))))
    if isinstance(a, (bool, SymBool)) or isinstance(b, (bool, SymBool)):
        raise TypeError('merge')
    if not (isinstance(a, (int, SymInt)) and isinstance(b, (int, SymInt))):
        raise TypeError('merge')
    diff = lin_add(a, b, -1)
    if isinstance(diff, int) and diff == 0:
        return a
    if cond.affs is not None and len(cond.affs) == 1:
        m = cond.affs[0] ^ 1  # cond true iff m == 1
        la, _ = bounds(a)
        lb, _ = bounds(b)
        if la >= 0 and lb >= 0 and (isinstance(a, int) or as_bits_atom(a) is not None) and \
                (isinstance(b, int) or as_bits_atom(b) is not None):
            fa, fb = to_bits(a), to_bits(b)
            n = max(len(fa), len(fb))
            fa += [0] * (n - len(fa))
            fb += [0] * (n - len(fb))
            return mk_bits([y ^ form_and(m, x ^ y) for x, y in zip(fa, fb)])
    if cond.rc is not None:
        va = values_view(a) if isinstance(a, SymInt) else None
        vb = values_view(b) if isinstance(b, SymInt) else None
        bt = cond.rc[0]
        if (isinstance(a, int) or (va and va[0] == bt)) and (isinstance(b, int) or (vb and vb[0] == bt)):
            d = base_dom(bt)
            pa = va[1] if va else [(d[0][0], d[-1][1], a)]
            pb = vb[1] if vb else [(d[0][0], d[-1][1], b)]
            rs = cond.rc[1]
            ps = []
            for l, h, v in pa:
                for x, y in r_inter(((l, h),), rs):
                    ps.append((x, y, v))
            nr = r_compl(rs, d[0][0], d[-1][1])
            for l, h, v in pb:
                for x, y in r_inter(((l, h),), nr):
                    ps.append((x, y, v))
            ps.sort()
            return mk_pw(bt, ps)
    z = z3.simplify(cond.z())
    C().keep.append(z)
    if isinstance(diff, int):
        i = of_atom(get_atom(('b2i', z.get_id()), 'z', 0, 1, lambda: z3.If(z, z3.IntVal(1), z3.IntVal(0))))
        return lin_add(b, i, diff)
    la, ha = bounds(a)
    lb, hb = bounds(b)
    ka = a.key() if isinstance(a, SymInt) else a
    kb = b.key() if isinstance(b, SymInt) else b
    return of_atom(get_atom(('ite', z.get_id(), ka, kb), 'z', min(la, lb), max(ha, hb),
                            lambda: z3.If(z, zint(a), zint(b))))


def fresh_bits(name, n):
    """n free bits as a SymInt (kind bits)."""
    forms = []
    for i in range(n):
        nm = '%s.%d' % (name, i)
        forms.append(bit_atom(('bitvar', nm), z3.Bool('b!' + nm)))
    return mk_bits(forms)
