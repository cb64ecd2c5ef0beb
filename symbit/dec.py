"""Symbolic decimal.Decimal: coefficient (signed SymInt) times 10**exp, and exact quotients."""
import decimal
from fractions import Fraction

from .core import EngineError
from .values import (C, SymInt, SymBool, bounds, lin_add, lin_scale, floordiv, mod, b_not, b_and, decide,
                     concretize_int, mul, eval_int)
from .seq import SymStrBase, NumStr, SymStr, FmtStr, mkstr, mk_generic


def _prec():
    return decimal.getcontext().prec


def pow10(n):
    return 10 ** n


def as_dec(o):
    if isinstance(o, SymDecimal):
        return o
    if isinstance(o, (int, SymInt)) and not isinstance(o, bool):
        return SymDecimal(o, 0)
    if isinstance(o, decimal.Decimal):
        if not o.is_finite():
            return None
        s, ds, e = o.as_tuple()
        v = int(''.join(map(str, ds)) or '0')
        return SymDecimal(-v if s else v, e)
    if isinstance(o, Fraction):
        return SymRatio(o.numerator, 0, o.denominator)
    return None


def round_to_prec(coef, exp):
    p = _prec()
    lo, hi = bounds(coef)
    m = max(abs(lo), abs(hi))
    if m < 10 ** p:
        return coef, exp
    neg = decide(coef < 0)
    a = lin_scale(coef, -1) if neg else coef
    if decide(a < 10 ** p):
        return coef, exp
    d = p + 1
    while not decide(a < 10 ** d):
        d += 1
    k = 10 ** (d - p)
    q, r = floordiv(a, k), mod(a, k)
    if decide(lin_scale(r, 2) > k):
        q = lin_add(q, 1)
    elif decide(lin_scale(r, 2) == k):
        if decide(mod(q, 2) == 1):
            q = lin_add(q, 1)
    exp += d - p
    if decide(q == 10 ** p):
        q, exp = 10 ** (p - 1), exp + 1
    return (lin_scale(q, -1) if neg else q), exp


class SymDecimal:
    """value = coef * 10**exp / den ; den == 1 for exact decimals."""
    __symvalue__ = True
    __symnum__ = True

    def __init__(self, coef, exp, den=1, cls=decimal.Decimal, norm=False):
        self.coef, self.exp, self.den, self.cls, self.norm = coef, exp, den, cls, norm

    def _new(self, coef, exp, den=1):
        if isinstance(den, int) and den == 1:
            coef, exp = round_to_prec(coef, exp)
        return SymDecimal(coef, exp, den)

    def _as(self, o):
        return None if isinstance(o, (SymRatio, Fraction)) else as_dec(o)

    # arithmetic (results are plain Decimal, as for subclasses in CPython)
    def __mul__(self, o):
        o = self._as(o)
        if o is None:
            return NotImplemented
        return self._new(mul(self.coef, o.coef), self.exp + o.exp, mul(self.den, o.den))

    __rmul__ = __mul__

    def _align(self, o):
        e = min(self.exp, o.exp)
        a = lin_scale(self.coef, pow10(self.exp - e)) if isinstance(self.coef, SymInt) else self.coef * pow10(self.exp - e)
        b = lin_scale(o.coef, pow10(o.exp - e)) if isinstance(o.coef, SymInt) else o.coef * pow10(o.exp - e)
        return a, b, e

    def __add__(self, o):
        o = self._as(o)
        if o is None:
            return NotImplemented
        if self.den is not o.den and not (isinstance(self.den, int) and isinstance(o.den, int) and self.den == o.den):
            C().degrade('sum of quotients')
            return concretize_dec(self) + concretize_dec(o)
        a, b, e = self._align(o)
        return self._new(lin_add(a, b), e, self.den)

    __radd__ = __add__

    def __neg__(self):
        return SymDecimal(lin_scale(self.coef, -1), self.exp, self.den)

    def __pos__(self):
        return self._new(self.coef, self.exp, self.den)

    def __abs__(self):
        return self if decide(self.coef >= 0) else -self

    def __sub__(self, o):
        o = self._as(o)
        if o is None:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        o = self._as(o)
        if o is None:
            return NotImplemented
        return o - self

    def __truediv__(self, o):
        o = self._as(o)
        if o is None:
            return NotImplemented
        return dec_div(self, o)

    def __rtruediv__(self, o):
        o = self._as(o)
        if o is None:
            return NotImplemented
        return dec_div(o, self)

    def __floordiv__(self, o):
        o = as_dec(o)
        q = dec_div(self, o)
        return SymDecimal(trunc(q), 0)

    def __mod__(self, o):
        o = as_dec(o)
        return self - o * (self // o)

    def _cmp(self, o):
        o = as_dec(o)
        if o is None:
            return None
        a, b, e = self._align(o)
        a = mul(a, o.den)
        b = mul(b, self.den)
        return lin_add(a, b, -1)

    def __eq__(self, o):
        if isinstance(o, float):
            o = decimal.Decimal(o)
        d = self._cmp(o)
        return False if d is None else d == 0

    def __ne__(self, o):
        return b_not(self.__eq__(o))

    def __lt__(self, o):
        if isinstance(o, float):
            o = decimal.Decimal(o)
        return self._cmp(o) < 0

    def __le__(self, o):
        if isinstance(o, float):
            o = decimal.Decimal(o)
        return self._cmp(o) <= 0

    def __gt__(self, o):
        if isinstance(o, float):
            o = decimal.Decimal(o)
        return self._cmp(o) > 0

    def __ge__(self, o):
        if isinstance(o, float):
            o = decimal.Decimal(o)
        return self._cmp(o) >= 0

    def __hash__(self):
        C().state['symhash'] = True
        return 0x53

    def __symtruth__(self):
        return self.coef != 0

    def __bool__(self):
        return decide(self.coef != 0)

    def __symint__(self):
        return trunc(self)

    def __trunc__(self):
        return trunc(self)

    def __floor__(self):
        t = trunc(self)
        return lin_add(t, -1) if decide(self < t) else t

    def __ceil__(self):
        t = trunc(self)
        return lin_add(t, 1) if decide(self > t) else t

    def __int__(self):
        return concretize_int(trunc(self))

    def __float__(self):
        return float(concretize_dec(self))

    def quantize(self, q, rounding=None, context=None):
        q = as_dec(q)
        rounding = rounding or decimal.getcontext().rounding
        e = q.exp
        r = round_exp(self, e, rounding)
        lo, hi = bounds(r)
        if max(abs(lo), abs(hi)) >= 10 ** _prec():
            if not decide(b_and([r < 10 ** _prec(), r > -10 ** _prec()])):
                raise decimal.InvalidOperation('quantize result has too many digits')
        return SymDecimal(r, e)

    def to_integral_value(self, rounding=None, context=None):
        if self.exp >= 0 and isinstance(self.den, int) and self.den == 1:
            return self
        return SymDecimal(round_exp(self, 0, rounding or decimal.getcontext().rounding), 0)

    to_integral = to_integral_value
    to_integral_exact = to_integral_value

    def normalize(self, context=None):
        r = SymDecimal(self.coef, self.exp, self.den)
        if isinstance(r.den, int) and r.den == 1:
            c, e = round_to_prec(self.coef, self.exp)
            r = SymDecimal(c, e)
        r.norm = True
        return r

    def scaleb(self, n, context=None):
        return SymDecimal(self.coef, self.exp + concretize_int(n), self.den)

    def is_signed(self):
        return self.coef < 0

    def is_finite(self):
        return True

    def is_nan(self):
        return False

    def is_infinite(self):
        return False

    def is_zero(self):
        return self.coef == 0

    def copy_abs(self):
        return abs(self)

    def compare(self, o):
        d = self._cmp(o)
        if decide(d == 0):
            return decimal.Decimal(0)
        return decimal.Decimal(1 if decide(d > 0) else -1)

    def __str__(self):
        return '<symdecimal>'

    __repr__ = __str__

    def __symstr__(self):
        return DecStr(self, 'str')

    def __symformat__(self, spec):
        if spec == 'f':
            return DecStr(self, 'f')
        if spec == '':
            return DecStr(self, 'str')
        import re
        m = re.fullmatch(r'\.(\d+)f', spec)
        if m:
            n = int(m.group(1))
            return DecStr(SymDecimal(round_exp(self, -n, decimal.ROUND_HALF_EVEN), -n), 'f')
        C().degrade('decimal format ' + spec)
        return format(concretize_dec(self), spec)

    def __symeval__(self, m):
        return eval_dec(m, self)

    def __getattr__(self, name):
        if name.startswith('__') or not hasattr(decimal.Decimal, name):
            raise AttributeError(name)

        def f(*a, **k):
            C().degrade('Decimal.%s' % name)
            return getattr(concretize_dec(self), name)(*a, **k)
        return f


class SymRatio(SymDecimal):
    """fractions.Fraction: like an exact quotient, but never rounded"""

    def __init__(self, coef, exp=0, den=1, cls=Fraction, norm=False):
        super().__init__(coef, exp, den, cls, norm)

    def _as(self, o):
        if isinstance(o, decimal.Decimal) or isinstance(o, SymDecimal) and not isinstance(o, SymRatio):
            return None
        return as_dec(o)

    def _new(self, coef, exp, den=1):
        return SymRatio(coef, exp, den)

    def __neg__(self):
        return SymRatio(lin_scale(self.coef, -1), self.exp, self.den)

    def _div(self, a, b):
        if decide(b.coef == 0):
            raise ZeroDivisionError('Fraction(1, 0)')
        r = dec_div(a, b, exact=True)
        return SymRatio(r.coef, r.exp, r.den)

    def __add__(self, o):
        o = self._as(o)
        if o is None:
            return NotImplemented
        a, b, e = self._align(o)
        if isinstance(self.den, int) and isinstance(o.den, int) and self.den == o.den:
            return SymRatio(lin_add(a, b), e, self.den)
        return SymRatio(lin_add(mul(a, o.den), mul(b, self.den)), e, mul(self.den, o.den))

    __radd__ = __add__

    def __truediv__(self, o):
        o = self._as(o)
        return NotImplemented if o is None else self._div(self, o)

    def __rtruediv__(self, o):
        o = self._as(o)
        return NotImplemented if o is None else self._div(o, self)

    def __floordiv__(self, o):
        o = self._as(o)
        return NotImplemented if o is None else self._div(self, o).__floor__()

    def __mod__(self, o):
        o = self._as(o)
        return NotImplemented if o is None else self - o * (self // o)

    def __symstr__(self):
        C().degrade('text of a fraction')
        return str(concretize_dec(self))

    def __symformat__(self, spec):
        C().degrade('text of a fraction')
        return format(concretize_dec(self), spec)

    @property
    def numerator(self):
        return concretize_dec(self).numerator

    @property
    def denominator(self):
        return concretize_dec(self).denominator

    def limit_denominator(self, n=1000000):
        return concretize_dec(self).limit_denominator(n)

    def __getattr__(self, name):
        raise AttributeError(name)


def m_fraction(a=0, b=None):
    if isinstance(a, SymFloat):
        raise EngineError('Fraction of a binary float')
    if isinstance(a, SymStrBase):
        a = dec_from_text(a, decimal.Decimal)
    x = as_dec(a)
    if x is None:
        raise TypeError('argument should be a string or a Rational instance')
    x = SymRatio(x.coef, x.exp, x.den)
    if b is None:
        return x
    return x / b


def eval_dec(m, x):
    c = eval_int(m, x.coef)
    d = eval_int(m, x.den)
    if isinstance(x, SymRatio):
        return Fraction(c) * Fraction(10) ** x.exp / d
    with decimal.localcontext() as ctx:
        ctx.prec = 60
        v = decimal.Decimal(c) * (decimal.Decimal(10) ** x.exp)
        if d != 1:
            v = v / d
    return v


def concretize_dec(x):
    if isinstance(x, (decimal.Decimal, Fraction)):
        return x
    c = C()
    c.degrade('concretised a symbolic Decimal')
    m = c.model()
    coef, den = eval_int(m, x.coef), eval_int(m, x.den)
    for s, v in ((x.coef, coef), (x.den, den)):
        e = s == v
        if isinstance(e, SymBool):
            c.assume(e.z())
            e.learn(True)
    if isinstance(x, SymRatio):
        return Fraction(coef) * Fraction(10) ** x.exp / den
    v = decimal.Decimal(coef).scaleb(x.exp)
    return v / den if den != 1 else v


def dec_div(a, b, exact=False):
    if decide(b.coef == 0):
        if decide(a.coef == 0):
            raise decimal.InvalidOperation('0/0')
        raise decimal.DivisionByZero('division by zero')
    # a.coef*10^a.exp/a.den / (b.coef*10^b.exp/b.den)
    num = mul(a.coef, b.den)
    den = mul(a.den, b.coef)
    exp = a.exp - b.exp
    if isinstance(den, int):
        if den < 0:
            num, den = (lin_scale(num, -1) if isinstance(num, SymInt) else -num), -den
        # power of ten (times 2^i 5^j): stays an exact decimal
        k = 0
        d = den
        while d % 10 == 0:
            d //= 10
            k += 1
        for f, g in ((2, 5), (5, 2)):
            while d % f == 0:
                d //= f
                num = mul(num, g)
                k += 1
        if d == 1 and not exact:
            c, e = round_to_prec(num, exp - k)
            return SymDecimal(c, e)
        return SymDecimal(num, exp - k, d)
    if decide(den < 0):
        num, den = lin_scale(num, -1) if isinstance(num, SymInt) else -num, lin_scale(den, -1)
    return SymDecimal(num, exp, den)


def _exact_ok(x, e):
    """rounding of the quotient to the context precision cannot move it across a multiple of 10**e."""
    if isinstance(x.den, int) and x.den == 1 or isinstance(x, SymRatio):
        return True
    lo, hi = bounds(x.coef)
    n = max(abs(lo), abs(hi), 1)
    dl, dh = bounds(x.den)
    # |q| * 10^(1-prec)  <  10^e / den   with q = n*10^exp/den >= distance 10^min(exp,e)/den
    # scaled: n * 10^(exp) * 10^(1-prec) < 10^e (conservative when exp <= e: distance is 10^exp/den)
    dist = Fraction(10) ** min(x.exp, e)
    return Fraction(n) * Fraction(10) ** x.exp * Fraction(10) ** (1 - _prec()) < dist


def round_exp(x, e, rounding):
    """integer r with r*10**e = x rounded."""
    if isinstance(x.den, int) and x.den == 1 and x.exp >= e:
        return mul(x.coef, 10 ** (x.exp - e))
    if not _exact_ok(x, e):
        C().degrade('quotient at precision limit (prec=%d)' % _prec())
        v = concretize_dec(x)
        q = v.quantize(decimal.Decimal(1).scaleb(e), rounding=rounding)
        return int(q.scaleb(-e))
    num = x.coef
    den = x.den
    if x.exp >= e:
        num = mul(num, 10 ** (x.exp - e))
    else:
        den = mul(den, 10 ** (e - x.exp))
    neg = decide(num < 0)
    a = -num if neg else num
    q = floordiv(a, den)
    r = lin_add(a, mul(q, den), -1)
    up = False
    if rounding in (decimal.ROUND_DOWN,):
        up = False
    elif rounding == decimal.ROUND_UP:
        up = decide(r > 0)
    elif rounding == decimal.ROUND_FLOOR:
        up = neg and decide(r > 0)
    elif rounding == decimal.ROUND_CEILING:
        up = (not neg) and decide(r > 0)
    else:
        d2 = lin_add(lin_scale(r, 2) if isinstance(r, SymInt) else 2 * r, den, -1)
        if decide(d2 > 0):
            up = True
        elif decide(d2 == 0):
            if rounding == decimal.ROUND_HALF_UP:
                up = True
            elif rounding == decimal.ROUND_HALF_DOWN:
                up = False
            else:
                up = decide(mod(q, 2) == 1)
    if up:
        q = lin_add(q, 1)
    return -q if neg else q


def trunc(x):
    return round_exp(x, 0, decimal.ROUND_DOWN)


class DecStr(SymStrBase):
    """Text of a symbolic decimal; style 'f' or 'str'."""

    def __init__(self, d, style):
        self.d, self.style = d, style

    __hash__ = SymStrBase.__hash__

    def __symtruth__(self):
        return True

    def _canon(self):
        """(neg, digits int, exp) after the trailing-zero policy; forks."""
        d = self.d
        if not (isinstance(d.den, int) and d.den == 1):
            v = concretize_dec(d)
            d = as_dec(v)
        c, e = d.coef, d.exp
        neg = decide(c < 0)
        a = -c if neg else c
        if d.norm:
            if decide(a == 0):
                return neg, 0, 0
            while decide(mod(a, 10) == 0):
                a = floordiv(a, 10)
                e += 1
        return neg, a, e

    def cps(self):
        neg, a, e = self._canon()
        n = 1
        while not decide(a < 10 ** n):
            n += 1
        digs = [lin_add(mod(floordiv(a, 10 ** i), 10), 48) for i in range(n - 1, -1, -1)]
        out = [45] if neg else []
        if self.style == 'f':
            if e >= 0:
                return out + digs + ([48] * e if not (isinstance(a, int) and a == 0) else [])
            k = -e
            if len(digs) <= k:
                digs = [48] * (k - len(digs) + 1) + digs
            return out + digs[:-k] + [46] + digs[-k:]
        # scientific string (decimal.__str__)
        adj = e + n - 1
        if e <= 0 and adj >= -6:
            k = -e
            if k == 0:
                return out + digs
            if len(digs) <= k:
                digs = [48] * (k - len(digs) + 1) + digs
            return out + digs[:-k] + [46] + digs[-k:]
        s = out + digs[:1]
        if n > 1:
            s += [46] + digs[1:]
        return s + [ord(ch) for ch in 'E%+d' % adj]

    def __symlen__(self):
        return len(self.cps())

    def __eq__(self, o):
        if isinstance(o, DecStr) and o.style == self.style and o.d is self.d:
            return True
        if isinstance(o, str):
            return mk_generic(self) == o
        if isinstance(o, SymStrBase):
            return mk_generic(self) == mk_generic(o)
        return False

    def __getitem__(self, i):
        return mk_generic(self)[i]

    def __symcontains__(self, x):
        g = mk_generic(self)
        return x in g if isinstance(g, str) else g.__symcontains__(x)

    def __symeval__(self, m):
        v = eval_dec(m, self.d)
        if self.d.norm:
            v = v.normalize()
        return format(v, 'f') if self.style == 'f' else str(v)


def dec_from_text(s, cls):
    if isinstance(s, DecStr):
        d = s.d
        if not (isinstance(d.den, int) and d.den == 1):
            # str() of the quotient rounds to the context precision; keep the exact quotient
            return SymDecimal(d.coef, d.exp, d.den, cls)
        return SymDecimal(d.coef, d.exp, 1, cls)
    if isinstance(s, NumStr):
        return SymDecimal(s.x, 0, 1, cls)
    if isinstance(s, (FmtStr, SymStr)) or isinstance(s, SymStrBase):
        cps = s.cps()
        # [sign] digits [. digits]
        neg = False
        i = 0
        if cps and decide(cps[0] == 45):
            neg, i = True, 1
        elif cps and decide(cps[0] == 43):
            i = 1
        v, k, seen, nd = 0, 0, False, 0
        for cp in cps[i:]:
            if not seen and decide(cp == 46):
                seen = True
                continue
            if not decide(b_and([cp >= 48, cp <= 57])):
                C().degrade('Decimal() of free-form text')
                from .seq import concretize
                return cls.__new__(cls, concretize(s)) if cls is decimal.Decimal else decimal.Decimal(concretize(s))
            v = lin_add(lin_add(cp, -48), v, 10)
            nd += 1
            if seen:
                k += 1
        if nd == 0:
            raise decimal.InvalidOperation('conversion syntax')
        return SymDecimal(lin_scale(v, -1) if neg and isinstance(v, SymInt) else (-v if neg else v), -k, 1, cls)
    return None


class SymFloat:
    """The float nearest to a decimal literal coef * 10**exp (as parsed from JSON). Only its text is encoded: for at
    most 15 significant digits (or 8 decimals below 2**25) repr() yields the literal's value back. Arithmetic on it is not
    encoded; the path is then abandoned and replayed concretely on many inputs."""
    __symvalue__ = True
    __symnum__ = True
    __pytype__ = float

    def __init__(self, d):
        self.d = d

    def __symstr__(self):
        return FloatStr(self.d, 'float')

    def __symrepr__(self):
        return FloatStr(self.d, 'float')

    def __symformat__(self, spec):
        if spec == '':
            return FloatStr(self.d, 'float')
        raise EngineError('float format ' + spec)

    def __symtruth__(self):
        return self.d.coef != 0

    def __symeval__(self, m):
        return float(eval_dec(m, self.d))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    __hash__ = object.__hash__


def _nofloat(name):
    def f(self, *a, **k):
        if name in ('__eq__', '__ne__') and (a[0] is None or isinstance(a[0], (str, bytes, list, dict))):
            return name == '__ne__'
        raise EngineError('float arithmetic ' + name)
    return f


for _n in ('add radd sub rsub mul rmul truediv rtruediv floordiv rfloordiv mod rmod pow rpow neg pos abs lt le gt ge eq ne '
           'int float trunc floor ceil round symint bool').split():
    setattr(SymFloat, '__%s__' % _n, _nofloat('__%s__' % _n))
SymFloat.__hash__ = object.__hash__
for _n in 'is_integer as_integer_ratio hex'.split():
    setattr(SymFloat, _n, _nofloat(_n))


class FloatStr(DecStr):
    """repr() of a SymFloat; the exact layout is not encoded, its value is"""

    def cps(self):
        raise EngineError('layout of float text')
