"""Symbolic values that the real code computes on."""
import datetime as _dt
from fractions import Fraction

from . import engine
from .engine import z3, Unsupported, current

US = 1
SEC = 10 ** 6
DAY = 86400 * SEC
EPOCH = _dt.datetime(1970, 1, 1, tzinfo=_dt.timezone.utc)
EPOCH_NAIVE = _dt.datetime(1970, 1, 1)
UTC = _dt.timezone.utc


# --------------------------------------------------------------------------
# booleans
# --------------------------------------------------------------------------

class SymBool:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return current().fork(self.e)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __and__(self, o):
        return mkbool(z3.And(self.e, boolexpr(o)))
    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.e, boolexpr(o)))
    __ror__ = __or__

    def __invert__(self):
        return mkbool(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(self.e == boolexpr(o))
        if isinstance(o, int):
            return bool(self) == o
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __str__(self):
        return str(bool(self))

    def __repr__(self):
        return 'SymBool(%s)' % self.e

    def __format__(self, spec):
        return format(bool(self), spec)


def mkbool(e):
    if isinstance(e, bool):
        return e
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def boolexpr(b):
    if type(b) is SymBool:
        return b.e
    if isinstance(b, bool):
        return z3.BoolVal(b)
    return z3.BoolVal(bool(b))


def sym_and(items):
    """Conjunction of bools / SymBools without forking."""
    es = []
    for b in items:
        if type(b) is SymBool:
            es.append(b.e)
        elif not b:
            return False
    if not es:
        return True
    return mkbool(z3.And(*es) if len(es) > 1 else es[0])


def sym_or(items):
    es = []
    for b in items:
        if type(b) is SymBool:
            es.append(b.e)
        elif b:
            return True
    if not es:
        return False
    return mkbool(z3.Or(*es) if len(es) > 1 else es[0])


def sym_not(b):
    if type(b) is SymBool:
        return mkbool(z3.Not(b.e))
    return not b


# --------------------------------------------------------------------------
# numbers
# --------------------------------------------------------------------------

def _isnum(o):
    return type(o) in (SymInt, SymRat) or (isinstance(o, (int, float, Fraction)) and type(o) is not SymBool)


def _realval(o):
    if type(o) is SymInt:
        return z3.ToReal(o.e)
    if type(o) is SymRat:
        return o.e
    if isinstance(o, bool):
        o = int(o)
    if isinstance(o, int):
        return z3.RealVal(o)
    f = Fraction(o)
    return z3.RealVal('%d/%d' % (f.numerator, f.denominator))


def _intval(o):
    if type(o) is SymInt:
        return o.e
    return z3.IntVal(int(o))


def mkint(e):
    if isinstance(e, int):
        return e
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def mkrat(e):
    e = z3.simplify(e)
    if z3.is_rational_value(e):
        f = Fraction(e.numerator_as_long(), e.denominator_as_long())
        if float(f) == f:
            return float(f)
    return SymRat(e)


def _frac(o):
    """(z3 Int numerator, positive int denominator) of an exact fraction, or None"""
    t = type(o)
    if t is SymInt:
        return o.e, 1
    if t is SymRat:
        return o.frac
    if isinstance(o, bool):
        o = int(o)
    if isinstance(o, int):
        return z3.IntVal(o), 1
    f = Fraction(o)
    return z3.IntVal(f.numerator), f.denominator


def _lcm_sum(a, b, sign):
    import math
    d = math.lcm(a[1], b[1])
    return a[0] * (d // a[1]) + b[0] * (sign * (d // b[1])), d


def mkfrac(num, den, dirty=False):
    """The float nearest to num/den (num a z3 Int). A float that is not dirty is the nearest one to a
    fraction with a small denominator, so comparing and truncating it is like doing so with the fraction."""
    num = z3.simplify(num)
    if z3.is_int_value(num):
        return float(Fraction(num.as_long(), den))
    return SymRat(z3.ToReal(num) / den, (num, den), dirty)


SMALL = 10 ** 12


def _exact(o):
    """(numerator, denominator, wide) of exactly the value of a number, or None; a wide one has a long mantissa"""
    t = type(o)
    if t is SymInt:
        return o.e, 1, False
    if t is SymRat:
        if o.frac is None:
            return None
        if not o.dirty and o.frac[1] & (o.frac[1] - 1) == 0:
            return o.frac + (o.frac[1] > 2 ** 20,)
        return o.double() + (True,)
    f = Fraction(int(o) if isinstance(o, bool) else o)
    return z3.IntVal(f.numerator), f.denominator, f.denominator > 2 ** 20


def _arith(a, b, fn):
    """the float that is the result of fn on the exact values, or None"""
    a, b = _exact(a), _exact(b)
    if a is None or b is None:
        return None
    num, den = fn(a, b)
    return mkfrac(num, den, den > SMALL if not (a[2] or b[2]) else True)


def _cmp_frac(o):
    """(numerator, denominator) to compare by, whether that is the value itself"""
    t = type(o)
    if t is SymRat:
        return (o.frac, not o.dirty and o.frac is not None)
    if t is float:
        f = Fraction(repr(o))
        if f.denominator <= SMALL:
            return (z3.IntVal(f.numerator), f.denominator), True
        return None, False
    return _frac(o), True


def _special(o):
    """inf / nan handling"""
    return type(o) is float and (o != o or o in (float('inf'), float('-inf')))


class _SymNum:
    __slots__ = ()

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def _cmp(self, o, op):
        if not _isnum(o):
            return NotImplemented
        if _special(o):
            if o != o:
                return op == 'ne'
            pos = o > 0
            return {'lt': pos, 'le': pos, 'gt': not pos, 'ge': not pos, 'eq': False, 'ne': True}[op]
        if type(self) is SymInt and (type(o) is SymInt or (isinstance(o, int))):
            a, b = self.e, _intval(o)
        else:
            (fa, ca), (fb, cb) = _cmp_frac(self), _cmp_frac(o)
            if not (ca and cb):
                fa, fb = _exact(self), _exact(o)
            if fa is not None and fb is not None:
                import math
                d = math.lcm(fa[1], fb[1])
                a, b = fa[0] * (d // fa[1]), fb[0] * (d // fb[1])
            else:
                a, b = _realval(self), _realval(o)
        return mkbool({'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b,
                       'eq': a == b, 'ne': a != b}[op])

    def __lt__(self, o): return self._cmp(o, 'lt')
    def __le__(self, o): return self._cmp(o, 'le')
    def __gt__(self, o): return self._cmp(o, 'gt')
    def __ge__(self, o): return self._cmp(o, 'ge')

    def __eq__(self, o):
        r = self._cmp(o, 'eq')
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, 'ne')
        return True if r is NotImplemented else r

    def __hash__(self):
        raise Unsupported('hash of a symbolic number')

    def __bool__(self):
        return bool(self._cmp(0, 'ne'))

    def __pos__(self):
        return self

    def __abs__(self):
        return self if bool(self >= 0) else -self

    def _both_int(self, o):
        return type(self) is SymInt and (type(o) is SymInt or isinstance(o, int))

    def __add__(self, o):
        if not _isnum(o):
            return NotImplemented
        if self._both_int(o):
            return mkint(self.e + _intval(o))
        r = _arith(self, o, lambda a, b: _lcm_sum(a, b, 1))
        if r is not None:
            return r
        return mkrat(_realval(self) + _realval(o))
    __radd__ = __add__

    def __sub__(self, o):
        if not _isnum(o):
            return NotImplemented
        if self._both_int(o):
            return mkint(self.e - _intval(o))
        r = _arith(self, o, lambda a, b: _lcm_sum(a, b, -1))
        if r is not None:
            return r
        return mkrat(_realval(self) - _realval(o))

    def __rsub__(self, o):
        if not _isnum(o):
            return NotImplemented
        if self._both_int(o):
            return mkint(_intval(o) - self.e)
        return (-self).__add__(o)

    def __mul__(self, o):
        if isinstance(o, (SymTimedelta, _dt.timedelta)):
            return SymTimedelta.of(o).__mul__(self)
        if isinstance(o, (str, list, tuple)) and type(self) is SymInt:
            return o * self.__index__()
        if not _isnum(o):
            return NotImplemented
        if self._both_int(o):
            return mkint(self.e * _intval(o))
        r = _arith(self, o, lambda a, b: (a[0] * b[0], a[1] * b[1]))
        if r is not None:
            return r
        return mkrat(_realval(self) * _realval(o))
    __rmul__ = __mul__

    def __neg__(self):
        if type(self) is SymInt:
            return mkint(-self.e)
        if self.frac is not None:
            return mkfrac(-self.frac[0], self.frac[1], self.dirty)
        return mkrat(-self.e)

    def __truediv__(self, o):
        if not _isnum(o):
            return NotImplemented
        if bool(o == 0):
            raise ZeroDivisionError('division by zero')
        if not is_sym(o):
            f = Fraction(o)
            sg = -1 if f < 0 else 1
            r = _arith(self, o, lambda a, b: (a[0] * (f.denominator * sg), a[1] * abs(f.numerator)))
            if r is not None:
                return r
        return mkrat(_realval(self) / _realval(o))

    def __rtruediv__(self, o):
        if not _isnum(o):
            return NotImplemented
        if bool(self == 0):
            raise ZeroDivisionError('division by zero')
        return mkrat(_realval(o) / _realval(self))

    def __floordiv__(self, o):
        if not _isnum(o):
            return NotImplemented
        if self._both_int(o):
            return _floordiv(self, o)
        if bool(o == 0):
            raise ZeroDivisionError('division by zero')
        if not is_sym(o) and not _special(o) and o > 0:
            a, f = _exact(self), Fraction(o)
            if a is not None:
                return mkfrac((a[0] * f.denominator) / z3.IntVal(a[1] * f.numerator), 1)
        return mkrat(z3.ToReal(z3.ToInt(_realval(self) / _realval(o))))

    def __rfloordiv__(self, o):
        if not _isnum(o):
            return NotImplemented
        if self._both_int(o):
            return _floordiv(o, self)
        return mkrat(z3.ToReal(z3.ToInt(_realval(o) / _realval(self))))

    def __mod__(self, o):
        if not _isnum(o):
            return NotImplemented
        if self._both_int(o):
            return _floormod(self, o)
        if not is_sym(o) and not _special(o) and o > 0:
            a, f = _exact(self), Fraction(o)
            if a is not None:
                n, d = f.numerator * a[1], f.denominator * a[1]     # the remainder of a float is exact
                return mkfrac((a[0] * f.denominator) % z3.IntVal(n), d)
        q = self.__floordiv__(o)
        return self - q * o

    def __rmod__(self, o):
        if not _isnum(o):
            return NotImplemented
        if self._both_int(o):
            return _floormod(o, self)
        raise Unsupported('float % symbolic')

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __str__(self):
        return _placeholder(self)

    def __repr__(self):
        return _placeholder(self)

    def __html__(self):
        return _placeholder(self)

    def __format__(self, spec):
        return _placeholder(sym_format(self, spec))


def _floordiv(a, b):
    if isinstance(b, int):
        if b == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if b > 0:
            return mkint(_intval(a) / z3.IntVal(b))
        return mkint((-_intval(a)) / z3.IntVal(-b))
    if bool(b == 0):
        raise ZeroDivisionError('integer division or modulo by zero')
    if bool(b > 0):
        return mkint(_intval(a) / b.e)
    return mkint((-_intval(a)) / (-b.e))


def _floormod(a, b):
    if isinstance(b, int):
        if b == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if b > 0:
            return mkint(_intval(a) % z3.IntVal(b))
        return mkint(-((-_intval(a)) % z3.IntVal(-b)))
    q = _floordiv(a, b)
    return a - q * b


class SymInt(_SymNum):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return int

    def __index__(self):
        p = current()
        for _ in range(80):
            v = engine._ev(p.get_model(), self.e)
            if p.fork(self.e == v):
                return v
        raise Unsupported('too many values to enumerate for an index')

    def __int__(self):
        return self.__index__()

    def __trunc__(self):
        return self

    def __round__(self, n=None):
        if n is None or n >= 0:
            return self
        raise Unsupported('round() to a negative digit count')

    def __floor__(self):
        return self
    __ceil__ = __floor__

    def __float__(self):
        raise Unsupported('float() of a symbolic int in C code')

    def is_integer(self):
        return True

    def bit_length(self):
        raise Unsupported('bit_length')


class SymRat(_SymNum):
    """A float: the nearest one to the fraction (numerator, denominator), or (without fraction, for quotients of
    two symbolic values) an exact real, stated as an assumption."""
    __slots__ = ('e', 'frac', 'dirty', '_dbl')

    def __init__(self, e, frac=None, dirty=False):
        self.e = e
        self.frac = frac
        self.dirty = dirty
        self._dbl = None

    def double(self):
        """(numerator, denominator) of the IEEE double nearest to the fraction, ties to even"""
        if self._dbl is None:
            self._dbl = self._round()
        return self._dbl

    def _round(self):
        p = current()
        num, den = self.frac
        if p.fork(num == 0):
            return z3.IntVal(0), 1
        neg = p.fork(num < 0)
        a = z3.simplify(-num) if neg else num
        for _ in range(120):
            v = engine._ev(p.get_model(), a)
            e = v.bit_length() - den.bit_length()
            if v * 2 ** max(-e, 0) < den * 2 ** max(e, 0):
                e -= 1
            lo, hi = max(-e, 0), max(e, 0)
            if p.fork(z3.And(a * 2 ** lo >= den * 2 ** hi, a * 2 ** lo < 2 * den * 2 ** hi)):
                break
        else:
            raise Unsupported('a float of too many magnitudes')
        sh = 52 - e
        import math
        if sh >= 0:
            g = math.gcd(2 ** sh, den)
            n, d = a * (2 ** sh // g), den // g
        else:
            n, d = a, den * 2 ** -sh
        if d == 1:
            m = n
        else:
            p.fresh += 1
            m, r = z3.Int('_m%d' % p.fresh), z3.Int('_r%d' % p.fresh)
            p.define(z3.And(n == m * d + r, 2 * r <= d, 2 * r >= -d,
                            z3.Or(z3.And(2 * r < d, 2 * r > -d), m % 2 == 0)))
        if neg:
            m = -m
        return (z3.simplify(m * 2 ** -sh), 1) if sh <= 0 else (m, 2 ** sh)

    def settle(self):
        """this float with an exact value, or itself when its fraction is as good"""
        if self.frac is None or not self.dirty:
            return self
        num, den = self.double()
        return SymRat(z3.ToReal(num) / den, (num, den))

    def to_text(self):
        """repr of the float: exact for values with few significant digits"""
        if self.frac is None:
            raise Unsupported('text of a general real')
        if self.dirty:
            raise Unsupported('text of a float that is the result of rounding twice')
        num, den = self.frac
        neg = decide(num < 0)
        a = z3.simplify(-num if neg else num)
        if not decide(a < den * 10 ** 9):
            raise Unsupported('text of a float above 1e9')
        for k in range(1, 7):
            if decide(z3.simplify((a * 10 ** k) % den == 0)):
                break
        else:
            raise Unsupported('text of a float with more than 6 decimals')
        if k > 4 and not decide(z3.Or(a == 0, a * 10000 >= den)):
            raise Unsupported('text of a float in exponent notation')
        ip = z3.simplify(a / den)
        fp = z3.simplify(((a * 10 ** k) / den) % (10 ** k))
        return mkstr(['-' if neg else '', IntSeg(ip), '.', IntSeg(fp, k)])

    @property
    def __class__(self):
        return float

    def _fl(self, neg=False):
        if self.frac is not None:
            n, d = self.settle().frac
            return (-n if neg else n) / z3.IntVal(d)
        return z3.ToInt(-self.e if neg else self.e)

    def trunc(self):
        if bool(self >= 0):
            return mkint(self._fl())
        return -mkint(self._fl(True))

    __trunc__ = trunc

    def __floor__(self):
        return mkint(self._fl())

    def __ceil__(self):
        return -mkint(self._fl(True))

    def __int__(self):
        v = self.trunc()
        return v if isinstance(v, int) and type(v) is int else v.__index__()

    def __float__(self):
        raise Unsupported('float() of a symbolic float in C code')

    def is_integer(self):
        if self.frac is not None:
            num, den = self.settle().frac
            return mkbool(num % den == 0)
        return mkbool(z3.IsInt(self.e))

    def __round__(self, n=None):
        if n:
            k = 10 ** n
            if self.frac is None:
                return (self * k).__round__() / k
            # correctly rounded from the exact value
            num, den = self.double() if self.dirty or self.frac[1] & (self.frac[1] - 1) else self.frac
            r = SymRat(z3.ToReal(num * k) / den, (z3.simplify(num * k), den)).__round__()
            return mkfrac(_intval(r), k) if k >= 1 else r
        # banker's rounding
        if self.frac is not None:
            num, den = self.settle().frac
            f = num / z3.IntVal(den)
            d2 = 2 * (num - f * den)
            return mkint(z3.If(d2 < den, f, z3.If(d2 > den, f + 1, z3.If(f % 2 == 0, f, f + 1))))
        f = z3.ToInt(self.e)
        d = self.e - z3.ToReal(f)
        half = z3.RealVal('1/2')
        r = z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1)))
        return mkint(r)


# --------------------------------------------------------------------------
# strings
# --------------------------------------------------------------------------

PH0, PH1, PHE = '\ue000', '\ue001', '\ue002'


def _placeholder(v, escaped=False):
    p = current()
    p.placeholders.append(v)
    return '%s%d%s' % (PHE if escaped else PH0, len(p.placeholders) - 1, PH1)


def _with_breaks(v):
    """Text in a document that can have line breaks: where white space is is decided, as the document is text to the code."""
    chars = v.mat()
    ranges = current().ranges
    open_ = [not isinstance(c, str) and ranges.get(c.get_id(), (0, 10))[0] <= 10 for c in chars]
    if not any(open_):
        return None
    out, run = [], []
    for c, o in zip(chars, open_):
        w = (c if isinstance(c, str) and c in '\n\t ' else
             next((w for w in '\n\t ' if decide(char_eq(c, w))), None) if o else None)
        if w is None:
            run.append(c)
            continue
        if run:
            out.append(_placeholder(from_chars(run), escaped=True))
            run = []
        out.append(w)
    if run:
        out.append(_placeholder(from_chars(run), escaped=True))
    return ''.join(out)


def has_placeholder(s):
    return PH1 in s


def lift(s, seen_raw=None):
    """Turn a native str with placeholders back into the symbolic value."""
    if type(s) is not str or PH1 not in s:
        return s
    p = current()
    segs = []
    i = 0
    while i < len(s):
        c = s[i]
        if c in (PH0, PHE):
            j = s.index(PH1, i)
            v = p.placeholders[int(s[i + 1:j])]
            if seen_raw is not None and c == PH0:
                seen_raw.append(v)
            segs.extend(to_segs(v))
            i = j + 1
        else:
            j = i
            while j < len(s) and s[j] not in (PH0, PHE):
                j += 1
            segs.append(s[i:j])
            i = j
    return mkstr(segs)


class IntSeg:
    """Decimal rendering of an int, zero padded to `width`."""
    __slots__ = ('e', 'width', '_chars')

    def __init__(self, e, width=0):
        self.e = e
        self.width = width
        self._chars = None

    def chars(self):
        if self._chars is None:
            p = current()
            x = self.e
            out = []
            width = self.width
            if p.fork(x < 0):
                out.append('-')
                x = z3.simplify(-x)
                width -= 1
            w = max(1, width)
            while not p.fork(x < 10 ** w):
                w += 1
                if w > 25:
                    raise Unsupported('integer rendering longer than 25 digits')
            for k in range(w):
                d = x if w == 1 else (x / (10 ** (w - 1 - k))) % 10
                c = z3.simplify(d + 48)
                p.keep.append(c)
                if z3.is_int_value(c):
                    out.append(chr(c.as_long()))
                    continue
                p.ranges[c.get_id()] = (48, 57)
                p.prov[c.get_id()] = (x, w, k)
                out.append(c)
            self._chars = out
        return self._chars


class LazySeg:
    """str(v) of a value whose text is only computed when looked at."""
    __slots__ = ('v', 'fn', '_chars')

    def __init__(self, v, fn=None):
        self.v = v
        self.fn = fn
        self._chars = None

    def chars(self):
        if self._chars is None:
            if self.fn is None:
                raise Unsupported('text of a %s used as data' % type(self.v).__name__)
            self._chars = chars_of(self.fn())
        return self._chars


def to_segs(v):
    t = type(v)
    if t is str:
        return [lift(v)] if PH1 not in v else list(lift(v).segs)
    if t is SymStr:
        return list(v.segs)
    if t is SymInt:
        return [IntSeg(v.e)]
    if t is SymRat:
        return [LazySeg(v, v.to_text)]
    if t is SymBool:
        return [LazySeg(v, lambda: str(bool(v)))]
    if t is SymTimedelta or t is SymDatetime:
        return [LazySeg(v, v.to_text)]
    s = str(v)
    if PH1 in s:
        return [LazySeg(v)]
    return [s]


def mkstr(segs):
    out = []
    for s in segs:
        if isinstance(s, str):
            if not s:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += s
                continue
        elif isinstance(s, tuple) and not s:
            continue
        out.append(s)
    if not out:
        return ''
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return SymStr(tuple(out))


def from_chars(chars):
    segs = []
    run = []
    for c in chars:
        if isinstance(c, str):
            if run:
                segs.append(tuple(run))
                run = []
            segs.append(c)
        else:
            run.append(c)
    if run:
        segs.append(tuple(run))
    return mkstr(segs)


def char_range(c):
    return current().ranges.get(c.get_id())


def _rng(c):
    return (ord(c), ord(c)) if isinstance(c, str) else char_range(c)


def char_eq(a, b):
    """bool or z3 expr"""
    if isinstance(a, str):
        if isinstance(b, str):
            return a == b
        a, b = b, a
    if isinstance(b, str):
        o = ord(b)
        r = char_range(a)
        if r and not (r[0] <= o <= r[1]):
            return False
        return a == o
    if a.get_id() == b.get_id():
        return True
    ra, rb = char_range(a), char_range(b)
    if ra and rb and (ra[1] < rb[0] or rb[1] < ra[0]):
        return False
    return a == b


def char_in(c, ranges):
    """Is c in a union of inclusive code point ranges: bool or z3 expr."""
    if isinstance(c, str):
        o = ord(c)
        return any(lo <= o <= hi for lo, hi in ranges)
    r = char_range(c)
    es = []
    for lo, hi in ranges:
        if r:
            if r[0] >= lo and r[1] <= hi:
                return True
            if r[1] < lo or r[0] > hi:
                continue
        es.append(z3.And(c >= lo, c <= hi) if lo != hi else c == lo)
    if not es:
        return False
    return z3.Or(*es) if len(es) > 1 else es[0]


def decide(b):
    """bool or z3 expr -> python bool (forks)"""
    return b if isinstance(b, bool) else current().fork(b)


class SymStr:
    __slots__ = ('segs', '_mat')

    def __init__(self, segs):
        self.segs = segs
        self._mat = None

    @property
    def __class__(self):
        return str

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def mat(self):
        if self._mat is None:
            out = []
            for s in self.segs:
                if isinstance(s, str):
                    out.extend(s)
                elif isinstance(s, tuple):
                    out.extend(s)
                else:
                    out.extend(s.chars())
            self._mat = out
        return self._mat

    def eval(self, model):
        out = []
        for s in self.segs:
            if isinstance(s, str):
                out.append(s)
            elif isinstance(s, IntSeg):
                v = engine._ev(model, s.e)
                out.append('%0*d' % (s.width, v) if s.width else str(v))
            elif isinstance(s, LazySeg):
                out.append(str(concretise(s.v, model)))
            else:
                out.extend(chr(engine._ev(model, c)) for c in s)
        return ''.join(out)

    def to_text(self):
        return self

    # -- basic protocol
    def __hash__(self):
        raise Unsupported('hash of a symbolic string')

    def __bool__(self):
        return True     # mkstr never builds an empty SymStr

    def __len__(self):
        return len(self.mat())

    def __str__(self):
        return _placeholder(self)

    def __repr__(self):
        return _placeholder(self)

    def __html__(self):
        return _with_breaks(self) or _placeholder(self, escaped=True)

    def __format__(self, spec):
        return _placeholder(sym_format(self, spec))

    def __iter__(self):
        for c in self.mat():
            yield from_chars([c])

    def __getitem__(self, i):
        m = self.mat()
        if isinstance(i, slice):
            i = slice(*[x.__index__() if type(x) is SymInt else x for x in (i.start, i.stop, i.step)])
            return from_chars(m[i])
        return from_chars([m[i]])

    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mkstr(list(self.segs) + to_segs(o))

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mkstr(to_segs(o) + list(self.segs))

    def __mul__(self, n):
        return mkstr(list(self.segs) * int(n))
    __rmul__ = __mul__

    def __mod__(self, args):
        raise Unsupported('symbolic format string')

    # -- comparison
    def eq_expr(self, o):
        """bool or z3 expr"""
        if o is self:
            return True
        if type(o) is str:
            if PH1 in o:
                o = lift(o)
                if type(o) is str:
                    return self.eq_expr(o)
        elif type(o) is not SymStr:
            return False
        osegs = (o,) if type(o) is str else o.segs
        fast = _fast_eq(self.segs, osegs)
        if fast is not None:
            return fast
        a = self.mat()
        b = list(o) if type(o) is str else o.mat()
        if len(a) != len(b):
            return False
        es = []
        for x, y in zip(a, b):
            e = char_eq(x, y)
            if e is False:
                return False
            if e is not True:
                es.append(e)
        if not es:
            return True
        return z3.And(*es) if len(es) > 1 else es[0]

    def __eq__(self, o):
        if not isinstance(o, str):
            return False
        return mkbool(self.eq_expr(o))

    def __ne__(self, o):
        r = self.__eq__(o)
        return sym_not(r)

    def _lt(self, o, strict):
        a = self.mat()
        b = chars_of(o)
        n = min(len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            rx, ry = _rng(x), _rng(y)
            if rx and ry:
                if rx[1] < ry[0]:
                    return True
                if rx[0] > ry[1]:
                    return False
            if i == n - 1:
                # the last position: one comparison settles it
                eq_ok = len(a) < len(b) if strict else len(a) <= len(b)
                xe = z3.IntVal(ord(x)) if isinstance(x, str) else x
                ye = z3.IntVal(ord(y)) if isinstance(y, str) else y
                if rx and ry and rx[1] == ry[0] and eq_ok:
                    return True
                if rx and ry and rx[0] == ry[1] and not eq_ok:
                    return False
                return decide(z3.simplify(xe <= ye if eq_ok else xe < ye))
            if decide(char_eq(x, y)):
                continue
            xe = ord(x) if isinstance(x, str) else x
            ye = ord(y) if isinstance(y, str) else y
            return decide(xe < ye)
        return len(a) < len(b) if strict else len(a) <= len(b)

    def __lt__(self, o):
        return self._lt(o, True) if isinstance(o, str) else NotImplemented

    def __le__(self, o):
        return self._lt(o, False) if isinstance(o, str) else NotImplemented

    def __gt__(self, o):
        return (not self._lt(o, False)) if isinstance(o, str) else NotImplemented

    def __ge__(self, o):
        return (not self._lt(o, True)) if isinstance(o, str) else NotImplemented

    def __contains__(self, o):
        return self.find(o) >= 0

    # -- methods
    def _at(self, i, sub):
        m = self.mat()
        es = []
        for k, y in enumerate(sub):
            e = char_eq(m[i + k], y)
            if e is False:
                return False
            if e is not True:
                es.append(e)
        if not es:
            return True
        return z3.And(*es) if len(es) > 1 else es[0]

    def find(self, sub, start=0, end=None):
        if not isinstance(sub, str):
            raise TypeError('must be str, not %s' % type(sub).__name__)
        sub = chars_of(sub)
        n = len(self.mat())
        end = n if end is None else min(end, n)
        for i in range(start, end - len(sub) + 1):
            if decide(self._at(i, sub)):
                return i
        return -1

    def rfind(self, sub):
        sub = chars_of(sub)
        for i in range(len(self.mat()) - len(sub), -1, -1):
            if decide(self._at(i, sub)):
                return i
        return -1

    def index(self, sub, start=0):
        i = self.find(sub, start)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def count(self, sub):
        n, i = 0, 0
        sub_l = len(sub)
        while True:
            i = self.find(sub, i)
            if i < 0:
                return n
            n += 1
            i += sub_l

    def startswith(self, prefix, start=0):
        if isinstance(prefix, tuple):
            return any(self.startswith(x, start) for x in prefix)
        # cheap answer from the rope
        if start == 0 and type(prefix) is str and isinstance(self.segs[0], str):
            s0 = self.segs[0]
            if len(s0) >= len(prefix):
                return s0.startswith(prefix)
        sub = chars_of(prefix)
        if len(self.mat()) - start < len(sub):
            return False
        return decide(self._at(start, sub))

    def endswith(self, suffix):
        if isinstance(suffix, tuple):
            return any(self.endswith(x) for x in suffix)
        sub = chars_of(suffix)
        n = len(self.mat())
        if n < len(sub):
            return False
        return decide(self._at(n - len(sub), sub))

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            out, cur = [], []
            for c in self.mat():
                if decide(char_in(c, SPACE)):
                    if cur:
                        out.append(from_chars(cur))
                        cur = []
                else:
                    cur.append(c)
            if cur:
                out.append(from_chars(cur))
            return out
        out, i, n = [], 0, 0
        m = self.mat()
        k = len(sep)
        while maxsplit < 0 or n < maxsplit:
            j = self.find(sep, i)
            if j < 0:
                break
            out.append(from_chars(m[i:j]))
            i = j + k
            n += 1
        out.append(from_chars(m[i:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is not None and maxsplit == 1:
            j = self.rfind(sep)
            if j < 0:
                return [self]
            m = self.mat()
            return [from_chars(m[:j]), from_chars(m[j + len(sep):])]
        if maxsplit < 0:
            return self.split(sep)
        raise Unsupported('rsplit')

    def partition(self, sep):
        j = self.find(sep)
        if j < 0:
            return self, '', ''
        m = self.mat()
        return from_chars(m[:j]), sep, from_chars(m[j + len(sep):])

    def rpartition(self, sep):
        j = self.rfind(sep)
        if j < 0:
            return '', '', self
        m = self.mat()
        return from_chars(m[:j]), sep, from_chars(m[j + len(sep):])

    def splitlines(self, keepends=False):
        raise Unsupported('splitlines of a symbolic string')

    def replace(self, old, new, count=-1):
        m = self.mat()
        out, i, n = [], 0, 0
        k = len(old)
        if k == 0:
            raise Unsupported('replace of an empty string')
        oldc = chars_of(old)
        while i < len(m):
            if (count < 0 or n < count) and i + k <= len(m) and decide(self._at(i, oldc)):
                out.extend(chars_of(new))
                i += k
                n += 1
            else:
                out.append(m[i])
                i += 1
        return from_chars(out)

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:len(self) - len(p)] if p and self.endswith(p) else self

    def _strip(self, chars, left, right):
        rng = SPACE if chars is None else [(ord(c), ord(c)) for c in chars]
        # fast path: a rope whose ends are definitely not stripped
        m = self.mat()
        i, j = 0, len(m)
        while left and i < j and decide(char_in(m[i], rng)):
            i += 1
        while right and j > i and decide(char_in(m[j - 1], rng)):
            j -= 1
        if i == 0 and j == len(m):
            return self
        return from_chars(m[i:j])

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def _map(self, fn_c, fn_e, rng):
        out = []
        p = current()
        for c in self.mat():
            if isinstance(c, str):
                out.append(fn_c(c))
            else:
                r = char_range(c)
                if r and r[1] > 127:
                    raise Unsupported('case mapping of non-ASCII symbolic text')
                if r and (r[1] < rng[0] or r[0] > rng[1]):
                    out.append(c)
                    continue
                e = z3.simplify(fn_e(c))
                p.keep.append(e)
                if r:
                    p.ranges[e.get_id()] = (min(r[0], 65), max(r[1], 122))
                out.append(e)
        return from_chars(out)

    def lower(self):
        return self._map(str.lower, lambda c: z3.If(z3.And(c >= 65, c <= 90), c + 32, c), (65, 90))

    def upper(self):
        return self._map(str.upper, lambda c: z3.If(z3.And(c >= 97, c <= 122), c - 32, c), (97, 122))

    casefold = lower

    def title(self):
        raise Unsupported('title')

    def capitalize(self):
        m = self.mat()
        return from_chars(chars_of(from_chars(m[:1]).upper()) + chars_of(from_chars(m[1:]).lower())) \
            if isinstance(m[0], str) and all(isinstance(c, str) for c in m) else self._capitalize()

    def _capitalize(self):
        m = self.mat()
        first = from_chars(m[:1]).upper()
        rest = from_chars(m[1:])
        return mkstr(to_segs(first) + to_segs(rest.lower() if len(m) > 1 else ''))

    def _all(self, rng):
        return all(decide(char_in(c, rng)) for c in self.mat())

    def isdigit(self):
        return self._all([(48, 57)])
    isdecimal = isdigit
    isnumeric = isdigit

    def isalpha(self):
        return self._all([(65, 90), (97, 122)])

    def isalnum(self):
        return self._all([(48, 57), (65, 90), (97, 122)])

    def isspace(self):
        return self._all(SPACE)

    def islower(self):
        cased = False
        for c in self.mat():
            if decide(char_in(c, [(65, 90)])):
                return False
            if not cased and decide(char_in(c, [(97, 122)])):
                cased = True
        return cased

    def isupper(self):
        cased = False
        for c in self.mat():
            if decide(char_in(c, [(97, 122)])):
                return False
            if not cased and decide(char_in(c, [(65, 90)])):
                cased = True
        return cased

    def isidentifier(self):
        raise Unsupported('isidentifier')

    def encode(self, enc='utf-8', errors='strict'):
        return SymBytes(self)

    def join(self, items):
        out = []
        for i, it in enumerate(items):
            if i:
                out.extend(self.segs)
            out.extend(to_segs(it))
        return mkstr(out)

    def zfill(self, width):
        m = self.mat()
        if len(m) >= width:
            return self
        pad = width - len(m)
        if decide(char_in(m[0], [(43, 43), (45, 45)])):
            return from_chars([m[0]] + ['0'] * pad + m[1:])
        return from_chars(['0'] * pad + m)

    def ljust(self, width, fill=' '):
        m = self.mat()
        return from_chars(m + [fill] * max(0, width - len(m)))

    def rjust(self, width, fill=' '):
        m = self.mat()
        return from_chars([fill] * max(0, width - len(m)) + m)

    def center(self, width, fill=' '):
        m = self.mat()
        pad = max(0, width - len(m))
        left = pad // 2 + (pad & width & 1)
        return from_chars([fill] * left + m + [fill] * (pad - left))

    def format(self, *a, **k):
        raise Unsupported('symbolic format string')


class SymBytes:
    """utf-8 encoding of a symbolic string (opaque except for decode)."""
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s

    @property
    def __class__(self):
        return bytes

    def decode(self, enc='utf-8', errors='strict'):
        return self.s

    def __len__(self):
        return len(self.s)

    def __eq__(self, o):
        if type(o) is SymBytes:
            return self.s == o.s
        if isinstance(o, bytes):
            return self.s == o.decode('utf-8', 'surrogateescape')
        return False

    def __hash__(self):
        raise Unsupported('hash of symbolic bytes')

    def __deepcopy__(self, memo):
        return self


SPACE = [(9, 13), (28, 32), (0x85, 0x85), (0xa0, 0xa0)]


def _fast_eq(a, b):
    """Equality of two ropes when they align segment by segment."""
    if len(a) != len(b):
        return None
    es = []
    for i, (x, y) in enumerate(zip(a, b)):
        if x is y:
            continue
        if isinstance(x, str) and isinstance(y, str):
            if x != y:
                return None
            continue
        if isinstance(x, IntSeg) and isinstance(y, IntSeg) and x.width == y.width:
            nxt = a[i + 1] if i + 1 < len(a) else 'x'
            prv = a[i - 1] if i else 'x'
            if not (isinstance(nxt, str) and not nxt[0].isdigit() and isinstance(prv, str)):
                return None
            if prv[-1] == '-' or prv[-1].isdigit():
                return None
            es.append(x.e == y.e)
            continue
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y) \
                and all(c.get_id() == d.get_id() for c, d in zip(x, y)):
            continue
        return None
    if not es:
        return True
    return z3.And(*es) if len(es) > 1 else es[0]


def chars_of(s):
    if type(s) is SymStr:
        return s.mat()
    if PH1 in s:
        s = lift(s)
        return s.mat() if type(s) is SymStr else list(s)
    return list(s)


def is_sym(v):
    return type(v) in (SymStr, SymInt, SymRat, SymDatetime, SymTimedelta, SymBool, SymBytes)


def deep_sym(v):
    if is_sym(v):
        return True
    t = type(v)
    if t in (tuple, list, frozenset):
        return any(deep_sym(x) for x in v)
    if t is str:
        return PH1 in v
    return False


def sym_format(v, spec):
    """format(v, spec) for the format specs that occur in practice."""
    if type(spec) is SymStr:
        raise Unsupported('symbolic format spec')
    t = type(v)
    if t is SymDatetime:
        return v.strftime(spec) if spec else mkstr(to_segs(v))
    if not spec or spec in ('s', 'd'):
        return mkstr(to_segs(v))
    if t is SymInt:
        s = spec[:-1] if spec.endswith('d') else spec
        if s.isdigit() and s.startswith('0'):
            return mkstr([IntSeg(v.e, int(s))])
    if t is SymStr:
        import re
        m = re.fullmatch(r'([<>]?)(\d+)s?', spec)
        if m:
            return v.rjust(int(m[2])) if m[1] == '>' else v.ljust(int(m[2]))
    raise Unsupported('format spec %r' % (spec,))


def sym_int(x=0, base=10):
    """int(x) for symbolic x."""
    t = type(x)
    if t is SymInt:
        return x
    if t is SymRat:
        return x.trunc()
    if t is SymBool:
        return int(bool(x))
    if t is str:
        x = lift(x)
        if type(x) is str:
            return int(x)
    x = x.strip()
    if type(x) is str:
        return int(x)
    if len(x.segs) == 1 and isinstance(x.segs[0], IntSeg):
        return mkint(x.segs[0].e)
    m = list(x.mat())
    text = x
    sign = 1
    if decide(char_in(m[0], [(43, 43), (45, 45)])):
        if decide(char_eq(m[0], '-')):
            sign = -1
        m = m[1:]
    if not m:
        raise ValueError("invalid literal for int() with base 10: %s" % text)
    # underscores between digits are legal
    mm = []
    prev_digit = False
    for i, c in enumerate(m):
        if decide(char_in(c, [(48, 57)])):
            mm.append(c)
            prev_digit = True
        elif prev_digit and i + 1 < len(m) and decide(char_eq(c, '_')):
            prev_digit = False
        else:
            raise ValueError("invalid literal for int() with base 10: %s" % text)
    v = digits_value(mm)
    return v if sign == 1 else -v


def digits_value(m):
    p = current()
    # provenance: exactly the digits of one integer
    first = None if isinstance(m[0], str) else p.prov.get(m[0].get_id())
    if first is not None and first[1] == len(m) and first[2] == 0:
        ok = True
        for k, c in enumerate(m):
            pr = None if isinstance(c, str) else p.prov.get(c.get_id())
            if pr is None or pr[0].get_id() != first[0].get_id() or pr[1] != len(m) or pr[2] != k:
                ok = False
                break
        if ok:
            return mkint(first[0])
    e = z3.IntVal(0)
    for c in m:
        d = z3.IntVal(ord(c) - 48) if isinstance(c, str) else c - 48
        e = e * 10 + d
    return mkint(e)


def sym_float(x=0.0):
    t = type(x)
    if t is SymInt:
        return mkfrac(x.e, 1)
    if t is SymRat:
        return x
    if t is SymBool:
        return float(bool(x))
    if t is str:
        x = lift(x)
        if type(x) is str:
            return float(x)
    x = x.strip()
    if type(x) is str:
        return float(x)
    if len(x.segs) == 1 and isinstance(x.segs[0], IntSeg):
        return mkfrac(x.segs[0].e, 1)
    if len(x.segs) == 1 and isinstance(x.segs[0], LazySeg) and type(x.segs[0].v) is SymRat:
        return x.segs[0].v
    m = list(x.mat())
    sign = 1
    if decide(char_in(m[0], [(43, 43), (45, 45)])):
        if decide(char_eq(m[0], '-')):
            sign = -1
        m = m[1:]
    ip, fp, seen = [], [], False
    for c in m:
        if decide(char_in(c, [(48, 57)])):
            (fp if seen else ip).append(c)
        elif not seen and decide(char_eq(c, '.')):
            seen = True
        elif decide(char_in(c, [(69, 69), (101, 101), (95, 95)])):
            raise Unsupported('float() of exponent notation')
        else:
            if not all(isinstance(c, str) for c in m):
                for a in ('inf', 'nan'):
                    if len(m) >= 3 and from_chars(m).lower() == a:
                        raise Unsupported('float() of %s' % a)
            raise ValueError('could not convert string to float: %s' % x)
    if not ip and not fp:
        raise ValueError('could not convert string to float: %s' % x)
    v = digits_value(ip) if ip else 0
    if fp:
        num = digits_value(ip + fp)
        r = mkfrac(_intval(num), 10 ** len(fp))
    else:
        r = mkfrac(_intval(v), 1)
    return r if sign == 1 else -r


# --------------------------------------------------------------------------
# time
# --------------------------------------------------------------------------

def td_us(td):
    return (td.days * 86400 + td.seconds) * SEC + td.microseconds


def us_td(us):
    return _dt.timedelta(microseconds=us)


TD_LIMIT = 999999999 * DAY


class SymTimedelta:
    __slots__ = ('us',)

    def __init__(self, us):
        self.us = us        # z3 Int expr

    @property
    def __class__(self):
        return _dt.timedelta

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    @staticmethod
    def mk(us):
        if isinstance(us, int):
            return us_td(us)
        us = z3.simplify(us)
        if z3.is_int_value(us):
            return us_td(us.as_long())
        return SymTimedelta(us)

    @staticmethod
    def of(td):
        if type(td) is SymTimedelta:
            return td
        return SymTimedelta(z3.IntVal(td_us(td)))

    @property
    def days(self):
        return mkint(self.us / DAY)

    @property
    def seconds(self):
        return mkint((self.us % DAY) / SEC)

    @property
    def microseconds(self):
        return mkint(self.us % SEC)

    def total_seconds(self):
        return mkfrac(self.us, SEC)

    def _o(self, o):
        if type(o) is SymTimedelta:
            return o.us
        if isinstance(o, _dt.timedelta) and not is_sym(o):
            return z3.IntVal(td_us(o))
        return None

    def _cmp(self, o, f):
        e = self._o(o)
        if e is None:
            return NotImplemented
        return mkbool(f(self.us, e))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return sym_not(self.__eq__(o))

    def __hash__(self):
        raise Unsupported('hash of a symbolic timedelta')

    def __bool__(self):
        return bool(mkbool(self.us != 0))

    def __add__(self, o):
        e = self._o(o)
        if e is not None:
            return SymTimedelta.mk(self.us + e)
        if isinstance(o, _dt.datetime) and type(o) is not SymDatetime:
            return SymDatetime.of(o) + self
        return NotImplemented
    __radd__ = __add__

    def __sub__(self, o):
        e = self._o(o)
        if e is None:
            return NotImplemented
        return SymTimedelta.mk(self.us - e)

    def __rsub__(self, o):
        e = self._o(o)
        if e is not None:
            return SymTimedelta.mk(e - self.us)
        if isinstance(o, _dt.datetime) and type(o) is not SymDatetime:
            return SymDatetime.of(o) - self
        return NotImplemented

    def __neg__(self):
        return SymTimedelta.mk(-self.us)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if bool(mkbool(self.us >= 0)) else -self

    def __mul__(self, o):
        if type(o) is SymInt or (isinstance(o, int) and not is_sym(o)):
            return SymTimedelta.mk(self.us * _intval(o))
        if type(o) is float:
            n, d = o.as_integer_ratio()
            return SymTimedelta.mk(_intval(mkfrac(self.us * n, d).__round__()))
        if not isinstance(o, (int, float)):
            return NotImplemented
        raise Unsupported('timedelta * symbolic float')
    __rmul__ = __mul__

    def __truediv__(self, o):
        e = self._o(o)
        if e is not None:
            if bool(mkbool(e == 0)):
                raise ZeroDivisionError('division by zero')
            return mkrat(z3.ToReal(self.us) / z3.ToReal(e))
        if isinstance(o, int):
            if bool(o == 0):
                raise ZeroDivisionError('division by zero')
            r = SymRat(z3.ToReal(self.us) / _realval(o)).__round__()
            return SymTimedelta.mk(_intval(r))
        if type(o) is float:
            n, d = o.as_integer_ratio()
            if n < 0:
                n, d = -n, -d
            return SymTimedelta.mk(_intval(mkfrac(self.us * d, n).__round__()))
        if not isinstance(o, (int, float)):
            return NotImplemented
        raise Unsupported('timedelta / symbolic float')

    def __rtruediv__(self, o):
        e = self._o(o)
        if e is None:
            return NotImplemented
        if bool(mkbool(self.us == 0)):
            raise ZeroDivisionError('division by zero')
        return mkrat(z3.ToReal(e) / z3.ToReal(self.us))

    def __floordiv__(self, o):
        e = self._o(o)
        if e is not None:
            return _floordiv(mkint(self.us), mkint(e))
        if isinstance(o, int):
            r = _floordiv(mkint(self.us), o)
            return SymTimedelta.mk(_intval(r))
        return NotImplemented

    def __rfloordiv__(self, o):
        e = self._o(o)
        if e is None:
            return NotImplemented
        return _floordiv(mkint(e), mkint(self.us))

    def __mod__(self, o):
        e = self._o(o)
        if e is None:
            return NotImplemented
        r = _floormod(mkint(self.us), mkint(e))
        return SymTimedelta.mk(_intval(r))

    def __divmod__(self, o):
        return self // o, self % o

    def to_text(self):
        """str(timedelta)"""
        raise Unsupported('str() of a symbolic timedelta used as data')

    def __str__(self):
        return _placeholder(self)
    __repr__ = __str__

    def __html__(self):
        return _placeholder(self)

    def __format__(self, spec):
        return _placeholder(self)


def sym_timedelta(days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
    total = z3.IntVal(0)
    for v, mul in ((days, DAY), (seconds, SEC), (microseconds, 1), (milliseconds, 1000),
                   (minutes, 60 * SEC), (hours, 3600 * SEC), (weeks, 7 * DAY)):
        if type(v) is SymInt:
            total = total + v.e * mul
        elif type(v) is SymRat:
            w = v.settle()
            total = total + _intval((SymRat(w.e * mul) if w.frac is None else
                                     SymRat(w.e * mul, (w.frac[0] * mul, w.frac[1]))).__round__())
        elif isinstance(v, int):
            total = total + v * mul
        elif isinstance(v, float):
            total = total + td_us(_dt.timedelta(microseconds=v * mul))
        else:
            raise TypeError('unsupported type for timedelta component: %s' % type(v).__name__)
    total = z3.simplify(total)
    if not z3.is_int_value(total):
        if not decide(z3.And(total <= TD_LIMIT, total >= -TD_LIMIT)):
            raise OverflowError('days out of range for timedelta')
    return SymTimedelta.mk(total)


class SymTZ(_dt.tzinfo):
    """Fixed offset whose value is symbolic (microseconds)."""

    def __init__(self, off):
        self.off = off

    def utcoffset(self, dt):
        return SymTimedelta.mk(self.off)

    def tzname(self, dt):
        raise Unsupported('tzname')

    def dst(self, dt):
        return None

    def __deepcopy__(self, memo):
        return self


def tz_off(tz):
    if tz is None:
        return None
    if isinstance(tz, SymTZ):
        return tz.off
    o = tz.utcoffset(None)
    if o is None:
        raise Unsupported('time zone without a fixed offset')
    return td_us(o)


def days_from_civil(y, m, d):
    """Howard Hinnant's algorithm on z3 ints."""
    y2 = z3.If(m <= 2, y - 1, y)
    era = y2 / 400
    yoe = y2 - era * 400
    mp = (m + 9) % 12
    doy = (153 * mp + 2) / 5 + d - 1
    doe = yoe * 365 + yoe / 4 - yoe / 100 + doy
    return era * 146097 + doe - 719468


def civil_from_days(z):
    z = z + 719468
    era = z / 146097
    doe = z - era * 146097
    yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365
    y = yoe + era * 400
    doy = doe - (365 * yoe + yoe / 4 - yoe / 100)
    mp = (5 * doy + 2) / 153
    d = doy - (153 * mp + 2) / 5 + 1
    m = z3.If(mp < 10, mp + 3, mp - 9)
    return z3.If(m <= 2, y + 1, y), m, d


def days_in_month(y, m):
    leap = z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0))
    return z3.If(m == 2, z3.If(leap, z3.IntVal(29), z3.IntVal(28)),
                 z3.If(z3.Or(m == 4, m == 6, m == 9, m == 11), z3.IntVal(30), z3.IntVal(31)))


DT_MIN = (_dt.datetime(1, 1, 1) - EPOCH_NAIVE) // _dt.timedelta(microseconds=1)
DT_MAX = (_dt.datetime(9999, 12, 31, 23, 59, 59, 999999) - EPOCH_NAIVE) // _dt.timedelta(microseconds=1)
FIELDS = ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond')


class SymDatetime:
    """`wall` is the local wall clock in us since the epoch; tz is None,
    a fixed-offset tzinfo, or SymTZ."""
    __slots__ = ('wall', 'tz')

    def __init__(self, wall, tz):
        self.wall = wall
        self.tz = tz

    @property
    def __class__(self):
        return _dt.datetime

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    @staticmethod
    def mk(wall, tz):
        if isinstance(wall, int):
            wall = z3.IntVal(wall)
        wall = z3.simplify(wall)
        if z3.is_int_value(wall) and not isinstance(tz, SymTZ):
            return (EPOCH_NAIVE + us_td(wall.as_long())).replace(tzinfo=tz)
        return SymDatetime(wall, tz)

    @staticmethod
    def of(dt):
        if type(dt) is SymDatetime:
            return dt
        return SymDatetime(z3.IntVal((dt.replace(tzinfo=None) - EPOCH_NAIVE) // _dt.timedelta(microseconds=1)),
                           None if dt.tzinfo is None else _dt.timezone(dt.utcoffset()))

    @property
    def tzinfo(self):
        return self.tz

    def utcoffset(self):
        o = tz_off(self.tz)
        return None if o is None else SymTimedelta.mk(o)

    @property
    def us(self):
        """the instant (z3 expr); naive: the wall clock"""
        o = tz_off(self.tz)
        if o is None or (isinstance(o, int) and o == 0):
            return self.wall
        return z3.simplify(self.wall - o)

    # fields
    def _fields(self):
        p = current()
        f = p.fields.get(self.wall.get_id())
        if f is None:
            # every instant in range has exactly one set of civil fields
            p.fresh += 1
            f = tuple(z3.Int('%s!%d' % (n, p.fresh)) for n in FIELDS)
            y, m, d, h, mi, s, us = f
            p.define(z3.And(y >= 1, y <= 9999, m >= 1, m <= 12, d >= 1, d <= days_in_month(y, m), h >= 0, h <= 23,
                            mi >= 0, mi <= 59, s >= 0, s <= 59, us >= 0, us <= 999999,
                            (days_from_civil(y, m, d) * 86400 + h * 3600 + mi * 60 + s) * SEC + us == self.wall))
            p.keep.append(self.wall)
            p.fields[self.wall.get_id()] = f
        return f

    year = property(lambda s: mkint(s._fields()[0]))
    month = property(lambda s: mkint(s._fields()[1]))
    day = property(lambda s: mkint(s._fields()[2]))
    hour = property(lambda s: mkint(s._fields()[3]))
    minute = property(lambda s: mkint(s._fields()[4]))
    second = property(lambda s: mkint(s._fields()[5]))
    microsecond = property(lambda s: mkint(s._fields()[6]))
    fold = 0

    # arithmetic
    def _ck(self, wall):
        wall = z3.simplify(wall)
        return SymDatetime.mk(wall, self.tz)

    def __add__(self, o):
        if type(o) is SymTimedelta:
            return self._ck(self.wall + o.us)
        if isinstance(o, _dt.timedelta):
            return self._ck(self.wall + td_us(o))
        return NotImplemented
    __radd__ = __add__

    def __sub__(self, o):
        if type(o) is SymTimedelta:
            return self._ck(self.wall - o.us)
        if isinstance(o, _dt.datetime):
            b = SymDatetime.of(o)
            if (self.tz is None) != (b.tz is None):
                raise TypeError("can't subtract offset-naive and offset-aware datetimes")
            return SymTimedelta.mk(self.us - b.us)
        if isinstance(o, _dt.timedelta):
            return self._ck(self.wall - td_us(o))
        return NotImplemented

    def __rsub__(self, o):
        if isinstance(o, _dt.datetime):
            return SymDatetime.of(o) - self
        return NotImplemented

    def _cmp(self, o, f, eq=None):
        if not isinstance(o, _dt.datetime):
            return NotImplemented
        b = SymDatetime.of(o)
        if (self.tz is None) != (b.tz is None):
            if eq is not None:
                return eq
            raise TypeError("can't compare offset-naive and offset-aware datetimes")
        return mkbool(f(self.us, b.us))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b, False)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return sym_not(self.__eq__(o))

    def __hash__(self):
        raise Unsupported('hash of a symbolic datetime')

    # conversions
    def astimezone(self, tz=None):
        if self.tz is None:
            inst = self.wall - LOCAL_OFFSET
        else:
            inst = self.us
        if tz is None:
            tz = _dt.timezone(us_td(LOCAL_OFFSET))
        off = tz_off(tz)
        if isinstance(off, int) and off == 0:
            return SymDatetime.mk(inst, tz)
        return SymDatetime.mk(inst + off, tz)

    def replace(self, **kw):
        tz = kw.pop('tzinfo', self.tz)
        if not kw:
            return SymDatetime.mk(self.wall, tz)
        vals = dict(zip(FIELDS, self._fields()))
        if set(kw) <= {'microsecond'} and type(kw['microsecond']) is int:
            return SymDatetime.mk(self.wall - vals['microsecond'] + kw['microsecond'], tz)
        for k, v in kw.items():
            if k in vals:
                vals[k] = v if isinstance(v, int) and not is_sym(v) else v.e
        return sym_datetime(*[mkint(vals[k]) for k in FIELDS], tzinfo=tz)

    def timestamp(self):
        inst = self.us if self.tz is not None else self.wall - LOCAL_OFFSET
        return mkfrac(inst, SEC)

    def date(self):
        raise Unsupported('date()')

    def timetuple(self):
        raise Unsupported('timetuple()')
    utctimetuple = timetuple

    def weekday(self):
        return mkint((self.wall / DAY + 3) % 7)

    def strftime(self, fmt):
        f = self._fields()
        segs = []
        i = 0
        while i < len(fmt):
            c = fmt[i]
            if c != '%':
                segs.append(c)
                i += 1
                continue
            d = fmt[i + 1]
            i += 2
            if d == 'Y':
                if not decide(f[0] >= 1000):
                    segs.append(IntSeg(f[0]))       # glibc does not pad
                else:
                    segs.append(IntSeg(f[0], 4))
            elif d in 'mdHMS':
                segs.append(IntSeg({'m': f[1], 'd': f[2], 'H': f[3], 'M': f[4], 'S': f[5]}[d], 2))
            elif d == 'f':
                segs.append(IntSeg(f[6], 6))
            elif d == '%':
                segs.append('%')
            elif d == 'F':
                segs.extend([IntSeg(f[0], 4), '-', IntSeg(f[1], 2), '-', IntSeg(f[2], 2)])
            elif d == 'T':
                segs.extend([IntSeg(f[3], 2), ':', IntSeg(f[4], 2), ':', IntSeg(f[5], 2)])
            elif d == 'z':
                segs.extend(to_segs(self._off_text('')))
            elif d == 'Z' and self.tz is not None and not isinstance(self.tz, SymTZ):
                segs.append(self.tz.tzname(None) or '')
            else:
                raise Unsupported('strftime %%%s' % d)
        return mkstr([s if not isinstance(s, IntSeg) or not z3.is_int_value(s.e)
                      else '%0*d' % (s.width, s.e.as_long()) for s in segs])

    def _off_text(self, colon=':'):
        if self.tz is None:
            return ''
        off = tz_off(self.tz)
        if not isinstance(off, int):
            off = z3.simplify(off)
            if z3.is_int_value(off):
                off = off.as_long()
        if isinstance(off, int):
            s = '-' if off < 0 else '+'
            a = abs(off) // (60 * SEC)
            return '%s%02d%s%02d' % (s, a // 60, colon, a % 60)
        neg = decide(off < 0)
        a = z3.simplify((-off if neg else off) / (60 * SEC))
        return mkstr(['-' if neg else '+', IntSeg(z3.simplify(a / 60), 2), colon, IntSeg(z3.simplify(a % 60), 2)])

    def isoformat(self, sep='T', timespec='auto'):
        f = self._fields()
        if isinstance(f[6], int):
            f = f[:6] + (z3.IntVal(f[6]),)
        text = self.strftime('%Y-%m-%d' + sep + '%H:%M:%S')
        segs = to_segs(text)
        if timespec == 'microseconds' or (timespec == 'auto' and decide(f[6] != 0)):
            segs += ['.', IntSeg(f[6], 6)]
        elif timespec == 'milliseconds':
            segs += ['.', IntSeg(z3.simplify(f[6] / 1000), 3)]
        segs += to_segs(self._off_text())
        return mkstr(segs)

    def to_text(self):
        return self.isoformat(sep=' ')

    def __str__(self):
        return _placeholder(self)
    __repr__ = __str__

    def __html__(self):
        return _placeholder(self)

    def __format__(self, spec):
        return _placeholder(sym_format(self, spec) if spec else self)


LOCAL_OFFSET = 0        # us; the checks run with TZ=UTC unless a harness sets it


def sym_datetime(year, month=None, day=None, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, fold=0):
    vals = (year, month, day, hour, minute, second, microsecond)
    es = tuple(_intval(v) for v in vals)
    y, mo, d, h, mi, s, us = es

    def need(cond, msg):
        if not decide(z3.simplify(cond) if not isinstance(cond, bool) else cond):
            raise ValueError(msg)
    need(z3.And(y >= 1, y <= 9999), 'year is out of range')
    need(z3.And(mo >= 1, mo <= 12), 'month must be in 1..12')
    need(z3.And(d >= 1, d <= days_in_month(y, mo)), 'day is out of range for month')
    need(z3.And(h >= 0, h <= 23), 'hour must be in 0..23')
    need(z3.And(mi >= 0, mi <= 59), 'minute must be in 0..59')
    need(z3.And(s >= 0, s <= 59), 'second must be in 0..59')
    need(z3.And(us >= 0, us <= 999999), 'microsecond must be in 0..999999')
    return build_datetime(es, tzinfo)


def build_datetime(es, tzinfo):
    y, mo, d, h, mi, s, us = es
    wall = z3.simplify((days_from_civil(y, mo, d) * 86400 + h * 3600 + mi * 60 + s) * SEC + us)
    r = SymDatetime.mk(wall, tzinfo)
    if type(r) is SymDatetime:
        p = current()
        p.keep.append(r.wall)
        p.keep.extend(es)
        p.fields[r.wall.get_id()] = es
    return r


# --------------------------------------------------------------------------
# containers
# --------------------------------------------------------------------------

class _SK:
    """Storage key of a symbolic dict key (identity hash)."""
    __slots__ = ('k',)

    def __init__(self, k):
        self.k = k

    def __repr__(self):
        return '_SK(%r)' % (self.k,)


def _unk(k):
    return k.k if type(k) is _SK else k


_MISSING = object()


class SymDict(dict):
    """A dict that also accepts symbolic keys (compared with ==, forking)."""
    __slots__ = ('nsym',)

    def __init__(self, *args, **kw):
        dict.__init__(self)
        self.nsym = 0
        if args:
            src = args[0]
            if hasattr(src, 'keys'):
                for k in src.keys():
                    self[k] = src[k]
            else:
                for k, v in src:
                    self[k] = v
        for k, v in kw.items():
            self[k] = v

    def _find(self, key):
        """storage key or _MISSING"""
        if not deep_sym(key):
            if dict.__contains__(self, key):
                return key
            if not self.nsym:
                return _MISSING
            for k in dict.__iter__(self):
                if type(k) is _SK and bool(k.k == key):
                    return k
            return _MISSING
        for k in dict.__iter__(self):
            if bool(key == _unk(k)):
                return k
        return _MISSING

    def __getitem__(self, key):
        k = self._find(key)
        if k is _MISSING:
            raise KeyError(key)
        return dict.__getitem__(self, k)

    def __setitem__(self, key, value):
        k = self._find(key)
        if k is _MISSING:
            if deep_sym(key):
                k = _SK(key)
                self.nsym += 1
            else:
                k = key
        dict.__setitem__(self, k, value)

    def __delitem__(self, key):
        k = self._find(key)
        if k is _MISSING:
            raise KeyError(key)
        if type(k) is _SK:
            self.nsym -= 1
        dict.__delitem__(self, k)

    def __contains__(self, key):
        return self._find(key) is not _MISSING

    def get(self, key, default=None):
        k = self._find(key)
        return default if k is _MISSING else dict.__getitem__(self, k)

    def pop(self, key, default=_MISSING):
        k = self._find(key)
        if k is _MISSING:
            if default is _MISSING:
                raise KeyError(key)
            return default
        if type(k) is _SK:
            self.nsym -= 1
        return dict.pop(self, k)

    def popitem(self, last=True):
        k, v = dict.popitem(self)
        if type(k) is _SK:
            self.nsym -= 1
        return _unk(k), v

    def setdefault(self, key, default=None):
        k = self._find(key)
        if k is not _MISSING:
            return dict.__getitem__(self, k)
        self[key] = default
        return default

    def update(self, *args, **kw):
        if args:
            src = args[0]
            if hasattr(src, 'keys'):
                for k in src.keys():
                    self[k] = src[k]
            else:
                for k, v in src:
                    self[k] = v
        for k, v in kw.items():
            self[k] = v

    def clear(self):
        dict.clear(self)
        self.nsym = 0

    def __iter__(self):
        for k in dict.__iter__(self):
            yield _unk(k)

    def keys(self):
        return _View(self, 0)

    def values(self):
        return _View(self, 1)

    def items(self):
        return _View(self, 2)

    def __reversed__(self):
        return (_unk(k) for k in dict.__reversed__(self))

    def copy(self):
        return SymDict(self)
    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy
        out = SymDict()
        memo[id(self)] = out
        for k, v in self.items():
            out[copy.deepcopy(k, memo)] = copy.deepcopy(v, memo)
        return out

    def __eq__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        if len(self) != len(o):
            return False
        for k in self:
            if type(o) is SymDict:
                j = o._find(k)
                if j is _MISSING:
                    return False
                v = dict.__getitem__(o, j)
            else:
                v = SymDict(o).get(k, _MISSING)
                if v is _MISSING:
                    return False
            if not bool(self[k] == v):
                return False
        return True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __or__(self, o):
        r = SymDict(self)
        r.update(o)
        return r

    def __ror__(self, o):
        r = SymDict(o)
        r.update(self)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    def __repr__(self):
        return '{' + ', '.join('%r: %r' % (k, v) for k, v in self.items()) + '}'

    def __reduce__(self):
        raise Unsupported('pickle of a symbolic dict')


class _View:
    def __init__(self, d, kind):
        self.d, self.kind = d, kind

    def __len__(self):
        return len(self.d)

    def __iter__(self):
        # native iteration semantics incl. "changed size during iteration"
        if self.kind == 0:
            for k in dict.__iter__(self.d):
                yield _unk(k)
        elif self.kind == 1:
            for v in dict.values(self.d):
                yield v
        else:
            for k, v in dict.items(self.d):
                yield _unk(k), v

    def __contains__(self, x):
        if self.kind == 0:
            return x in self.d
        return any(bool(x == y) for y in self)

    def __reversed__(self):
        return reversed(list(self))

    def __eq__(self, o):
        if self.kind == 0:
            return SymSet(self) == SymSet(o)
        return NotImplemented

    def __and__(self, o):
        return SymSet(self) & SymSet(o)

    def __or__(self, o):
        return SymSet(self) | SymSet(o)

    def __sub__(self, o):
        return SymSet(self) - SymSet(o)

    def __repr__(self):
        return repr(list(self))


class SymSet(set):
    def __init__(self, it=()):
        set.__init__(self)
        self.d = SymDict()
        for x in it:
            self.d[x] = True

    def add(self, x):
        self.d[x] = True

    def discard(self, x):
        self.d.pop(x, None)

    def remove(self, x):
        del self.d[x]

    def pop(self):
        return self.d.popitem()[0]

    def clear(self):
        self.d.clear()

    def __contains__(self, x):
        return x in self.d

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)

    def __bool__(self):
        return len(self.d) > 0

    def update(self, *its):
        for it in its:
            for x in it:
                self.d[x] = True

    def union(self, *its):
        r = SymSet(self)
        r.update(*its)
        return r

    def __or__(self, o):
        return self.union(o)

    def __ior__(self, o):
        self.update(o)
        return self

    def difference(self, *its):
        r = SymSet(self)
        for it in its:
            for x in it:
                r.discard(x)
        return r

    def __sub__(self, o):
        return self.difference(o)

    def difference_update(self, *its):
        for it in its:
            for x in list(it):
                self.discard(x)

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def intersection(self, o):
        o = SymSet(o)
        return SymSet(x for x in self if x in o)

    def intersection_update(self, o):
        keep = self.intersection(o)
        self.d = keep.d

    def __and__(self, o):
        return self.intersection(o)

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def issubset(self, o):
        o = SymSet(o)
        return all(x in o for x in self)

    def __le__(self, o):
        return self.issubset(o)

    def __ge__(self, o):
        return SymSet(o).issubset(self)

    def issuperset(self, o):
        return all(x in self for x in o)

    def isdisjoint(self, o):
        return not any(x in self for x in o)

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset)):
            return NotImplemented
        return len(self) == len(o) and all(x in self for x in o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def copy(self):
        return SymSet(self)

    def __deepcopy__(self, memo):
        return SymSet(self)

    def __repr__(self):
        return 'SymSet(%r)' % (list(self),)


# --------------------------------------------------------------------------
# deep helpers
# --------------------------------------------------------------------------

def concretise(v, model):
    """The native value of v under a model."""
    import dataclasses
    t = type(v)
    if t is SymInt:
        return engine._ev(model, v.e)
    if t is SymRat:
        r = model.eval(v.e, model_completion=True)
        return float(Fraction(r.numerator_as_long(), r.denominator_as_long()))
    if t is SymBool:
        return z3.is_true(model.eval(v.e, model_completion=True))
    if t is SymStr:
        return v.eval(model)
    if t is SymBytes:
        return v.s.eval(model).encode()
    if t is str:
        if PH1 in v:
            return concretise_text(v, model)
        return v
    if t is SymTimedelta:
        return us_td(engine._ev(model, v.us))
    if t is SymDatetime:
        tz = v.tz
        if isinstance(tz, SymTZ):
            tz = _dt.timezone(us_td(engine._ev(model, tz.off)))
        return (EPOCH_NAIVE + us_td(engine._ev(model, v.wall))).replace(tzinfo=tz)
    if isinstance(v, dict):
        return {concretise(k, model): concretise(x, model) for k, x in v.items()}
    if t is list:
        return [concretise(x, model) for x in v]
    if t is tuple:
        return tuple(concretise(x, model) for x in v)
    if isinstance(v, (set, frozenset)):
        return {concretise(x, model) for x in v}
    if dataclasses.is_dataclass(v) and not isinstance(v, type):
        return {f.name: concretise(getattr(v, f.name), model) for f in dataclasses.fields(v)}
    return v


def concretise_text(s, model):
    """Native text of a str with placeholders under a model."""
    p = current() if engine.CURRENT else None
    out = []
    i = 0
    while i < len(s):
        c = s[i]
        if c in (PH0, PHE):
            j = s.index(PH1, i)
            v = p.placeholders[int(s[i + 1:j])]
            t = str(concretise(v, model))
            if c == PHE:
                t = t.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;') \
                    .replace("'", '&#39;').replace('"', '&#34;')
            out.append(t)
            i = j + 1
        else:
            out.append(c)
            i += 1
    return ''.join(out)


def same(a, b):
    """Deep equality as one bool / SymBool (no forks where avoidable)."""
    import dataclasses
    if is_sym(a) or is_sym(b):
        ta = type(a)
        if ta is SymStr or type(b) is SymStr:
            s, o = (a, b) if ta is SymStr else (b, a)
            if not isinstance(o, str):
                return False
            return mkbool(s.eq_expr(o))
        r = a == b
        return False if r is NotImplemented else r
    if dataclasses.is_dataclass(a) and not isinstance(a, type) and type(a) is type(b):
        return sym_and([same(getattr(a, f.name), getattr(b, f.name)) for f in dataclasses.fields(a)])
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return False
        ad = a if type(a) is SymDict else SymDict(a)
        bd = b if type(b) is SymDict else SymDict(b)
        out = []
        for k in ad:
            j = bd._find(k)
            if j is _MISSING:
                return False
            out.append(same(ad[k], dict.__getitem__(bd, j)))
        return sym_and(out)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if isinstance(a, list) != isinstance(b, list) or len(a) != len(b):
            return False
        return sym_and([same(x, y) for x, y in zip(a, b)])
    return bool(a == b)
