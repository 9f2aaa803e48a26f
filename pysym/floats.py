"""The few float shapes the code under test derives from integers: exact
rationals num/den (true division by an integer) and base-2 logarithms."""
import math
from . import terms as T
from .terms import SymInt, Unsupported


class SymRat(object):
    """num/den with den a positive int; only for values a float holds exactly or whose
    ceil/floor/int are unaffected by rounding (|num| < 2**53)."""
    __slots__ = ('n', 'd')

    @property
    def __class__(self):
        return float

    def __init__(self, n, d):
        self.n = n
        self.d = d

    @staticmethod
    def make(n, d):
        if type(d) is SymInt:
            d = d.__index__()
        if d == 0:
            raise ZeroDivisionError('division by zero')
        if d < 0:
            n, d = -n, -d
        if type(n) is int:
            return n / d
        if max(abs(n.lo), abs(n.hi)) >= 2 ** 53:
            n2 = n.__index__()
            return n2 / d
        return SymRat(n, d)

    def __ceil__(self):
        return -((-self.n) // self.d)

    def __floor__(self):
        return self.n // self.d

    def __trunc__(self):
        if self.n < 0:
            return self.__ceil__()
        return self.__floor__()

    def __float__(self):
        return T.engine().concretize(self.n) / self.d

    __int__ = __trunc__

    def _co(self, o):
        if isinstance(o, float) and type(o) is float:
            return o.as_integer_ratio()
        if type(o) is SymRat:
            return o.n, o.d
        o = T.as_int_operand(o)
        return (o, 1) if o is not None else None

    def _c(self, o, f):
        p = self._co(o)
        if p is None:
            return NotImplemented
        return f(self.n * p[1], p[0] * self.d)

    def __eq__(self, o):
        return self._c(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._c(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b)

    def __add__(self, o):
        p = self._co(o)
        return SymRat.make(self.n * p[1] + p[0] * self.d, self.d * p[1])
    __radd__ = __add__

    def __mul__(self, o):
        p = self._co(o)
        return SymRat.make(self.n * p[0], self.d * p[1])
    __rmul__ = __mul__

    def __truediv__(self, o):
        p = self._co(o)
        if p[0] == 0:
            raise ZeroDivisionError()
        return SymRat.make(self.n * p[1], self.d * p[0])

    def __bool__(self):
        return bool(self.n != 0)

    def is_integer(self):
        return bool(self.n % self.d == 0)

    def __hash__(self):
        return hash(float(self))


class SymFrac(object):
    """fractions.Fraction of a symbolic numerator: n * p / q with p, q constants"""
    __slots__ = ('n', 'p', 'q')

    @property
    def __class__(self):
        from fractions import Fraction
        return Fraction

    def __init__(self, n, p, q):
        g = math.gcd(p, q)
        self.n, self.p, self.q = n, p // g, q // g

    def _k(self, o):
        from fractions import Fraction
        if type(o) in (int, Fraction):
            return Fraction(o)
        raise Unsupported('symbolic fraction with %s' % type(o).__name__)

    def __mul__(self, o):
        k = self._k(o)
        return SymFrac(self.n, self.p * k.numerator, self.q * k.denominator)
    __rmul__ = __mul__

    def __truediv__(self, o):
        k = self._k(o)
        if k == 0:
            raise ZeroDivisionError('Fraction(%s, 0)' % 'symbolic')
        return self * (1 / k)

    def __add__(self, o):
        k = self._k(o)
        return SymFrac(self.n * self.p * k.denominator + k.numerator * self.q, 1, self.q * k.denominator)
    __radd__ = __add__

    def limit_denominator(self, limit=1000000):
        if limit != 1:
            raise Unsupported('limit_denominator')
        n = self.n * self.p
        if self.q == 1:
            return SymFrac(n, 1, 1)
        d, r = n // self.q, n % self.q
        # nearest integer, a tie to the smaller one
        return SymFrac(d + T.site(r * 2 > self.q, 1, 0), 1, 1)

    def __floor__(self):
        return self.n * self.p // self.q

    def __ceil__(self):
        return -((-self.n * self.p) // self.q)

    def __trunc__(self):
        if self.n < 0:
            return self.__ceil__()
        return self.__floor__()
    __int__ = __trunc__

    def __round__(self, nd=None):
        if nd is not None:
            raise Unsupported('round of a symbolic fraction')
        n = self.n * self.p
        d, r = n // self.q, n % self.q
        return d + T.site(T.sor(r * 2 > self.q, T.sand(r * 2 == self.q, (d & 1) == 1)), 1, 0)

    def __bool__(self):
        return bool(self.n != 0) if self.p else False

    def __eq__(self, o):
        k = self._k(o)
        return self.n * self.p * k.denominator == k.numerator * self.q

    def __lt__(self, o):
        k = self._k(o)
        return self.n * self.p * k.denominator < k.numerator * self.q

    def __gt__(self, o):
        k = self._k(o)
        return self.n * self.p * k.denominator > k.numerator * self.q

    def __hash__(self):
        raise Unsupported('hash of a symbolic fraction')


def m_fraction(n=0, d=None, **k):
    from fractions import Fraction
    if type(n) is SymInt or type(d) is SymInt:
        if type(d) is SymInt:
            d = d.__index__()
        if type(n) is SymInt:
            d = 1 if d is None else d
            if d == 0:
                raise ZeroDivisionError('Fraction(%s, 0)' % 'symbolic')
            return SymFrac(n, 1 if d > 0 else -1, abs(d))
    if type(n) is SymFrac:
        return n if d is None else n / d
    return Fraction(n, d, **k) if k or d is not None else Fraction(n)


class SymOpen(object):
    """a float known to lie strictly between two integers lo and lo+1 (scaled by 1/d)"""
    __slots__ = ('lo', 'd')

    @property
    def __class__(self):
        return float

    def __init__(self, lo, d=1):
        self.lo = lo
        self.d = d

    def __truediv__(self, o):
        if isinstance(o, float):
            o = int(o)
        return SymOpen(self.lo, self.d * o)

    def __floor__(self):
        return self.lo // self.d

    def __ceil__(self):
        # x in (lo/d, (lo+1)/d) contains no multiple of 1/d strictly inside, so no integer
        return self.lo // self.d + 1

    __trunc__ = __floor__
    __int__ = __floor__

    def _b(self, o):
        if type(o) is float or type(o) is int:
            lo, hi = self.lo / self.d, (self.lo + 1) / self.d
            if o <= lo:
                return 1
            if o >= hi:
                return -1
        raise Unsupported('comparison of a symbolic logarithm')

    def __lt__(self, o):
        return self._b(o) < 0

    def __le__(self, o):
        return self._b(o) < 0

    def __gt__(self, o):
        return self._b(o) > 0

    def __ge__(self, o):
        return self._b(o) > 0


_thr = {}


def _log_threshold(n):
    """smallest v with bit_length n such that math.log(v, 2) >= n (or 2**n when none)"""
    r = _thr.get(n)
    if r is None:
        lo, hi = 1 << (n - 1), (1 << n) - 1
        if math.log(hi, 2) < n:
            r = 1 << n
        else:
            while lo < hi:
                m = (lo + hi) // 2
                if math.log(m, 2) >= n:
                    hi = m
                else:
                    lo = m + 1
            r = lo
        _thr[n] = r
    return r


def _log_low(n):
    """smallest v of bit_length n with math.log(v, 2) > n-1"""
    k = ('l', n)
    r = _thr.get(k)
    if r is None:
        lo, hi = 1 << (n - 1), 1 << n
        while lo < hi:
            m = (lo + hi) // 2
            if math.log(m, 2) > n - 1:
                hi = m
            else:
                lo = m + 1
        r = _thr[k] = lo
    return r


def sym_log(x, base=None):
    """math.log(x, 2) of a symbolic integer: fork on the bit length and on the float
    rounding boundaries, computed from the real math.log by bisection (it is monotone)"""
    if type(x) is not SymInt:
        return math.log(x, base) if base is not None else math.log(x)
    if base not in (2, 2.0):
        return math.log(x.__index__(), base) if base is not None else math.log(x.__index__())
    if x <= 0:
        raise ValueError('math domain error')
    n = x.bit_length()
    n = n if type(n) is int else n.__index__()
    if n == 1:
        return 0.0
    lowt, hight = _log_low(n), _log_threshold(n)
    if x < lowt:
        return float(math.log(1 << (n - 1), 2))
    if x >= hight:
        return float(math.log((1 << n) - 1, 2))
    return SymOpen(n - 1)


T.SYM_TYPES.update([SymRat, SymOpen])
