"""Summaries of the standard library's date arithmetic (not code under test).

The pure-Python datetime module is executed symbolically; the few functions whose
integer divisions bit-blast badly are replaced, for symbolic arguments only, by
equivalent table and carry forms; every explored path is also run on the real datetime.
"""
import z3
from . import terms as T
from .strs import truth
from .models import objsym
from .terms import SymInt, sand, sor, snot, site, mk

DIM = (0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)
BEFORE = (0, 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334)


def sym(*xs):
    return any(type(x) is SymInt for x in xs)


def narrow(x, lo, hi):
    """x is known to lie in [lo, hi]"""
    if type(x) is not SymInt:
        return x
    lo, hi = max(lo, x.lo), min(hi, x.hi)
    if lo == hi:
        return lo
    if (lo, hi) == (x.lo, x.hi):
        return x
    if lo >= 0:
        w = T.need(lo, hi)
        if x.t.size() >= w:
            return SymInt(z3.Extract(w - 1, 0, x.t) if x.t.size() > w else x.t, lo, hi)
        return SymInt(x.t, lo, hi)
    return SymInt(x.t, lo, hi)


def pick(x, table):
    """table[x] for the possible values of x"""
    if type(x) is not SymInt:
        return table(x)
    # group equal values
    groups = {}
    for k in range(max(0, x.lo), min(12, x.hi) + 1):
        groups.setdefault(table(k), []).append(k)
    gs = sorted(groups.items(), key=lambda kv: len(kv[1]))
    r = gs[-1][0]
    for v, ks in gs[:-1]:
        r = site(sor(*[x == k for k in ks]), v, r)
    return r


def leap(y):
    if type(y) is not SymInt:
        return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
    if y.hi - y.lo <= 12:
        return sor(False, *[y == k for k in range(y.lo, y.hi + 1) if k % 4 == 0 and (k % 100 != 0 or k % 400 == 0)])
    skip = [k for k in range(-(-y.lo // 100) * 100, y.hi + 1, 100) if k % 400]
    return sand((y & 3) == 0, *[snot(y == k) for k in skip])


def dim(y, m):
    r = pick(m, lambda k: DIM[k])
    lp = leap(y)
    return narrow(r + b2i(sand(m == 2, lp)), 28, 31)


def b2i(c):
    if c is True or c is False:
        return int(c)
    return site(c, 1, 0)


def before_year(y):
    y1 = y - 1
    if type(y1) is not SymInt:
        return y1 * 365 + y1 // 4 - y1 // 100 + y1 // 400
    if y1.hi - y1.lo <= 12:
        r = None
        for k in range(y1.lo, y1.hi + 1):
            v = k * 365 + k // 4 - k // 100 + k // 400
            r = v if r is None else site(y1 >= k, v, r)
        return r
    n = 0
    base = y1.lo // 100 - y1.lo // 400
    for k in range((y1.lo // 100 + 1) * 100, y1.hi + 1, 100):
        if k % 400:
            n = n + b2i(y1 >= k)
    return y1 * 365 + (y1 >> 2) - (n + base)


def before_month(y, m):
    return pick(m, lambda k: BEFORE[k]) + b2i(sand(m > 2, leap(y)))


def shift(y, m, d, k):
    """the date k days after y-m-d, |k| <= 28; by carrying"""
    d2 = d + k
    if truth(d2 < 1):
        m = m - 1
        if truth(m < 1):
            m = 12
            y = y - 1
            if truth(y < 1):
                raise OverflowError('date value out of range')
        else:
            m = narrow(m, 1, 11)
        return y, m, narrow(d2 + dim(y, m), 1, 31)
    n = dim(y, m)
    if truth(d2 > n):
        d2 = d2 - n
        if truth(m == 12):
            m = 1
            y = y + 1
            if truth(y > 9999):
                raise OverflowError('date value out of range')
        else:
            m = narrow(m + 1, 2, 12)
    return y, m, narrow(d2, 1, 31)


def carry(a, b, n):
    """(a + b) as carry, rest below n, for 0 <= a, b < n"""
    s = a + b
    if type(s) is not SymInt:
        return divmod(s, n)
    c = s >= n
    return b2i(c), narrow(site(c, s - n, s), 0, n - 1)


def quorem(x, n):
    """divmod by a constant"""
    if type(x) is not SymInt or x.hi // n - x.lo // n <= T.SMALL_QUOTIENT:
        return x // n, x % n
    eng = T.engine()
    lo, hi = x.lo // n, x.hi // n
    q = eng.fresh('q', 0, hi - lo) + lo
    r = eng.fresh('r', 0, n - 1)
    eng.assume(q * n + r == x)
    return q, r


def split(s):
    """seconds of a day as hours, minutes, seconds"""
    if type(s) is not SymInt:
        return s // 3600, s // 60 % 60, s % 60
    # the only h, m, s in range with this sum
    eng = T.engine()
    h, m = eng.fresh('h', 0, 23), eng.fresh('m', 0, 59)
    rest = 0 if getattr(s, 'step', None) == 60 else eng.fresh('s', 0, 59)
    eng.assume((h * 60 + m) * 60 + rest == s)
    return h, m, rest


def patch(m):
    timedelta, date, datetime = m.timedelta, m.date, m.datetime
    td_new = timedelta.__new__
    dt_add = datetime.__add__
    d_add = date.__add__
    orig = dict((k, getattr(m, k)) for k in ('_is_leap', '_days_before_year', '_days_in_month', '_days_before_month', '_ymd2ord'))

    def new(cls, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        args = (days, seconds, microseconds, milliseconds, minutes, hours, weeks)
        if not sym(*args) or not all(type(x) in (int, SymInt) for x in args):
            return td_new(cls, *args)
        microseconds = microseconds + milliseconds * 1000
        q, us = quorem(microseconds, 1000000)
        seconds = seconds + minutes * 60 + hours * 3600 + q
        q, s = quorem(seconds, 86400)
        d = days + weeks * 7 + q
        if truth(sor(d > 999999999, d < -999999999)):
            raise OverflowError('timedelta # of days is too large')
        self = object.__new__(cls)
        self._days = d
        self._seconds = s
        self._microseconds = us
        self._hashcode = -1
        return self

    def made(cls, y, mo, d, h, mi, s, us, tz, fold=0):
        self = object.__new__(cls)
        self._year, self._month, self._day = y, mo, d
        self._hour, self._minute, self._second, self._microsecond = h, mi, s, us
        self._tzinfo = tz
        self._hashcode = -1
        self._fold = fold
        return self

    def add(self, other):
        if not isinstance(other, timedelta):
            return NotImplemented
        mine = (self._year, self._month, self._day, self._hour, self._minute, self._second, self._microsecond)
        if not sym(other._days, other._seconds, other._microseconds, *mine):
            return dt_add(self, other)
        y, mo, d, h, mi, s, us = mine
        oh, om, os = split(other._seconds)
        c, us = carry(us, other._microseconds, 1000000)
        c, s = carry3(s, os, c, 60)
        c, mi = carry3(mi, om, c, 60)
        c, h = carry3(h, oh, c, 24)
        k = other._days + c
        lo, hi = T.rng(k)
        if lo == 0 and hi == 0:
            pass
        elif -28 <= lo and hi <= 28:
            y, mo, d = shift(y, mo, d, k)
        else:
            y, mo, d = from_ordinal(m._ymd2ord(y, mo, d) + k)
        return made(type(self), y, mo, d, h, mi, s, us, self._tzinfo)

    def from_ordinal(n):
        if truth(sor(n < 1, n > 3652059)):
            raise OverflowError('date value out of range')
        if type(n) is not SymInt:
            return m._ord2ymd(n)
        # days and dates are in bijection: the date is the one with this ordinal
        eng = T.engine()
        n = narrow(n, 1, 3652059)
        ylo, yhi = m._ord2ymd(n.lo)[0], m._ord2ymd(n.hi)[0]
        y = eng.fresh('year', ylo, yhi)
        mo = eng.fresh('month', 1, 12)
        d = eng.fresh('day', 1, 31)
        eng.assume(sand(d <= dim(y, mo), m._ymd2ord(y, mo, d) == n))
        return y, mo, d

    def date_add(self, other):
        if isinstance(other, timedelta) and sym(self._year, self._month, self._day, other._days):
            k = other._days
            lo, hi = T.rng(k)
            if -28 <= lo and hi <= 28:
                y, mo, d = shift(self._year, self._month, self._day, k)
            else:
                y, mo, d = from_ordinal(m._ymd2ord(self._year, self._month, self._day) + k)
            return type(self)(y, mo, d)
        return d_add(self, other)

    def ymd2ord(y, mo, d):
        if not sym(y, mo, d):
            return orig['_ymd2ord'](y, mo, d)
        return before_year(y) + before_month(y, mo) + d

    dt_cmp = datetime._cmp

    def key(v):
        return (v._year, v._month, v._day, v._hour, v._minute, v._second, v._microsecond)

    def compare(a, b):
        if truth(sand(*[x == y for x, y in zip(a, b)])):
            return 0
        lt = False
        for x, y in reversed(list(zip(a, b))):
            lt = sor(x < y, sand(x == y, lt))
        return -1 if truth(lt) else 1

    def cmp(self, other, allow_mixed=False):
        if not isinstance(other, datetime) or not (objsym(self) or objsym(other)):
            return dt_cmp(self, other, allow_mixed)
        if self._tzinfo is not other._tzinfo:
            a, b = self.utcoffset(), other.utcoffset()
            if a is None and b is None:
                pass
            elif a is None or b is None:
                if allow_mixed:
                    return 2
                raise TypeError("can't compare offset-naive and offset-aware datetimes")
            elif not truth(sand(a._days == b._days, a._seconds == b._seconds, a._microseconds == b._microseconds)):
                # the order of the instants, by moving both to UTC where that stays inside the calendar
                if min(T.rng(self._year)[0], T.rng(other._year)[0]) < 2 or max(T.rng(self._year)[1], T.rng(other._year)[1]) > 9998:
                    diff = self - other
                    if diff.days < 0:
                        return -1
                    return 1 if diff else 0
                return compare(key(self - a), key(other - b))
        return compare(key(self), key(other))

    td_cmp = timedelta._cmp

    def tcmp(self, other):
        a, b = (self._days, self._seconds, self._microseconds), (other._days, other._seconds, other._microseconds)
        return compare(a, b) if sym(*a) or sym(*b) else td_cmp(self, other)

    timedelta._cmp = tcmp
    datetime._cmp = cmp
    timedelta.__new__ = staticmethod(new)
    timedelta.__bool__ = lambda self: bool(truth(sor(self._days != 0, self._seconds != 0, self._microseconds != 0)))
    datetime.__add__ = datetime.__radd__ = add
    date.__add__ = date.__radd__ = date_add
    m._is_leap = lambda y: leap(y)
    m._days_in_month = lambda y, mo: dim(y, mo) if sym(y, mo) else orig['_days_in_month'](y, mo)
    m._days_before_year = lambda y: before_year(y)
    m._days_before_month = lambda y, mo: before_month(y, mo) if sym(y, mo) else orig['_days_before_month'](y, mo)
    m._ymd2ord = ymd2ord


def carry3(a, b, c, n):
    s = a + b + c
    if type(s) is not SymInt:
        return divmod(s, n)
    o = s >= n
    return b2i(o), narrow(site(o, s - n, s), 0, n - 1)
