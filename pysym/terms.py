"""Symbolic values: exact mathematical integers over bit-vectors, booleans.

A SymInt is a z3 bit-vector term together with an interval [lo, hi] that
contains every value the term can take.  Widths grow with the interval, so no
operation ever wraps: a SymInt behaves as a Python int.
"""
import sys
import z3

# numbers are passed to the solver in decimal
sys.set_int_max_str_digits(0)

class _NullEngine(object):
    """outside an exploration (module import, concrete runs)"""
    overlay = {}

    def tick(self):
        pass

    def note(self, msg):
        pass


_eng = _NullEngine()          # current engine


def engine():
    return _eng


def set_engine(e):
    global _eng
    _eng = e


class EngineSignal(BaseException):
    """Base of the signals that steer exploration (never caught by the code under test)."""


class Unsupported(EngineSignal):
    """The code did something with a symbolic value that has no model."""


class PathAbort(EngineSignal):
    """The current path is infeasible / assumed away."""


class StepLimit(EngineSignal):
    """The path ran for more steps than the bound allows (possible non-termination)."""


class StopExploration(EngineSignal):
    pass


def ubits(hi):
    return hi.bit_length() or 1


def need(lo, hi):
    if lo >= 0:
        return hi.bit_length() or 1
    return max(hi.bit_length() if hi > 0 else 0, (~lo).bit_length()) + 1


_bvcache = {}


def bv(v, w):
    k = (v, w)
    r = _bvcache.get(k)
    if r is None:
        r = z3.BitVecVal(v, w)
        if len(_bvcache) < 200000:
            _bvcache[k] = r
    return r


def ext(t, w, signed):
    s = t.size()
    if s == w:
        return t
    if s > w:
        return z3.Extract(w - 1, 0, t)
    return z3.SignExt(w - s, t) if signed else z3.ZeroExt(w - s, t)


def mk(t, lo, hi):
    """SymInt for term t whose value (unsigned if lo >= 0 else two's complement) lies in [lo, hi]"""
    if lo == hi:
        return lo
    w = need(lo, hi)
    if t.size() > w:
        t = z3.Extract(w - 1, 0, t)
    elif t.size() < w and lo < 0:
        t = z3.SignExt(w - t.size(), t)
    return SymInt(t, lo, hi)


def term(x, w):
    """term of width w (mod 2^w) of an int or SymInt"""
    if type(x) is SymInt:
        return ext(x.t, w, x.lo < 0)
    return bv(x & ((1 << w) - 1), w)


def rng(x):
    if type(x) is SymInt:
        return x.lo, x.hi
    return x, x


def as_int_operand(x):
    """int/bool/SymInt/SymBool -> int or SymInt; None when not an integer"""
    tx = type(x)
    if tx is SymInt or tx is int:
        return x
    if tx is bool:
        return int(x)
    if tx is SymBool:
        return x.as_int()
    if isinstance(x, int) and not isinstance(x, SymInt):
        return int(x)
    return None


class SymBool(object):
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return _eng.branch(self.c)

    def as_int(self):
        return SymInt(z3.If(self.c, bv(1, 1), bv(0, 1)), 0, 1)

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __and__(self, o):
        if type(o) in (bool, SymBool):
            return sand(self, o)
        return self.as_int() & o
    __rand__ = __and__

    def __or__(self, o):
        if type(o) in (bool, SymBool):
            return sor(self, o)
        return self.as_int() | o
    __ror__ = __or__

    def __xor__(self, o):
        if type(o) in (bool, SymBool):
            return sbool(z3.Xor(self.c, bterm(o)))
        return self.as_int() ^ o
    __rxor__ = __xor__

    def __eq__(self, o):
        if type(o) in (bool, SymBool):
            return sbool(self.c == bterm(o))
        return self.as_int() == o

    def __ne__(self, o):
        return snot(self == o)

    def __add__(self, o):
        return self.as_int() + o
    __radd__ = __add__

    def __mul__(self, o):
        return self.as_int() * o
    __rmul__ = __mul__

    def __sub__(self, o):
        return self.as_int() - o

    def __rsub__(self, o):
        return o - self.as_int()

    def __lshift__(self, o):
        return self.as_int() << o

    def __neg__(self):
        return -self.as_int()

    def __lt__(self, o):
        return self.as_int() < o

    def __le__(self, o):
        return self.as_int() <= o

    def __gt__(self, o):
        return self.as_int() > o

    def __ge__(self, o):
        return self.as_int() >= o

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return repr(bool(self))


def bterm(b):
    if type(b) is SymBool:
        return b.c
    return z3.BoolVal(bool(b))


def sbool(c):
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    return SymBool(c)


def sand(*xs):
    out = []
    for x in xs:
        if type(x) is SymBool:
            out.append(x.c)
        elif not x:
            return False
    if not out:
        return True
    return SymBool(out[0] if len(out) == 1 else z3.And(*out))


def sor(*xs):
    out = []
    for x in xs:
        if type(x) is SymBool:
            out.append(x.c)
        elif x:
            return True
    if not out:
        return False
    return SymBool(out[0] if len(out) == 1 else z3.Or(*out))


def snot(x):
    if type(x) is SymBool:
        return SymBool(z3.Not(x.c))
    return not x


def sall(xs):
    return sand(*list(xs))


def sany(xs):
    return sor(*list(xs))


def site(c, a, b):
    """If-then-else over ints"""
    if type(c) is not SymBool:
        return a if c else b
    a = as_int_operand(a)
    b = as_int_operand(b)
    if type(a) is int and type(b) is int and a == b:
        return a
    la, ha = rng(a)
    lb, hb = rng(b)
    lo, hi = min(la, lb), max(ha, hb)
    w = need(lo, hi)
    return SymInt(z3.If(c.c, term(a, w), term(b, w)), lo, hi)


def _cmp(a, b, op):
    """op in 'lt','le','eq'"""
    la, ha = rng(a)
    lb, hb = rng(b)
    if op == 'eq':
        if ha < lb or hb < la:
            return False
        if la == ha == lb == hb:
            return True
    elif op == 'lt':
        if ha < lb:
            return True
        if la >= hb:
            return False
    else:
        if ha <= lb:
            return True
        if la > hb:
            return False
    lo, hi = min(la, lb), max(ha, hb)
    w = need(lo, hi)
    ta, tb = term(a, w), term(b, w)
    if op == 'eq':
        return sbool(ta == tb)
    if lo >= 0:
        return sbool(z3.ULT(ta, tb) if op == 'lt' else z3.ULE(ta, tb))
    return sbool(ta < tb if op == 'lt' else ta <= tb)


class SymInt(object):
    __slots__ = ('t', 'lo', 'hi', '_v')

    def __init__(self, t, lo, hi):
        self.t = t
        self.lo = lo
        self.hi = hi

    @property
    def __class__(self):
        return int

    # -- arithmetic ----------------------------------------------------
    def __add__(self, o):
        o = as_int_operand(o)
        if o is None:
            return NotImplemented
        if type(o) is int and o == 0:
            return self
        lo2, hi2 = rng(o)
        lo, hi = self.lo + lo2, self.hi + hi2
        w = need(lo, hi)
        return mk(term(self, w) + term(o, w), lo, hi)
    __radd__ = __add__

    def __sub__(self, o):
        o = as_int_operand(o)
        if o is None:
            return NotImplemented
        if type(o) is int and o == 0:
            return self
        lo2, hi2 = rng(o)
        lo, hi = self.lo - hi2, self.hi - lo2
        w = need(lo, hi)
        return mk(term(self, w) - term(o, w), lo, hi)

    def __rsub__(self, o):
        o = as_int_operand(o)
        if o is None:
            return NotImplemented
        lo2, hi2 = rng(o)
        lo, hi = lo2 - self.hi, hi2 - self.lo
        w = need(lo, hi)
        return mk(term(o, w) - term(self, w), lo, hi)

    def __mul__(self, o):
        o2 = as_int_operand(o)
        if o2 is None:
            if isinstance(o, (bytes, str, list, tuple)):
                return o * self.__index__()
            return NotImplemented
        o = o2
        if type(o) is int:
            if o == 0:
                return 0
            if o == 1:
                return self
            if o > 0 and (o & (o - 1)) == 0:
                return self << (o.bit_length() - 1)
        lo2, hi2 = rng(o)
        c = (self.lo * lo2, self.lo * hi2, self.hi * lo2, self.hi * hi2)
        lo, hi = min(c), max(c)
        w = need(lo, hi)
        return mk(term(self, w) * term(o, w), lo, hi)
    __rmul__ = __mul__

    def _divmod_check(self, o):
        if type(o) is SymInt:
            if o.lo <= 0 <= o.hi:
                if o == 0:
                    raise ZeroDivisionError('integer division or modulo by zero')
        elif o == 0:
            raise ZeroDivisionError('integer division or modulo by zero')

    def __floordiv__(self, o):
        o = as_int_operand(o)
        if o is None:
            return NotImplemented
        return _floordiv(self, o)

    def __rfloordiv__(self, o):
        o = as_int_operand(o)
        if o is None:
            return NotImplemented
        return _floordiv(o, self)

    def __mod__(self, o):
        o = as_int_operand(o)
        if o is None:
            return NotImplemented
        return _mod(self, o)

    def __rmod__(self, o):
        o = as_int_operand(o)
        if o is None:
            return NotImplemented
        return _mod(o, self)

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __truediv__(self, o):
        from .floats import SymRat
        if isinstance(o, float) and o == int(o):
            o = int(o)
        o = as_int_operand(o)
        if o is None:
            return NotImplemented
        return SymRat.make(self, o)

    def __rtruediv__(self, o):
        return o / self.__index__()

    def __neg__(self):
        lo, hi = -self.hi, -self.lo
        w = need(lo, hi)
        return mk(-term(self, w), lo, hi)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo >= 0:
            return self
        if self.hi <= 0:
            return -self
        hi = max(-self.lo, self.hi)
        w = need(0, hi)
        return SymInt(z3.If((self < 0).c, term(-self, w), term(self, w)), 0, hi)

    def __invert__(self):
        return -self - 1

    def __lshift__(self, o):
        if type(o) is SymInt:
            o = o.__index__()
        if o == 0:
            return self
        if o < 0:
            raise ValueError('negative shift count')
        return mk(z3.Concat(self.t, bv(0, o)), self.lo << o, self.hi << o)

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rshift__(self, o):
        if type(o) is SymInt:
            o = o.__index__()
        if o == 0:
            return self
        if o < 0:
            raise ValueError('negative shift count')
        s = self.t.size()
        if o >= s:
            if self.lo >= 0:
                return 0
            return mk(z3.Extract(s - 1, s - 1, self.t), self.lo >> o, self.hi >> o)
        return mk(z3.Extract(s - 1, o, self.t), self.lo >> o, self.hi >> o)

    def __rrshift__(self, o):
        return o >> self.__index__()

    def __and__(self, o):
        o = as_int_operand(o)
        if o is None:
            return NotImplemented
        lo2, hi2 = rng(o)
        if type(o) is int and o >= 0:
            if o == 0:
                return 0
            if (o & (o + 1)) == 0:
                k = o.bit_length()
                if self.lo >= 0 and self.hi <= o:
                    return self
                w = max(self.t.size(), k)
                return mk(z3.Extract(k - 1, 0, ext(self.t, w, self.lo < 0)), 0, min(o, self.hi) if self.lo >= 0 else o)
        if self.lo >= 0 and lo2 >= 0:
            lo, hi = 0, min(self.hi, hi2)
            w = need(lo, hi)
            return mk(term(self, w) & term(o, w), lo, hi)
        if self.lo >= 0 or lo2 >= 0:
            lo, hi = 0, (self.hi if self.lo >= 0 else hi2)
            w = max(need(self.lo, self.hi), need(lo2, hi2)) + 1
            return mk(term(self, w) & term(o, w), lo, hi)
        w = max(need(self.lo, self.hi), need(lo2, hi2)) + 1
        return mk(term(self, w) & term(o, w), -(1 << (w - 1)), (1 << (w - 1)) - 1)
    __rand__ = __and__

    def _orx(self, o, isor):
        lo2, hi2 = rng(o)
        if self.lo >= 0 and lo2 >= 0:
            w = max(ubits(self.hi), ubits(hi2))
            a, b = term(self, w), term(o, w)
            return mk(a | b if isor else a ^ b, max(self.lo, lo2) if isor else 0, (1 << w) - 1)
        w = max(need(self.lo, self.hi), need(lo2, hi2)) + 1
        a, b = term(self, w), term(o, w)
        return mk(a | b if isor else a ^ b, -(1 << (w - 1)), (1 << (w - 1)) - 1)

    def __or__(self, o):
        o = as_int_operand(o)
        if o is None:
            return NotImplemented
        if type(o) is int and o == 0:
            return self
        return self._orx(o, True)
    __ror__ = __or__

    def __xor__(self, o):
        o = as_int_operand(o)
        if o is None:
            return NotImplemented
        if type(o) is int and o == 0:
            return self
        return self._orx(o, False)
    __rxor__ = __xor__

    def __pow__(self, o, m=None):
        if m is not None:
            return pow(self.__index__(), o, m)
        o = o.__index__()
        if o < 0:
            return self.__index__() ** o
        r = 1
        for _ in range(o):
            r = self * r
        return r

    def __rpow__(self, o, m=None):
        if o == 2 and self.lo >= 0 and self.hi <= 64:
            pass
        return o ** self.__index__()

    # -- comparison ----------------------------------------------------
    def __eq__(self, o):
        o2 = as_int_operand(o)
        if o2 is None:
            if isinstance(o, float):
                return self == int(o) if o == int(o) else False
            return NotImplemented
        return _cmp(self, o2, 'eq')

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return snot(r)

    def _fl(self, o, name):
        import math
        if isinstance(o, float):
            # a < 2.5 <=> a < 3 ; a <= 2.5 <=> a <= 2 ; a > 2.5 <=> a > 2 ; a >= 2.5 <=> a >= 3
            if math.isinf(o):
                return (o > 0) if name in ('lt', 'le') else (o < 0)
            return math.ceil(o) if name in ('lt', 'ge') else math.floor(o)
        return None

    def __lt__(self, o):
        o2 = as_int_operand(o)
        if o2 is None:
            f = self._fl(o, 'lt')
            if f is None:
                return NotImplemented
            return f if type(f) is bool else _cmp(self, f, 'lt')
        return _cmp(self, o2, 'lt')

    def __le__(self, o):
        o2 = as_int_operand(o)
        if o2 is None:
            f = self._fl(o, 'le')
            if f is None:
                return NotImplemented
            return f if type(f) is bool else _cmp(self, f, 'le')
        return _cmp(self, o2, 'le')

    def __gt__(self, o):
        o2 = as_int_operand(o)
        if o2 is None:
            f = self._fl(o, 'gt')
            if f is None:
                return NotImplemented
            return f if type(f) is bool else _cmp(f, self, 'lt')
        return _cmp(o2, self, 'lt')

    def __ge__(self, o):
        o2 = as_int_operand(o)
        if o2 is None:
            f = self._fl(o, 'ge')
            if f is None:
                return NotImplemented
            return f if type(f) is bool else _cmp(f, self, 'le')
        return _cmp(o2, self, 'le')

    def __bool__(self):
        r = _cmp(self, 0, 'eq')
        return not (r if type(r) is bool else _eng.branch(r.c))

    # -- conversions (concretising) --------------------------------------
    def __index__(self):
        return _eng.concretize(self)

    __int__ = __index__
    __trunc__ = __index__

    def __float__(self):
        return float(_eng.concretize(self))

    def __hash__(self):
        return hash(_eng.concretize(self))

    def __repr__(self):
        return '<symint>'

    def __str__(self):
        return str(_eng.concretize(self))

    def __format__(self, spec):
        return format(_eng.concretize(self), spec)

    def __ceil__(self):
        return self

    __floor__ = __ceil__

    def __round__(self, n=None):
        return self

    # -- int methods -------------------------------------------------------
    def bit_length(self):
        if self.lo < 0:
            return abs(self).bit_length()
        s = self.t.size()
        w = ubits(s)
        least = self.lo.bit_length()
        r = bv(least, w)
        for i in range(least, min(s, self.hi.bit_length())):
            r = z3.If(z3.Extract(i, i, self.t) == bv(1, 1), bv(i + 1, w), r)
        return mk(r, self.lo.bit_length(), self.hi.bit_length())

    def bit_count(self):
        x = abs(self)
        return sum(((x >> i) & 1 for i in range(x.t.size())), 0)

    def to_bytes(self, length=1, byteorder='big', signed=False, **kw):
        from .strs import SymBytes
        if type(length) is SymInt:
            length = length.__index__()
        if length < 0:
            raise ValueError('length argument must be non-negative')
        if not signed:
            if self.lo < 0:
                if self < 0:
                    raise OverflowError("can't convert negative int to unsigned")
            if self.hi >= (1 << (8 * length)):
                if self >= (1 << (8 * length)):
                    raise OverflowError('int too big to convert')
        else:
            lim = 1 << (8 * length - 1) if length else 0
            if length == 0:
                if self != 0:
                    raise OverflowError('int too big to convert')
                return b''
            if self.hi >= lim:
                if self >= lim:
                    raise OverflowError('int too big to convert')
            if self.lo < -lim:
                if self < -lim:
                    raise OverflowError('int too big to convert')
        if length == 0:
            return b''
        w = 8 * length
        t = term(self, w)
        items = [mk(z3.Extract(w - 1 - 8 * i, w - 8 - 8 * i, t), 0, 255) for i in range(length)]
        if byteorder == 'little':
            items.reverse()
        return SymBytes.make(items)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    def is_integer(self):
        return True

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


SMALL_QUOTIENT = 12


def _floordiv(a, b):
    if type(b) is SymInt:
        if b.lo <= 0 <= b.hi and bool(b == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
    elif b == 0:
        raise ZeroDivisionError('integer division or modulo by zero')
    elif b > 0 and (b & (b - 1)) == 0:
        return a >> (b.bit_length() - 1)
    la, ha = rng(a)
    lb, hb = rng(b)
    if type(b) is int and b > 0 and ha // b - la // b <= SMALL_QUOTIENT:
        q = la // b
        for k in range(la // b + 1, ha // b + 1):
            q = site(a >= k * b, k, q)
        return q
    if la >= 0 and lb >= 0:
        lo, hi = la // (hb or 1), ha // (lb or 1)
        w = max(need(la, ha), need(lb, hb))
        return mk(z3.UDiv(term(a, w), term(b, w)), lo, hi)
    w = max(need(la, ha), need(lb, hb)) + 2
    ta, tb = term(a, w), term(b, w)
    m = _smod(ta, tb)
    q = (ta - m) / tb
    mx = max(abs(la), abs(ha)) + 1
    return mk(q, -mx, mx)


def _smod(ta, tb):
    # bvsmod: sign follows divisor, as in Python
    r = z3.BitVecRef(z3.Z3_mk_bvsmod(ta.ctx_ref(), ta.as_ast(), tb.as_ast()), ta.ctx)
    return r


def _mod(a, b):
    if type(b) is SymInt:
        if b.lo <= 0 <= b.hi and bool(b == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
    elif b == 0:
        raise ZeroDivisionError('integer modulo by zero')
    elif b > 0 and (b & (b - 1)) == 0:
        return a & (b - 1)
    la, ha = rng(a)
    lb, hb = rng(b)
    if type(b) is int and la >= 0 and b > 0 and ha < b:
        return a
    if type(b) is int and b > 0 and ha // b - la // b <= SMALL_QUOTIENT:
        k0 = la // b
        r = a - k0 * b
        for k in range(k0 + 1, ha // b + 1):
            r = site(a >= k * b, a - k * b, r)
        if type(r) is int:
            return r
        return mk(r.t, 0, b - 1) if r.lo >= 0 else mk(ext(r.t, max(r.t.size(), need(0, b - 1)), True), 0, b - 1)
    if la >= 0 and lb >= 0:
        w = max(need(la, ha), need(lb, hb))
        return mk(z3.URem(term(a, w), term(b, w)), 0, min(ha, hb - 1) if hb else ha)
    w = max(need(la, ha), need(lb, hb)) + 1
    r = _smod(term(a, w), term(b, w))
    lo = min(0, lb + 1)
    hi = max(0, hb - 1)
    return mk(r, lo, hi)


def is_sym(x):
    return type(x) in SYM_TYPES


SYM_TYPES = set([SymInt, SymBool])
