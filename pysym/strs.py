"""Symbolic byte strings and text.

The length of a SymBytes / SymStr is concrete on every path (harnesses
enumerate lengths); each element is a concrete int or an 8-bit / code point
SymInt.  SymStr may also hold Dec(x) atoms: the decimal rendering of a
non-negative SymInt, expanded into digit characters only when needed.
"""
import codecs as _codecs
import z3
from . import terms as T
from .terms import (Unsupported, SymInt, SymBool, sand, sor, snot, sbool, site, mk, bv, is_sym)


class Dec(object):
    """decimal rendering of a non-negative SymInt"""
    __slots__ = ('x',)

    def __init__(self, x):
        self.x = x


def truth(c):
    return bool(c)


def eq_items(a, b):
    """equality of two plain item lists (ints / SymInts)"""
    if len(a) != len(b):
        return False
    cs = []
    for x, y in zip(a, b):
        if type(x) is int and type(y) is int:
            if x != y:
                return False
            continue
        if x is y:
            continue
        c = (x == y)
        if c is False:
            return False
        if c is True:
            continue
        cs.append(c.c)
    if not cs:
        return True
    return SymBool(cs[0] if len(cs) == 1 else z3.And(*cs))


def lt_items(a, b, or_eq=False):
    """lexicographic a < b (or <=), forking at each position"""
    for x, y in zip(a, b):
        if type(x) is int and type(y) is int:
            if x == y:
                continue
            return x < y
        if x is y:
            continue
        if truth(x == y):
            continue
        return x < y
    if or_eq:
        return len(a) <= len(b)
    return len(a) < len(b)


def in_set(x, codes):
    """x (int/SymInt) is one of the ints in codes"""
    if type(x) is int:
        return x in codes
    runs = []
    for c in sorted(codes):
        if runs and c == runs[-1][1] + 1:
            runs[-1][1] = c
        elif not runs or c != runs[-1][1]:
            runs.append([c, c])
    return in_ranges(x, runs)


def in_ranges(x, ranges):
    if type(x) is int:
        for lo, hi in ranges:
            if lo <= x <= hi:
                return True
        return False
    cs = []
    for lo, hi in ranges:
        if hi < x.lo or lo > x.hi:
            continue
        if lo == hi:
            cs.append(x == lo)
        else:
            cs.append(sand(x >= lo, x <= hi))
    return sor(*cs)


_pred_cache = {}


def pred_ranges(fn, key, maxcp=0x110000):
    r = _pred_cache.get(key)
    if r is None:
        r = []
        start = None
        for cp in range(maxcp):
            v = fn(chr(cp))
            if v and start is None:
                start = cp
            elif not v and start is not None:
                r.append((start, cp - 1))
                start = None
        if start is not None:
            r.append((start, maxcp - 1))
        _pred_cache[key] = r
    return r


def char_pred(x, name):
    """chr(x).<name>() for isdigit/isalpha/isspace/..."""
    if type(x) is int:
        return getattr(chr(x), name)()
    if x.hi < 128:
        rs = pred_ranges(lambda c: getattr(c, name)(), ('a', name), 128)
    elif x.hi < 0x10000:
        rs = pred_ranges(lambda c: getattr(c, name)(), ('b', name), 0x10000)
    else:
        rs = pred_ranges(lambda c: getattr(c, name)(), ('c', name))
    return in_ranges(x, rs)


_case_tab = {}


def char_case(x, name):
    """list of code points of chr(x).lower()/upper()/..."""
    if type(x) is int:
        return [ord(c) for c in getattr(chr(x), name)()]
    if x.hi < 128:
        if name in ('lower', 'casefold'):
            return [site(sand(x >= 65, x <= 90), x + 32, x)]
        if name == 'upper':
            return [site(sand(x >= 97, x <= 122), x - 32, x)]
    if truth(x < 128):
        y = mk(z3.Extract(6, 0, T.ext(x.t, max(7, x.t.size()), False)), max(x.lo, 0), 127)
        return char_case(y, name)
    # non-ASCII: delta table over the characters that change
    key = name
    tab = _case_tab.get(key)
    if tab is None:
        deltas = {}
        multi = []
        for cp in range(128, 0x110000):
            s = getattr(chr(cp), name)()
            if len(s) != 1:
                multi.append(cp)
            elif ord(s) != cp:
                deltas.setdefault(ord(s) - cp, []).append(cp)
        tab = _case_tab[key] = (deltas, multi)
    deltas, multi = tab
    m = [cp for cp in multi if x.lo <= cp <= x.hi]
    if m and truth(in_set(x, m)):
        v = T.engine().concretize(x)
        return [ord(c) for c in getattr(chr(v), name)()]
    r = x
    for d, cps in deltas.items():
        cps = [cp for cp in cps if x.lo <= cp <= x.hi]
        if cps:
            r = site(in_set(x, cps), x + d, r)
    if type(r) is SymInt:
        r = mk(r.t, max(r.lo, 0), min(r.hi, 0x10ffff)) if r.lo >= 0 else mk(z3.Extract(20, 0, T.ext(r.t, max(21, r.t.size()), True)), 0, 0x10ffff)
    return [r]


BYTES_WS = (9, 10, 11, 12, 13, 32)


def conc_index(i):
    return i.__index__() if type(i) is SymInt else i


def clamp_bound(v, n, default):
    """slice bound v for a sequence of length n -> concrete 0..n"""
    if v is None:
        return default
    if type(v) is SymInt:
        if v.lo < 0:
            if v < 0:
                v = v + n
                if truth(v < 0):
                    return 0
                # now 0 <= v < n
        if type(v) is SymInt and v.hi >= n:
            if truth(v >= n):
                return n
        return conc_index(v)
    if hasattr(v, '__index__'):
        v = v.__index__()
    if v < 0:
        v += n
        if v < 0:
            v = 0
    return min(v, n)


def slice_items(items, sl):
    n = len(items)
    step = sl.step
    if step is not None:
        step = conc_index(step)
    if step not in (None, 1):
        return items[slice(None if sl.start is None else conc_index(sl.start),
                           None if sl.stop is None else conc_index(sl.stop), step)]
    a = clamp_bound(sl.start, n, 0)
    b = clamp_bound(sl.stop, n, n)
    return items[a:b] if a < b else items[0:0]


def get_item(items, i):
    """items[i] with a possibly symbolic index; ite-table when all ints"""
    if type(i) is not SymInt:
        return items[i]
    n = len(items)
    inb = sand(i >= -n, i < n)
    if not truth(inb):
        raise IndexError('index out of range')
    if i.lo < 0:
        if i < 0:
            i = i + n
    if type(i) is int:
        return items[i]
    cands = [(k, items[k]) for k in range(max(0, i.lo), min(n - 1, i.hi) + 1)]
    if all(type(v) in (int, SymInt) for _, v in cands) and len(cands) <= 512:
        r = cands[-1][1]
        for k, v in reversed(cands[:-1]):
            r = site(i == k, v, r)
        return r
    return items[i.__index__()]


# ---------------------------------------------------------------- sequences

def find_items(h, n, start=0, end=None):
    end = len(h) if end is None else end
    k = len(n)
    for i in range(start, end - k + 1):
        if truth(eq_items(h[i:i + k], n)):
            return i
    return -1


def rfind_items(h, n, start=0, end=None):
    end = len(h) if end is None else end
    k = len(n)
    for i in range(end - k, start - 1, -1):
        if truth(eq_items(h[i:i + k], n)):
            return i
    return -1


class SymSeq(object):
    """Shared implementation of bytes / bytearray / str methods on item lists."""
    __slots__ = ()

    def __len__(self):
        return len(self._items())

    def __iter__(self):
        for x in self._items():
            yield self._elem(x)

    def __getitem__(self, i):
        its = self._items()
        if isinstance(i, slice):
            return self._mk(slice_items(its, i))
        return self._elem(get_item(its, i))

    def __bool__(self):
        return len(self) > 0

    def __mul__(self, n):
        return self._mk(list(self._items()) * conc_index(n))
    __rmul__ = __mul__

    def __add__(self, o):
        its = self._coerce(o)
        if its is None:
            return NotImplemented
        return self._mk(list(self._items()) + list(its))

    def __radd__(self, o):
        its = self._coerce(o)
        if its is None:
            return NotImplemented
        return self._mk(list(its) + list(self._items()))

    def __eq__(self, o):
        if o is self:
            return True
        its = self._coerce(o)
        if its is None:
            return NotImplemented
        return eq_items(self._items(), its)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    def _need(self, o):
        its = self._coerce(o)
        if its is None:
            raise TypeError('expected %s-like object' % self._kind)
        return its

    def __lt__(self, o):
        its = self._coerce(o)
        return NotImplemented if its is None else lt_items(self._items(), its)

    def __le__(self, o):
        its = self._coerce(o)
        return NotImplemented if its is None else lt_items(self._items(), its, True)

    def __gt__(self, o):
        its = self._coerce(o)
        return NotImplemented if its is None else lt_items(its, self._items())

    def __ge__(self, o):
        its = self._coerce(o)
        return NotImplemented if its is None else lt_items(its, self._items(), True)

    def __contains__(self, o):
        return truth(self.contains(o))

    def contains(self, o):
        its = self._items()
        sub = self._coerce_elem(o)
        k = len(sub)
        if k == 0:
            return True
        return sor(*[eq_items(its[i:i + k], sub) for i in range(len(its) - k + 1)])

    def _bounds(self, start, end):
        n = len(self._items())
        return clamp_bound(start, n, 0), clamp_bound(end, n, n)

    def find(self, sub, start=None, end=None):
        a, b = self._bounds(start, end)
        return find_items(self._items(), self._coerce_elem(sub), a, b)

    def rfind(self, sub, start=None, end=None):
        a, b = self._bounds(start, end)
        return rfind_items(self._items(), self._coerce_elem(sub), a, b)

    def index(self, sub, start=None, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rindex(self, sub, start=None, end=None):
        r = self.rfind(sub, start, end)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, sub, start=None, end=None):
        a, b = self._bounds(start, end)
        its = self._items()
        s = self._coerce_elem(sub)
        if not s:
            return b - a + 1
        if len(s) == 1:
            return sum((x.as_int() if type(x) is SymBool else int(x) for x in (i == s[0] for i in its[a:b])), 0)
        c = 0
        while True:
            p = find_items(its, s, a, b)
            if p < 0:
                return c
            c += 1
            a = p + len(s)

    def startswith(self, p, start=None, end=None):
        a, b = self._bounds(start, end)
        its = self._items()[a:b]
        if isinstance(p, tuple):
            return sor(*[self._sw(its, self._need(q)) for q in p])
        return self._sw(its, self._need(p))

    @staticmethod
    def _sw(its, p):
        return eq_items(its[:len(p)], p)

    def endswith(self, p, start=None, end=None):
        a, b = self._bounds(start, end)
        its = self._items()[a:b]
        if isinstance(p, tuple):
            return sor(*[self._ew(its, self._need(q)) for q in p])
        return self._ew(its, self._need(p))

    @staticmethod
    def _ew(its, p):
        return eq_items(its[len(its) - len(p):], p) if len(p) <= len(its) else False

    def removeprefix(self, p):
        return self[len(p):] if truth(self.startswith(p)) else self

    def removesuffix(self, p):
        return self[:len(self) - len(p)] if len(p) and truth(self.endswith(p)) else self

    def replace(self, old, new, count=-1):
        its = list(self._items())
        o, n = self._need(old), list(self._need(new))
        out = []
        i = 0
        done = 0
        if not o:
            for x in its:
                if count < 0 or done < count:
                    out.extend(n)
                    done += 1
                out.append(x)
            if count < 0 or done < count:
                out.extend(n)
            return self._mk(out)
        if len(o) == 1 and len(n) == 1 and count < 0:
            for x in its:
                c = (x == o[0])
                out.append(site(c, n[0], x) if type(c) is SymBool else (n[0] if c else x))
            return self._mk(out)
        while i < len(its):
            if (count < 0 or done < count) and i + len(o) <= len(its) and truth(eq_items(its[i:i + len(o)], o)):
                out.extend(n)
                i += len(o)
                done += 1
            else:
                out.append(its[i])
                i += 1
        return self._mk(out)

    def split(self, sep=None, maxsplit=-1):
        its = self._items()
        out = []
        if sep is None:
            i, n = 0, len(its)
            while True:
                while i < n and truth(self._isspace(its[i])):
                    i += 1
                if i >= n:
                    break
                if maxsplit >= 0 and len(out) >= maxsplit:
                    j = n
                    while j > i and truth(self._isspace(its[j - 1])):
                        j -= 1
                    out.append(self._mk(its[i:j]))
                    break
                j = i
                while j < n and not truth(self._isspace(its[j])):
                    j += 1
                out.append(self._mk(its[i:j]))
                i = j
            return out
        s = self._need(sep)
        if not s:
            raise ValueError('empty separator')
        i = 0
        while maxsplit < 0 or len(out) < maxsplit:
            p = find_items(its, s, i)
            if p < 0:
                break
            out.append(self._mk(its[i:p]))
            i = p + len(s)
        out.append(self._mk(its[i:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            raise T.Unsupported('rsplit whitespace')
        its = self._items()
        s = self._need(sep)
        out = []
        j = len(its)
        while len(out) < maxsplit:
            p = rfind_items(its, s, 0, j)
            if p < 0:
                break
            out.append(self._mk(its[p + len(s):j]))
            j = p
        out.append(self._mk(its[:j]))
        out.reverse()
        return out

    def partition(self, sep):
        its = self._items()
        s = self._need(sep)
        p = find_items(its, s)
        if p < 0:
            return self, self._mk([]), self._mk([])
        return self._mk(its[:p]), sep, self._mk(its[p + len(s):])

    def rpartition(self, sep):
        its = self._items()
        s = self._need(sep)
        p = rfind_items(its, s)
        if p < 0:
            return self._mk([]), self._mk([]), self
        return self._mk(its[:p]), sep, self._mk(its[p + len(s):])

    def splitlines(self, keepends=False):
        its = self._items()
        out = []
        cur = []
        i = 0
        while i < len(its):
            x = its[i]
            if truth(in_set(x, self._linebreaks)):
                e = [x]
                if truth(x == 13) and i + 1 < len(its) and truth(its[i + 1] == 10):
                    e.append(its[i + 1])
                    i += 1
                out.append(self._mk(cur + (e if keepends else [])))
                cur = []
            else:
                cur.append(x)
            i += 1
        if cur:
            out.append(self._mk(cur))
        return out

    def _strip(self, chars, left, right):
        its = self._items()
        a, b = 0, len(its)
        if chars is None:
            def test(x):
                return self._isspace(x)
        else:
            cs = list(self._need(chars))

            def test(x):
                return in_set(x, cs)
        if left:
            while a < b and truth(test(its[a])):
                a += 1
        if right:
            while b > a and truth(test(its[b - 1])):
                b -= 1
        return self._mk(its[a:b])

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def join(self, parts):
        out = []
        sep = list(self._items())
        for i, p in enumerate(parts):
            if i:
                out.extend(sep)
            out.extend(self._raw(p))
        return self._mk(out)

    def _raw(self, o):
        return self._need(o)

    def ljust(self, w, fill=None):
        its = list(self._items())
        f = self._need(fill)[0] if fill is not None else 32
        return self._mk(its + [f] * (w - len(its)))

    def rjust(self, w, fill=None):
        its = list(self._items())
        f = self._need(fill)[0] if fill is not None else 32
        return self._mk([f] * (w - len(its)) + its)

    def zfill(self, w):
        its = list(self._items())
        if its and truth(in_set(its[0], (43, 45))):
            return self._mk(its[:1] + [48] * (w - len(its)) + its[1:])
        return self._mk([48] * (w - len(its)) + its)

    def _allp(self, name):
        its = self._items()
        return bool(its) and sand(*[self._cp(x, name) for x in its])

    def isascii(self):
        return all(truth(x < 128) for x in self.b)

    def isdigit(self):
        return self._allp('isdigit')

    def isalpha(self):
        return self._allp('isalpha')

    def isalnum(self):
        return self._allp('isalnum')

    def isspace(self):
        return self._allp('isspace')

    def lower(self):
        return self._case('lower')

    def upper(self):
        return self._case('upper')

    def _case(self, name):
        out = []
        for x in self._items():
            out.extend(self._cc(x, name))
        return self._mk(out)

    def __hash__(self):
        return hash(T.engine().concretize_seq(self))

    def __repr__(self):
        return '<sym %s>' % self._kind

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __mod__(self, args):
        from .models import sym_mod
        return sym_mod(self, args)


def _bytes_items(o):
    to = type(o)
    if to is SymBytes or to is SymByteArray:
        return o.b
    if isinstance(o, (bytes, bytearray, memoryview)) and not isinstance(o, SymSeq):
        return list(bytes(o))
    return None


def _cache_pred_b(x, name):
    if type(x) is int:
        return getattr(bytes([x]), name)()
    r = _pred_cache.get(('by', name))
    if r is None:
        r = []
        for v in range(256):
            if getattr(bytes([v]), name)():
                if r and r[-1][1] == v - 1:
                    r[-1] = (r[-1][0], v)
                else:
                    r.append((v, v))
        _pred_cache[('by', name)] = r
    return in_ranges(x, r)


class SymBytes(SymSeq):
    __slots__ = ('b',)
    _kind = 'bytes'
    _linebreaks = (10, 13)

    def __init__(self, items):
        self.b = items

    @property
    def __class__(self):
        return bytes

    @staticmethod
    def make(items):
        for x in items:
            if type(x) is not int:
                return SymBytes(items if type(items) is list else list(items))
        return bytes(items)

    def _mk(self, items):
        return SymBytes.make(items)

    def _items(self):
        return self.b

    def _elem(self, x):
        return x

    def __len__(self):
        return len(self.b)

    def _coerce(self, o):
        return _bytes_items(o)

    def _coerce_elem(self, o):
        its = _bytes_items(o)
        if its is not None:
            return its
        i = T.as_int_operand(o)
        if i is None:
            raise TypeError("a bytes-like object is required, not '%s'" % type(o).__name__)
        if type(i) is int:
            if not 0 <= i <= 255:
                raise ValueError('byte must be in range(0, 256)')
        elif not truth(sand(i >= 0, i <= 255)):
            raise ValueError('byte must be in range(0, 256)')
        return [i]

    def _isspace(self, x):
        return in_set(x, BYTES_WS)

    def _cp(self, x, name):
        return _cache_pred_b(x, name)

    def _cc(self, x, name):
        if type(x) is int:
            return list(getattr(bytes([x]), name)())
        if name == 'lower':
            return [site(sand(x >= 65, x <= 90), (x & 127) + 32, x)] if False else [_bcase(x, 65, 90, 32)]
        if name == 'upper':
            return [_bcase(x, 97, 122, -32)]
        raise T.Unsupported('bytes.' + name)

    def hex(self, *a):
        if a:
            raise T.Unsupported('bytes.hex(sep)')
        out = []
        for x in self.b:
            out.append(hexdigit(x >> 4))
            out.append(hexdigit(x & 15))
        return SymStr.make(out)

    def decode(self, encoding='utf-8', errors='strict'):
        return decode(self, encoding, errors)

    def __bytes__(self):
        return T.engine().concretize_seq(self)

    def __buffer__(self, flags):
        return memoryview(T.engine().concretize_seq(self))

    def translate(self, table, delete=b''):
        if delete:
            raise T.Unsupported('translate delete')
        if table is None:
            return self
        t = _bytes_items(table)
        return SymBytes.make([get_item(t, x) for x in self.b])


def _bcase(x, lo, hi, d):
    r = site(sand(x >= lo, x <= hi), x + d, x)
    if type(r) is SymInt:
        w = max(8, r.t.size())
        r = mk(z3.Extract(7, 0, T.ext(r.t, w, r.lo < 0)), 0, min(255, max(0, x.hi + max(d, 0))))
    return r


def hexdigit(n, upper=False):
    if type(n) is int:
        return ord('%X' % n if upper else '%x' % n)
    return site(n < 10, n + 48, n + (55 if upper else 87))


class SymByteArray(SymBytes):
    """mutable"""
    __slots__ = ()
    _kind = 'bytearray'

    def __init__(self, items=()):
        self.b = list(items)

    @property
    def __class__(self):
        return bytearray

    def _mk(self, items):
        return SymByteArray(items)

    def __iadd__(self, o):
        self.b.extend(self._need(o))
        return self

    def extend(self, o):
        its = _bytes_items(o)
        if its is None:
            its = list(o)
        self.b.extend(its)

    def append(self, x):
        self.b.append(x)

    def clear(self):
        self.b = []

    def pop(self, i=-1):
        return self.b.pop(i)

    def insert(self, i, x):
        self.b.insert(i, x)

    def reverse(self):
        self.b.reverse()

    def copy(self):
        return SymByteArray(self.b)

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            self.b[slice(*[None if q is None else conc_index(q) for q in (i.start, i.stop, i.step)])] = list(_bytes_items(v) if _bytes_items(v) is not None else v)
        else:
            self.b[conc_index(i)] = v

    def __delitem__(self, i):
        del self.b[i]

    def __copy__(self):
        return SymByteArray(self.b)

    def __deepcopy__(self, memo):
        return SymByteArray(self.b)

    def __hash__(self):
        raise TypeError("unhashable type: 'bytearray'")


# ------------------------------------------------------------------- text

def _str_parts(o):
    if type(o) is SymStr:
        return o.p
    if isinstance(o, str):
        return [ord(c) for c in o]
    return None


def _pow10(k):
    return 10 ** k


def expand_dec(x):
    """code points of the decimal digits of non-negative SymInt x (forks on the digit count)"""
    if type(x) is int:
        return [ord(c) for c in str(x)]
    n = 1
    while x.hi >= 10 ** n and not truth(x < 10 ** n):
        n += 1
    out = []
    if n == 1:
        d = mk(T.ext(x.t, max(4, x.t.size()), False), 0, min(9, x.hi))
        return [d + 48]
    for k in range(n - 1, -1, -1):
        d = x // (10 ** k)
        if k != n - 1:
            d = d % 10
        elif type(d) is SymInt:
            d = mk(d.t, 0, min(9, d.hi))
        out.append(d + 48)
    return out


class SymStr(SymSeq):
    __slots__ = ('p',)
    _kind = 'str'
    _linebreaks = (10, 11, 12, 13, 0x1c, 0x1d, 0x1e, 0x85, 0x2028, 0x2029)

    def __init__(self, parts):
        self.p = parts

    @property
    def __class__(self):
        return str

    @staticmethod
    def make(parts):
        sym = False
        for i, x in enumerate(parts):
            if type(x) is not int:
                if type(x) is Dec and type(x.x) is int:
                    parts = SymStr._norm(parts)
                    return SymStr.make(parts)
                sym = True
        if sym:
            return SymStr(parts if type(parts) is list else list(parts))
        return ''.join(map(chr, parts))

    @staticmethod
    def _norm(parts):
        out = []
        for x in parts:
            if type(x) is Dec and type(x.x) is int:
                out.extend(ord(c) for c in str(x.x))
            else:
                out.append(x)
        return out

    def _mk(self, items):
        return SymStr.make(items)

    def _items(self):
        for x in self.p:
            if type(x) is Dec:
                break
        else:
            return self.p
        out = []
        for x in self.p:
            if type(x) is Dec:
                out.extend(expand_dec(x.x))
            else:
                out.append(x)
        self.p = out
        return out

    def _elem(self, x):
        return SymStr.make([x])

    def _coerce(self, o):
        if type(o) is SymStr:
            return o._items()
        if isinstance(o, str):
            return [ord(c) for c in o]
        return None

    def _raw(self, o):
        p = _str_parts(o)
        if p is None:
            raise TypeError('sequence item: expected str instance, %s found' % type(o).__name__)
        return p

    def _coerce_elem(self, o):
        r = self._coerce(o)
        if r is None:
            raise TypeError('must be str, not %s' % type(o).__name__)
        return r

    def __bool__(self):
        return len(self.p) > 0

    def __add__(self, o):
        p = _str_parts(o)
        if p is None:
            return NotImplemented
        return SymStr.make(list(self.p) + list(p))

    def __radd__(self, o):
        p = _str_parts(o)
        if p is None:
            return NotImplemented
        return SymStr.make(list(p) + list(self.p))

    def __eq__(self, o):
        if o is self:
            return True
        p = _str_parts(o)
        if p is None:
            return NotImplemented
        if any(type(x) is Dec for x in self.p) or any(type(x) is Dec for x in p):
            r = eq_dec(self.p, p)
            if r is not None:
                return r
            return eq_items(self._items(), self._coerce(o))
        return eq_items(self.p, p)

    __hash__ = SymSeq.__hash__

    def join(self, parts):
        out = []
        sep = list(self.p)
        for i, p in enumerate(parts):
            if i:
                out.extend(sep)
            out.extend(self._raw(p))
        return SymStr.make(out)

    def split(self, sep=None, maxsplit=-1):
        if sep is not None and maxsplit < 0 and type(sep) is str and len(sep) == 1 and not sep.isdigit() \
                and any(type(x) is Dec for x in self.p):
            out = [[]]
            s = ord(sep)
            for x in self.p:
                if type(x) is not Dec and truth(x == s):
                    out.append([])
                else:
                    out[-1].append(x)
            return [SymStr.make(q) for q in out]
        return SymSeq.split(self, sep, maxsplit)

    def contains(self, o):
        if type(o) is str and len(o) == 1 and not o.isdigit():
            s = ord(o)
            return sor(*[x == s for x in self.p if type(x) is not Dec])
        return SymSeq.contains(self, o)

    def _isspace(self, x):
        return char_pred(x, 'isspace')

    def _cp(self, x, name):
        return char_pred(x, name)

    def _cc(self, x, name):
        return char_case(x, name)

    def isnumeric(self):
        return self._allp('isnumeric')

    def isdecimal(self):
        return self._allp('isdecimal')

    def isascii(self):
        return sand(*[x < 128 for x in self._items()])

    def isupper(self):
        raise T.Unsupported('isupper')

    def casefold(self):
        return self._case('casefold')

    def encode(self, encoding='utf-8', errors='strict'):
        return encode(self, encoding, errors)

    def format(self, *a, **k):
        from .models import sym_format
        return sym_format(self, a, k)

    def __str__(self):
        return T.engine().concretize_seq(self)

    def __format__(self, spec):
        return format(T.engine().concretize_seq(self), spec)

    def translate(self, table):
        out = []
        for x in self._items():
            keys = [k for k in table if type(k) is int]
            if type(x) is int:
                m = table.get(x, x)
            else:
                m = x
                for k in keys:
                    if x.lo <= k <= x.hi and truth(x == k):
                        m = table[k]
                        break
            if m is None:
                continue
            p = _str_parts(m)
            if p is not None:
                out.extend(p)
            else:
                out.append(m)
        return SymStr.make(out)


def eq_dec(a, b):
    """Equality of two part lists holding Dec atoms, when they align; None if unknown.
    A digit run is comparable as a number only when both sides have it as a maximal run
    that is a Dec atom or a literal without a leading zero."""
    def toks(p):
        out = []
        i = 0
        while i < len(p):
            x = p[i]
            if type(x) is Dec:
                if out and out[-1][0] == 'n':
                    return None
                out.append(('n', x.x))
                i += 1
            elif type(x) is int:
                if 48 <= x <= 57:
                    j = i
                    v = 0
                    while j < len(p) and type(p[j]) is int and 48 <= p[j] <= 57:
                        v = v * 10 + p[j] - 48
                        j += 1
                    if j - i > 1 and x == 48:
                        return None
                    if out and out[-1][0] == 'n':
                        return None
                    out.append(('n', v))
                    i = j
                else:
                    out.append(('c', x))
                    i += 1
            else:
                return None
        return out
    ta, tb = toks(a), toks(b)
    if ta is None or tb is None:
        return None
    if len(ta) != len(tb):
        return False
    cs = []
    for (k1, v1), (k2, v2) in zip(ta, tb):
        if k1 != k2:
            return False
        c = (v1 == v2)
        if c is False:
            return False
        cs.append(c)
    return sand(*cs)


# ------------------------------------------------------------------ codecs

codec_search = []      # search functions registered by instrumented code


def _norm_enc(e):
    return e.lower().replace('_', '-')


class FakeUnicodeError(object):
    """what an error handler is given for a symbolic object"""
    def __init__(self, encoding, obj, start, end, reason):
        self.encoding = encoding
        self.object = obj
        self.start = start
        self.end = end
        self.reason = reason


class FakeDecodeError(FakeUnicodeError):
    pass


class FakeEncodeError(FakeUnicodeError):
    pass


error_handlers = {}


def _dec_err(enc, obj, start, end, errors, out):
    """handle a decoding error; returns the position to resume at"""
    if errors == 'strict' or errors is None:
        raise UnicodeDecodeError(str(enc), b'\xff', 0, 1, 'symbolic')
    if errors == 'ignore':
        return end
    if errors == 'replace':
        out.append(0xfffd)
        return end
    h = error_handlers.get(errors)
    if h is None:
        raise T.Unsupported('error handler ' + errors)
    rep, pos = h(FakeDecodeError(enc, obj, start, end, ''))
    out.extend(_str_parts(rep))
    return pos


def _enc_err(enc, obj, start, end, errors, out, ec):
    if errors == 'strict' or errors is None:
        raise UnicodeEncodeError(str(enc), '\udc80', 0, 1, 'symbolic')
    if errors == 'ignore':
        return end
    if errors == 'replace':
        out.append(63)
        return end
    h = error_handlers.get(errors)
    if h is None:
        raise T.Unsupported('error handler ' + errors)
    rep, pos = h(FakeEncodeError(enc, obj, start, end, ''))
    its = _bytes_items(rep)
    out.extend(its if its is not None else _str_parts(rep))
    return pos


def decode(sb, encoding, errors='strict'):
    e = _norm_enc(encoding)
    b = _bytes_items(sb)
    if e in ('ascii', 'us-ascii'):
        out = []
        if errors == 'strict':
            if not truth(sand(*[x < 128 for x in b])):
                raise UnicodeDecodeError('ascii', b'\xff', 0, 1, 'ordinal not in range(128)')
            return SymStr.make([_narrow(x, 127) for x in b])
        i = 0
        while i < len(b):
            if truth(b[i] < 128):
                out.append(_narrow(b[i], 127))
                i += 1
            else:
                i = _dec_err('ascii', sb, i, i + 1, errors, out)
        return SymStr.make(out)
    if e in ('latin1', 'latin-1', 'iso-8859-1', 'iso8859-1'):
        return SymStr.make(list(b))
    if e in ('utf-8', 'utf8'):
        return _utf8_decode(sb, b, errors)
    if e in ('utf-16-be', 'utf-16-le', 'utf-16be', 'utf-16le'):
        return _utf16_decode(sb, b, errors, e.endswith('be'))
    if e in ('utf-32-be', 'utf-32-le', 'utf-32be', 'utf-32le'):
        return _utf32_decode(sb, b, errors, e.endswith('be'))
    if e == 'idna':
        from .instrument import stdlib_codec
        return stdlib_codec('encodings.idna').Codec().decode(sb, errors)[0]
    if e == 'unicode-internal':
        raise LookupError(e)
    for s in codec_search:
        info = s(encoding.lower().replace('-', '_').replace(' ', '_'))
        if info is not None:
            return info.decode(sb, errors)[0]
    table = single_byte_table(encoding)
    if table is not None:
        return charmap_decode(sb, encoding, table, errors)
    # unknown: concretise
    return T.engine().concretize_seq(sb).decode(encoding, errors)


def single_byte_table(encoding):
    """decoding table of one of Python's table driven codecs, or None"""
    import codecs
    try:
        name = codecs.lookup(encoding).name.replace('-', '_')
        mod = __import__('encodings.' + name, fromlist=['x'])
    except (LookupError, ImportError):
        return None
    t = getattr(mod, 'decoding_table', None)
    return t if type(t) is str else None


def charmap_decode(sb, encoding, mapping, errors='strict'):
    out = []
    groups = {}
    for k, c in enumerate(mapping):
        if c != '\ufffe':
            groups.setdefault(ord(c) - k, []).append(k)
    gs = sorted(groups.items(), key=lambda kv: -len(kv[1]))
    valid = [k for _, ks in gs for k in ks]
    fine = truth(sand(*[in_set(x, valid) for x in _bytes_items(sb)]))
    for x in _bytes_items(sb):
        if not fine and not truth(in_set(x, valid)):
            if errors != 'strict':
                raise Unsupported('charmap errors')
            raise UnicodeDecodeError(str(encoding), b'\xff', 0, 1, 'character maps to <undefined>')
        if type(x) is int:
            out.append(ord(mapping[x]))
            continue
        r = x + gs[0][0]
        for d, ks in gs[1:]:
            r = site(in_set(x, ks), x + d, r)
        out.append(mk(r.t if r.t.size() >= 21 else T.ext(r.t, 21, r.lo < 0), min(ord(c) for c in mapping), max(ord(c) for c in mapping if c != '\ufffe')) if type(r) is SymInt else r)
    return SymStr.make(out)


def _narrow(x, hi):
    """x is known (on this path) to be <= hi"""
    if type(x) is int or x.hi <= hi:
        return x
    return mk(x.t, x.lo, hi) if x.lo >= 0 else x


def _cat(*xs):
    r = 0
    for x, n in xs:
        r = (r << n) | x if not (type(r) is int and r == 0) else x
    return r


def _cont(x):
    return sand(x >= 0x80, x <= 0xBF)


def _utf8_decode(obj, b, errors):
    out = []
    i = 0
    n = len(b)
    while i < n:
        x = b[i]
        if truth(x < 0x80):
            out.append(_narrow(x, 127))
            i += 1
            continue
        if type(x) is int:
            lead = 2 if 0xC2 <= x <= 0xDF else 3 if 0xE0 <= x <= 0xEF else 4 if 0xF0 <= x <= 0xF4 else 0
        elif truth(sand(x >= 0xC2, x <= 0xDF)):
            lead = 2
        elif truth(sand(x >= 0xE0, x <= 0xEF)):
            lead = 3
        elif truth(sand(x >= 0xF0, x <= 0xF4)):
            lead = 4
        else:
            lead = 0
        if lead == 0:
            i = _dec_err('utf-8', obj, i, i + 1, errors, out)
            continue
        # second byte
        if i + 1 >= n:
            i = _dec_err('utf-8', obj, i, n, errors, out)
            continue
        y = b[i + 1]
        if lead == 2:
            ok = _cont(y)
        elif lead == 3:
            ok = sor(sand(x == 0xE0, y >= 0xA0, y <= 0xBF), sand(x == 0xED, y >= 0x80, y <= 0x9F),
                     sand(x != 0xE0, x != 0xED, _cont(y)))
        else:
            ok = sor(sand(x == 0xF0, y >= 0x90, y <= 0xBF), sand(x == 0xF4, y >= 0x80, y <= 0x8F),
                     sand(x != 0xF0, x != 0xF4, _cont(y)))
        if not truth(ok):
            i = _dec_err('utf-8', obj, i, i + 1, errors, out)
            continue
        bad = None
        for k in range(2, lead):
            if i + k >= n:
                bad = n
                break
            if not truth(_cont(b[i + k])):
                bad = i + k
                break
        if bad is not None:
            i = _dec_err('utf-8', obj, i, bad, errors, out)
            continue
        if lead == 2:
            cp = ((x & 0x1f) << 6) | (y & 0x3f)
            lo, hi = 0x80, 0x7ff
        elif lead == 3:
            cp = ((x & 0x0f) << 12) | ((y & 0x3f) << 6) | (b[i + 2] & 0x3f)
            lo, hi = 0x800, 0xffff
        else:
            cp = ((x & 0x07) << 18) | ((y & 0x3f) << 12) | ((b[i + 2] & 0x3f) << 6) | (b[i + 3] & 0x3f)
            lo, hi = 0x10000, 0x10ffff
        if type(cp) is SymInt:
            cp = mk(cp.t, max(lo, cp.lo), min(hi, cp.hi))
        out.append(cp)
        i += lead
    return SymStr.make(out)


def _utf16_decode(obj, b, errors, be):
    out = []
    i = 0
    n = len(b)
    enc = 'utf-16-be' if be else 'utf-16-le'

    def unit(k):
        x, y = (b[k], b[k + 1]) if be else (b[k + 1], b[k])
        return (x << 8) | y
    while i < n:
        if i + 1 >= n:
            i = _dec_err(enc, obj, i, n, errors, out)
            continue
        u = unit(i)
        if truth(sand(u >= 0xD800, u <= 0xDFFF)):
            if truth(u <= 0xDBFF):
                if i + 3 >= n:
                    i = _dec_err(enc, obj, i, n, errors, out)
                    continue
                v = unit(i + 2)
                if truth(sand(v >= 0xDC00, v <= 0xDFFF)):
                    cp = 0x10000 + (((u & 0x3ff) << 10) | (v & 0x3ff))
                    out.append(cp)
                    i += 4
                    continue
                i = _dec_err(enc, obj, i, i + 2, errors, out)
                continue
            i = _dec_err(enc, obj, i, i + 2, errors, out)
            continue
        out.append(u)
        i += 2
    return SymStr.make(out)


def _utf32_decode(obj, b, errors, be):
    out = []
    i = 0
    n = len(b)
    enc = 'utf-32-be' if be else 'utf-32-le'
    while i < n:
        if i + 4 > n:
            i = _dec_err(enc, obj, i, n, errors, out)
            continue
        q = b[i:i + 4]
        if not be:
            q = q[::-1]
        cp = (q[0] << 24) | (q[1] << 16) | (q[2] << 8) | q[3]
        if truth(sor(cp > 0x10ffff, sand(cp >= 0xD800, cp <= 0xDFFF))):
            i = _dec_err(enc, obj, i, i + 4, errors, out)
            continue
        if type(cp) is SymInt:
            cp = mk(cp.t, cp.lo, min(cp.hi, 0x10ffff))
        out.append(cp)
        i += 4
    return SymStr.make(out)


def encode(ss, encoding='utf-8', errors='strict'):
    e = _norm_enc(encoding)
    its = ss._items() if type(ss) is SymStr else [ord(c) for c in ss]
    out = []
    i = 0
    n = len(its)
    if e in ('ascii', 'us-ascii', 'latin1', 'latin-1', 'iso-8859-1', 'iso8859-1'):
        lim = 127 if 'ascii' in e else 255
        if errors == 'strict':
            if not truth(sand(*[x <= lim for x in its])):
                raise UnicodeEncodeError(str(e), '\udc80', 0, 1, 'ordinal not in range')
            return SymBytes.make([_b8(x, lim) for x in its])
        while i < n:
            if truth(its[i] <= lim):
                out.append(_b8(its[i], lim))
                i += 1
            else:
                j = i + 1
                i = _enc_err(e, ss, i, j, errors, out, None)
        return SymBytes.make(out)
    if e in ('utf-8', 'utf8'):
        while i < n:
            x = its[i]
            if truth(x < 0x80):
                out.append(_b8(x, 127))
            elif truth(x < 0x800):
                x = _narrow(x, 0x7ff)
                out += [0xC0 | (x >> 6), 0x80 | (x & 0x3f)]
            elif truth(x < 0x10000):
                if truth(sand(x >= 0xD800, x <= 0xDFFF)):
                    i = _enc_err('utf-8', ss, i, i + 1, errors, out, None)
                    continue
                x = _narrow(x, 0xffff)
                out += [0xE0 | (x >> 12), 0x80 | ((x >> 6) & 0x3f), 0x80 | (x & 0x3f)]
            else:
                x = _narrow(x, 0x10ffff)
                out += [0xF0 | (x >> 18), 0x80 | ((x >> 12) & 0x3f), 0x80 | ((x >> 6) & 0x3f), 0x80 | (x & 0x3f)]
            i += 1
        return SymBytes.make([_b8(x, 255) for x in out])
    if e in ('utf-16-be', 'utf-16-le', 'utf-16be', 'utf-16le'):
        be = e.endswith('be')
        while i < n:
            x = its[i]
            us = []
            if truth(x < 0x10000):
                if truth(sand(x >= 0xD800, x <= 0xDFFF)):
                    i = _enc_err(e, ss, i, i + 1, errors, out, None)
                    continue
                us = [_narrow(x, 0xffff)]
            else:
                y = x - 0x10000
                if type(y) is SymInt:
                    y = mk(z3.Extract(19, 0, T.ext(y.t, max(20, y.t.size()), y.lo < 0)), 0, 0xfffff)
                us = [0xD800 + (y >> 10), 0xDC00 + (y & 0x3ff)]
            for u in us:
                h, l = u >> 8, u & 255
                out += [h, l] if be else [l, h]
            i += 1
        return SymBytes.make([_b8(x, 255) for x in out])
    if e in ('utf-32-be', 'utf-32-le', 'utf-32be', 'utf-32le'):
        be = e.endswith('be')
        while i < n:
            x = its[i]
            if truth(sand(x >= 0xD800, x <= 0xDFFF)):
                i = _enc_err(e, ss, i, i + 1, errors, out, None)
                continue
            q = [0, (x >> 16) & 255, (x >> 8) & 255, x & 255]
            out += q if be else q[::-1]
            i += 1
        return SymBytes.make([_b8(x, 255) for x in out])
    if e == 'idna':
        from .instrument import stdlib_codec
        return stdlib_codec('encodings.idna').Codec().encode(ss, errors)[0]
    for s in codec_search:
        info = s(encoding.lower().replace('-', '_').replace(' ', '_'))
        if info is not None:
            return info.encode(ss, errors)[0]
    table = single_byte_table(encoding)
    if table is not None:
        pairs = []
        for k, c in enumerate(table):
            if c != '\ufffe' and c not in table[k + 1:]:
                pairs.append((ord(c), k))
        return charmap_encode(its, encoding, pairs, errors)
    return T.engine().concretize_seq(ss).encode(encoding, errors)


def charmap_encode(its, encoding, pairs, errors='strict'):
    out = []
    fine = truth(sand(*[in_set(x, [c for c, _ in pairs if x.lo <= c <= x.hi]) for x in its if type(x) is not int]))
    for x in its:
        if type(x) is int:
            d = dict(pairs)
            if x not in d:
                raise UnicodeEncodeError(str(encoding), '\udc80', 0, 1, 'undefined')
            out.append(d[x])
            continue
        ps = [(c, b) for c, b in pairs if x.lo <= c <= x.hi]
        if not fine and (not ps or not truth(in_set(x, [c for c, _ in ps]))):
            if errors != 'strict':
                raise Unsupported('charmap errors')
            raise UnicodeEncodeError(str(encoding), '\udc80', 0, 1, 'character maps to <undefined>')
        # group by offset to keep the term small
        groups = {}
        for c, b in ps:
            groups.setdefault(b - c, []).append(c)
        gs = sorted(groups.items(), key=lambda kv: -len(kv[1]))
        r = x + gs[0][0]
        for d, cs in gs[1:]:
            r = site(in_set(x, cs), x + d, r)
        out.append(mk(z3.Extract(7, 0, T.ext(r.t, max(8, r.t.size()), r.lo < 0)), 0, 255) if type(r) is SymInt else r)
    return SymBytes.make(out)


def _b8(x, lim):
    if type(x) is int:
        return x
    if x.t.size() == 8 and x.lo >= 0:
        return x
    return mk(z3.Extract(7, 0, T.ext(x.t, max(8, x.t.size()), x.lo < 0)), max(0, x.lo), min(lim, x.hi))


T.SYM_TYPES.update([SymBytes, SymByteArray, SymStr])


def is_symseq(x):
    return type(x) in (SymBytes, SymStr, SymByteArray)
