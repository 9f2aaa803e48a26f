"""Models of builtins and C-implemented library functions on symbolic values.

Instrumented code routes every call, subscript, `in` test, `%` and f-string
through the functions here; concrete arguments go to the real operation.
"""
import base64 as _base64
import binascii as _binascii
import builtins as _bi
import codecs as _codecs
import copy as _copy
import hashlib as _hashlib
import inspect as _inspect
import io as _io
import math as _math
import re as _re
import socket as _socket
import struct as _struct
import sys as _sys
import time as _time
import types as _types
import unicodedata as _unicodedata
import stringprep as _stringprep
import zlib as _zlib
from collections import OrderedDict as _OD

import z3
from . import terms as T
from . import strs as S
from .terms import (SymInt, SymBool, Unsupported, sand, sor, snot, sbool, site, mk, bv)
from .strs import SymBytes, SymStr, SymByteArray, Dec
import fractions as _fractions
from .floats import SymRat, SymOpen, sym_log, SymFrac, m_fraction

SYM = T.SYM_TYPES


def issym(x):
    return type(x) in SYM


def anysym(args, kw=()):
    for a in args:
        if type(a) in SYM:
            return True
    for k in kw:
        if type(kw[k]) in SYM:
            return True
    return False


def deepsym(x, d=2):
    tx = type(x)
    if tx in SYM:
        return True
    if d and tx in (list, tuple, set, frozenset):
        for y in x:
            if deepsym(y, d - 1):
                return True
    return False


# ---------------------------------------------------------------- builtins

def m_int(*a, **k):
    if not a:
        return int(**k)
    x = a[0]
    tx = type(x)
    base = k.get('base', a[1] if len(a) > 1 else 10)
    if tx is SymInt:
        return x
    if tx is SymBool:
        return x.as_int()
    if tx in (SymRat, SymOpen, SymFrac):
        return x.__trunc__()
    if tx is SymStr:
        return str_to_int(x, base)
    if tx is SymBytes or tx is SymByteArray:
        return str_to_int(SymStr.make(list(x.b)), base)
    if len(a) == 1 and isinstance(getattr(tx, '__int__', None), _types.FunctionType):
        return tx.__int__(x)
    return int(*a, **k)


DIGIT_RANGES = None


def _digit_ranges():
    global DIGIT_RANGES
    if DIGIT_RANGES is None:
        out = []
        for cp in range(128, 0x110000):
            d = _unicodedata.decimal(chr(cp), None)
            if d == 0:
                out.append((cp, cp + 9))
        DIGIT_RANGES = out
    return DIGIT_RANGES


def digit_value(x, base):
    """(is_digit condition, value) for an ASCII code point"""
    if type(x) is int:
        c = chr(x)
        try:
            v = int(c, 36) if c.isascii() and c.isalnum() else (_unicodedata.decimal(c) if c.isdecimal() else 99)
        except ValueError:
            v = 99
        return v < base, v
    isd = sand(x >= 48, x <= min(57, 47 + base))
    v = x - 48
    conds = [isd]
    if base > 10:
        lo = sand(x >= 97, x <= 86 + base)
        up = sand(x >= 65, x <= 54 + base)
        v = site(isd, v, site(lo, x - 87, x - 55))
        conds += [lo, up]
    return sor(*conds), v


def str_to_int(s, base=10):
    p = s.p
    if len(p) == 1 and type(p[0]) is Dec and base == 10:
        return p[0].x
    its = list(s._items())
    eng = T.engine()
    if base == 0 or not 2 <= base <= 36:
        return int(eng.concretize_seq(s), base)
    ds = [digit_value(x, base) for x in its]
    ok = sand(*[d[0] for d in ds])
    if its and bool(ok):
        return _accum(ds, base)
    # general syntax: strip whitespace, sign, underscores, prefix, unicode digits
    ws = (9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 0x85, 0xa0, 0x1680, 0x2028, 0x2029, 0x202f, 0x205f, 0x3000) + \
        tuple(range(0x2000, 0x200b))
    while its and bool(S.in_set(its[0], ws)):
        its.pop(0)
    while its and bool(S.in_set(its[-1], ws)):
        its.pop()
    neg = False
    if its and bool(S.in_set(its[0], (43, 45))):
        neg = bool(its[0] == 45)
        its.pop(0)
    if base in (16, 8, 2) and len(its) >= 2 and bool(its[0] == 48) and \
            bool(S.in_set(its[1], tuple(ord(c) for c in {16: 'xX', 8: 'oO', 2: 'bB'}[base]))):
        its = its[2:]
        if its and bool(its[0] == 95):
            its.pop(0)
    out = []
    prev_us = True
    for x in its:
        c, v = digit_value(x, base)
        if bool(c):
            out.append((True, v))
            prev_us = False
            continue
        if bool(x == 95):
            if prev_us:
                raise ValueError('invalid literal for int()')
            prev_us = True
            continue
        if type(x) is SymInt and x.hi > 127 and bool(x > 127):
            if bool(S.in_ranges(x, _digit_ranges())):
                v = _unicodedata.decimal(chr(eng.concretize(x)))
                if v < base:
                    out.append((True, v))
                    prev_us = False
                    continue
        raise ValueError('invalid literal for int()')
    if not out or prev_us:
        raise ValueError('invalid literal for int()')
    v = _accum(out, base)
    return -v if neg else v


def _accum(ds, base):
    v = 0
    for _, d in ds:
        v = v * base + _cl(d, base)
    return v


def _cl(d, base):
    if type(d) is int:
        return d
    w = max(d.t.size(), T.ubits(base - 1))
    n = T.ubits(base - 1)
    return mk(z3.Extract(n - 1, 0, T.ext(d.t, w, d.lo < 0)), max(0, d.lo), min(base - 1, d.hi)) \
        if d.lo < 0 or d.hi >= base else d


def m_str(*a, **k):
    if not a:
        return str(**k)
    x = a[0]
    tx = type(x)
    if tx is SymStr:
        return x
    if tx is SymInt:
        return int_to_dec(x)
    if tx is SymBool:
        return 'True' if x else 'False'
    if tx is SymBytes or tx is SymByteArray:
        if len(a) > 1 or 'encoding' in k:
            return x.decode(*a[1:], **k)
        T.engine().note('str(bytes)')
        return '<symbolic bytes>'
    if tx in SYM:
        return '<symbolic>'
    if len(a) == 1 and not k and isinstance(x, BaseException):
        if any(issym(q) for q in x.args):
            return m_str(x.args[0]) if len(x.args) == 1 else '<symbolic>'
        return str(x)
    if len(a) == 1 and not k:
        f = tx.__dict__.get('__str__') or getattr(tx, '__str__', None)
        if isinstance(f, _types.FunctionType):
            return f(x)
    return str(*a, **k)


def int_to_dec(x):
    if type(x) is int:
        return str(x)
    if x.lo < 0 and bool(x < 0):
        return SymStr([45, Dec(-x)])
    if x.lo < 0:
        x = mk(x.t, 0, x.hi)
        if type(x) is int:
            return str(x)
    return SymStr([Dec(x)])


def m_bytes(*a, **k):
    if not a:
        return bytes(**k)
    x = a[0]
    tx = type(x)
    if tx is SymBytes:
        return x
    if tx is SymByteArray:
        return SymBytes.make(list(x.b))
    if tx is SymInt:
        n = x.__index__()
        return bytes(n)
    if tx is SymStr:
        if len(a) < 2 and 'encoding' not in k:
            raise TypeError('string argument without an encoding')
        return x.encode(*a[1:], **k)
    if isinstance(x, (bytes, bytearray, str, int, memoryview)):
        return bytes(*a, **k)
    f = getattr(tx, '__bytes__', None)
    if f is not None:
        return f(x)
    return bytes_from_iter(x)


def bytes_from_iter(x):
    items = []
    for v in x:
        i = T.as_int_operand(v)
        if i is None:
            if hasattr(v, '__index__'):
                i = v.__index__()
            else:
                raise TypeError("'%s' object cannot be interpreted as an integer" % type(v).__name__)
        if type(i) is int:
            if not 0 <= i <= 255:
                raise ValueError('bytes must be in range(0, 256)')
        else:
            if i.lo < 0 or i.hi > 255:
                if not sand(i >= 0, i <= 255):
                    raise ValueError('bytes must be in range(0, 256)')
            i = mk(z3.Extract(7, 0, T.ext(i.t, max(8, i.t.size()), i.lo < 0)), max(0, i.lo), min(255, i.hi))
            if type(i) is SymInt and i.t.size() < 8:
                i = SymInt(T.ext(i.t, 8, False), i.lo, i.hi)
        items.append(i)
    return SymBytes.make(items)


def m_bytearray(*a, **k):
    if not a:
        return SymByteArray()
    x = a[0]
    if type(x) in (SymBytes, SymByteArray):
        return SymByteArray(x.b)
    if isinstance(x, (bytes, bytearray)):
        return SymByteArray(list(x))
    if isinstance(x, int):
        return SymByteArray([0] * S.conc_index(x))
    if isinstance(x, str):
        return SymByteArray(S._bytes_items(m_bytes(*a, **k)))
    return SymByteArray(S._bytes_items(bytes_from_iter(x)))


def m_ord(x):
    if type(x) is SymStr:
        its = x._items()
        if len(its) != 1:
            raise TypeError('ord() expected a character, but string of length %d found' % len(its))
        return its[0]
    if type(x) in (SymBytes, SymByteArray):
        if len(x.b) != 1:
            raise TypeError('ord() expected a character')
        return x.b[0]
    return ord(x)


def m_chr(x):
    if type(x) is SymInt:
        if not sand(x >= 0, x <= 0x10ffff):
            raise ValueError('chr() arg not in range(0x110000)')
        return SymStr.make([mk(x.t, max(0, x.lo), min(x.hi, 0x10ffff)) if x.lo >= 0 else
                            mk(z3.Extract(20, 0, T.ext(x.t, max(21, x.t.size()), True)), 0, min(x.hi, 0x10ffff))])
    return chr(x)


def m_len(x):
    f = getattr(type(x), '_sym_len', None)
    if f is not None:
        return f(x)
    n = getattr(type(x), '__len__', None)
    if n is not None and isinstance(n, _types.FunctionType):
        return n(x)
    return len(x)


def m_type(*a):
    if len(a) == 1 and type(a[0]) in SYM:
        return a[0].__class__
    return type(*a)


def m_isinstance(x, t):
    return isinstance(x, t)


def m_bool(*a):
    if a and type(a[0]) is SymBool:
        return a[0]
    if a and type(a[0]) is SymInt:
        return a[0] != 0
    return bool(*a)


def m_float(*a):
    if a and type(a[0]) in (SymRat, SymOpen):
        return a[0]
    if a and type(a[0]) is SymInt:
        return SymRat.make(a[0], 1)
    return float(*a)


def m_hex(x):
    if type(x) is SymInt:
        neg = bool(x < 0)
        s = to_base(abs(x), 16)
        return ('-0x' if neg else '0x') + s
    return hex(x)


def m_bin(x):
    if type(x) is SymInt:
        neg = bool(x < 0)
        s = to_base(abs(x), 2)
        return ('-0b' if neg else '0b') + s
    return bin(x)


def to_base(x, base, upper=False, width=0):
    """digits of a non-negative SymInt in base 2/8/16; forks on the digit count"""
    bits = {2: 1, 8: 3, 16: 4}[base]
    if type(x) is int:
        s = {2: '{:b}', 8: '{:o}', 16: '{:X}' if upper else '{:x}'}[base].format(x)
        return s.rjust(width, '0')
    n = max(1, width)
    while x.hi >= (1 << (bits * n)) and not bool(x < (1 << (bits * n))):
        n += 1
    out = []
    for k in range(n - 1, -1, -1):
        d = (x >> (bits * k)) & ((1 << bits) - 1)
        out.append(S.hexdigit(d, upper))
    return SymStr.make(out)


def m_format(x, spec=''):
    if type(spec) is SymStr:
        spec = T.engine().concretize_seq(spec)
    if type(x) is SymInt:
        return fmt_int(x, spec)
    if type(x) is SymStr:
        return fmt_str(x, spec)
    if type(x) in SYM:
        return '<symbolic>'
    return format(x, spec)


_SPEC = _re.compile(r'^(?:(.)?([<>=^]))?([+\- ]?)(#?)(0?)(\d*)(,?)(?:\.(\d+))?([bcdeEfFgGnosxX%]?)$')


def fmt_int(x, spec):
    m = _SPEC.match(spec)
    if not m or m.group(7) or m.group(8) or m.group(9) in tuple('ceEfFgGns%'):
        return format(T.engine().concretize(x), spec)
    fill, align, sign, alt, zero, width, _, _, ty = m.groups()
    width = int(width or 0)
    neg = x.lo < 0 and bool(x < 0)
    ax = abs(x) if neg else x
    if not neg and type(x) is SymInt and x.lo < 0:
        ax = mk(x.t, 0, x.hi)
    pre = '-' if neg else (sign if sign in '+ ' and sign else '')
    if alt:
        pre += {'x': '0x', 'X': '0X', 'b': '0b', 'o': '0o'}.get(ty, '')
    zpad = bool(zero) and not align
    inner = width - len(pre) if zpad else 0
    if ty in ('x', 'X', 'b', 'o'):
        body = to_base(ax, {'x': 16, 'X': 16, 'b': 2, 'o': 8}[ty], ty == 'X', inner)
    else:
        if inner <= 1 and width <= 1:
            body = int_to_dec(ax)
        else:
            body = dec_padded(ax, inner)
    r = pre + body
    if width and not zpad:
        n = len(r)
        if n < width:
            pad = (fill or ' ') * (width - n)
            r = r + pad if align == '<' else pad + r
    return r


def dec_padded(x, width):
    if type(x) is int:
        return str(x).rjust(width, '0')
    if width >= 1 and (x.hi < 10 ** width or bool(x < 10 ** width)):
        out = []
        for k in range(width - 1, -1, -1):
            d = (x // 10 ** k) % 10
            if type(d) is SymInt and d.hi > 9:
                d = mk(d.t, 0, 9)
            out.append(d + 48)
        return SymStr.make(out)
    return SymStr.make(list(S.expand_dec(x)))


def fmt_str(x, spec):
    if spec in ('', 's'):
        return x
    return format(T.engine().concretize_seq(x), spec)


_PCT = _re.compile(r'%(?:\((\w+)\))?([#0\- +]*)(\*|\d*)(?:\.(\d+))?[hlL]?([diouxXeEfFgGcrsa%])')


def sym_mod(l, r):
    """l % r for str/bytes templates"""
    isb = isinstance(l, (bytes, bytearray))
    if issym(l):
        if isinstance(l, int):
            return l % r
        l = T.engine().concretize_seq(l)
    if not (anysym(r) if type(r) is tuple else (issym(r) or isinstance(r, dict))):
        if type(r) is tuple and any(_has_symstr(x) for x in r) or (type(r) is not tuple and _has_symstr(r)):
            pass
        else:
            return l % r
    text = l.decode('latin1') if isb else l
    args = list(r) if type(r) is tuple else [r]
    out = []
    i = 0
    ai = 0
    for m in _PCT.finditer(text):
        out.append(text[i:m.start()])
        i = m.end()
        key, flags, width, prec, conv = m.groups()
        if conv == '%':
            out.append('%')
            continue
        if key is not None:
            v = r[key]
        else:
            if width == '*':
                width = str(S.conc_index(args[ai]))
                ai += 1
            if ai >= len(args):
                raise TypeError('not enough arguments for format string')
            v = args[ai]
            ai += 1
        if type(v) is SymBool:
            v = bool(v) if conv in 'sr' else v.as_int()
        if not issym(v) and not (conv in 's' and _has_symstr(v)):
            out.append(('%' + flags + width + ('.' + prec if prec else '') + conv) % (v,))
            continue
        if conv in 'rax' and not isinstance(v, int):
            out.append('<symbolic>')
            continue
        if conv == 's':
            s = v if type(v) is SymStr else (v if isb else m_str(v))
            if type(s) in (SymBytes, SymByteArray):
                s = SymStr.make(list(s.b))
            if prec:
                s = s[:int(prec)]
            if width and len(s) < int(width):
                s = s + ' ' * (int(width) - len(s)) if '-' in flags else ' ' * (int(width) - len(s)) + s
            out.append(s)
        elif conv in 'diu':
            if not isinstance(v, int):
                raise TypeError('%d format: a real number is required')
            out.append(fmt_int(m_int(v), ('0' if '0' in flags else '') + width + 'd'))
        elif conv in 'xX':
            if not isinstance(v, int):
                raise TypeError('%x format: an integer is required')
            out.append(fmt_int(v, ('#' if '#' in flags else '') + ('0' if '0' in flags else '') + width + conv))
        elif conv == 'c' and type(v) is SymInt:
            out.append(m_chr(v))
        elif conv == 'r':
            out.append('<symbolic>')
        else:
            T.engine().note('%% format %s' % conv)
            out.append('<symbolic>')
    out.append(text[i:])
    res = join_str('', out)
    if isb:
        return S.encode(res, 'latin1') if type(res) is SymStr else res.encode('latin1')
    return res


def _has_symstr(v):
    """objects whose __str__ may yield a symbolic string"""
    tv = type(v)
    if tv in SYM:
        return True
    if isinstance(v, BaseException):
        return any(issym(a) for a in v.args)
    f = getattr(tv, '__str__', None)
    return isinstance(f, _types.FunctionType) and not isinstance(v, type)


def join_str(sep, parts):
    parts = list(parts)
    if not anysym(parts) and type(sep) is str:
        return sep.join(parts)
    out = []
    sp = S._str_parts(sep)
    for i, p in enumerate(parts):
        if i:
            out.extend(sp)
        q = S._str_parts(p)
        if q is None:
            raise TypeError('sequence item %d: expected str instance, %s found' % (i, type(p).__name__))
        out.extend(q)
    return SymStr.make(out)


def join_bytes(sep, parts):
    parts = list(parts)
    if not anysym(parts):
        return sep.join(parts)
    out = []
    sp = S._bytes_items(sep)
    for i, p in enumerate(parts):
        if i:
            out.extend(sp)
        q = S._bytes_items(p)
        if q is None:
            raise TypeError('sequence item %d: expected a bytes-like object, %s found' % (i, type(p).__name__))
        out.extend(q)
    return SymBytes.make(out)


_FMT = _re.compile(r'\{\{|\}\}|\{([^{}!:]*)(?:!([rsa]))?(?::((?:[^{}]|\{[^{}]*\})*))?\}')


def sym_format(tmpl, a, k):
    if issym(tmpl):
        tmpl = T.engine().concretize_seq(tmpl)
    if not anysym(a, k):
        return tmpl.format(*a, **k)
    out = []
    i = 0
    auto = 0
    for m in _FMT.finditer(tmpl):
        out.append(tmpl[i:m.start()])
        i = m.end()
        if m.group(0) in ('{{', '}}'):
            out.append(m.group(0)[0])
            continue
        name, conv, spec = m.groups()
        if name == '':
            v = a[auto]
            auto += 1
        elif name.isdigit():
            v = a[int(name)]
        elif name in k:
            v = k[name]
        else:
            raise Unsupported('format field ' + name)
        spec = spec or ''
        if '{' in spec:
            def rep(mm):
                nonlocal auto
                n = mm.group(1)
                if n == '':
                    w = a[auto]
                    auto += 1
                elif n.isdigit():
                    w = a[int(n)]
                else:
                    w = k[n]
                return str(S.conc_index(w))
            spec = _re.sub(r'\{(\w*)\}', rep, spec)
        if conv == 'r':
            out.append('<symbolic>' if issym(v) else repr(v))
        else:
            if conv == 's':
                v = m_str(v)
            r = m_format(v, spec) if issym(v) else format(v, spec)
            out.append(r)
    out.append(tmpl[i:])
    return join_str('', out)


def m_map(f, *its):
    return (call(f, *xs) for xs in zip(*its))


def m_filter(f, it):
    if f is None:
        return (x for x in it if x)
    return (x for x in it if call(f, x))


def m_range(*a):
    return range(*[S.conc_index(x) for x in a])


def m_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def m_min(*a, **k):
    return _minmax(a, k, lambda x, y: x < y)


def m_max(*a, **k):
    return _minmax(a, k, lambda x, y: x > y)


def _minmax(a, k, better):
    key = k.get('key')
    xs = list(a[0]) if len(a) == 1 else list(a)
    if not xs:
        if 'default' in k:
            return k['default']
        raise ValueError('arg is an empty sequence')
    if key is None and all(type(x) in (int, SymInt) for x in xs):
        r = xs[0]
        for x in xs[1:]:
            r = site(better(x, r), x, r)
        return r
    r = xs[0]
    rk = key(r) if key else r
    for x in xs[1:]:
        xk = key(x) if key else x
        if better(xk, rk):
            r, rk = x, xk
    return r


def m_divmod(a, b):
    return a // b, a % b


def m_pow(a, b, m=None):
    if m is None:
        return a ** b
    return pow(S.conc_index(a), S.conc_index(b), S.conc_index(m))


def m_round(x, n=None):
    if type(x) is SymInt:
        return x
    return round(x, n) if n is not None else round(x)


def m_hash(x):
    return hash(x)


def m_list(*a):
    return list(*a)


def m_set(*a):
    if not a:
        return SymSet()
    xs = list(a[0])
    if not any(deepsym(x) for x in xs):
        return set(xs)
    return SymSet(xs)


class SymSet(object):
    """a set whose members may be symbolic: linear scan with symbolic equality"""
    def __init__(self, xs=()):
        self.xs = []
        for x in xs:
            self.add(x)

    @property
    def __class__(self):
        return set

    def add(self, x):
        if not bool(seq_contains(self.xs, x)):
            self.xs.append(x)

    def __contains__(self, x):
        return bool(seq_contains(self.xs, x))

    def contains(self, x):
        return seq_contains(self.xs, x)

    def __iter__(self):
        return iter(list(self.xs))

    def __len__(self):
        return len(self.xs)

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset)):
            return NotImplemented
        ys = list(o)
        if len(ys) != len(self.xs):
            return False
        return sand(*[sb(seq_contains(ys, x)) for x in self.xs])

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    def _other(self, o):
        return list(o)

    def __sub__(self, o):
        ys = list(o)
        return SymSet([x for x in self.xs if not bool(seq_contains(ys, x))])

    def __rsub__(self, o):
        return SymSet([x for x in o if not bool(seq_contains(self.xs, x))])

    difference = __sub__

    def __and__(self, o):
        ys = list(o)
        return SymSet([x for x in self.xs if bool(seq_contains(ys, x))])
    __rand__ = __and__
    intersection = __and__

    def __or__(self, o):
        return SymSet(list(self.xs) + list(o))
    __ror__ = __or__
    union = __or__

    def __xor__(self, o):
        return (self - o) | SymSet(list(o)).__sub__(self)

    def issubset(self, o):
        ys = list(o)
        return sand(*[sb(seq_contains(ys, x)) for x in self.xs])

    def issuperset(self, o):
        return sand(*[sb(seq_contains(self.xs, x)) for x in o])

    __le__ = issubset
    __ge__ = issuperset

    def update(self, o):
        for x in o:
            self.add(x)

    def remove(self, x):
        for i, y in enumerate(self.xs):
            if bool(sym_eq(x, y)):
                del self.xs[i]
                return
        raise KeyError(x)

    def discard(self, x):
        try:
            self.remove(x)
        except KeyError:
            pass

    def copy(self):
        return SymSet(self.xs)

    def __copy__(self):
        return SymSet(self.xs)

    def __deepcopy__(self, memo):
        return SymSet(self.xs)

    def __hash__(self):
        raise TypeError("unhashable type: 'set'")


SYM.add(SymSet)


class SymDict(_OD):
    """insertion-ordered mapping tolerating symbolic keys: those are kept in a side list
    and compared symbolically."""
    _ordered = True

    def __init__(self, *a, **k):
        _OD.__init__(self)
        self._ks = []
        self._vs = []
        if a:
            src = a[0]
            for kk, vv in (src.items() if hasattr(src, 'items') else src):
                self[kk] = vv
        for kk in k:
            self[kk] = k[kk]

    @property
    def __class__(self):
        return _OD

    def _idx(self, key):
        for i, k in enumerate(self._ks):
            if k is key or bool(sym_eq(k, key)):
                return i
        return -1

    def __setitem__(self, k, v):
        i = self._idx(k)
        if i >= 0:
            self._vs[i] = v
        else:
            self._ks.append(k)
            self._vs.append(v)

    def __getitem__(self, k):
        i = self._idx(k)
        if i < 0:
            raise KeyError(k)
        return self._vs[i]

    def __delitem__(self, k):
        i = self._idx(k)
        if i < 0:
            raise KeyError(k)
        del self._ks[i]
        del self._vs[i]

    def __contains__(self, k):
        return self._idx(k) >= 0

    def get(self, k, d=None):
        i = self._idx(k)
        return d if i < 0 else self._vs[i]

    def setdefault(self, k, d=None):
        i = self._idx(k)
        if i < 0:
            self[k] = d
            return d
        return self._vs[i]

    def pop(self, k, *d):
        i = self._idx(k)
        if i < 0:
            if d:
                return d[0]
            raise KeyError(k)
        v = self._vs[i]
        del self[k]
        return v

    def keys(self):
        return list(self._ks)

    def values(self):
        return list(self._vs)

    def items(self):
        return list(zip(self._ks, self._vs))

    def __iter__(self):
        return iter(list(self._ks))

    def __reversed__(self):
        return iter(list(reversed(self._ks)))

    def __len__(self):
        return len(self._ks)

    def update(self, *a, **k):
        if a:
            src = a[0]
            for kk, vv in (src.items() if hasattr(src, 'items') else src):
                self[kk] = vv
        for kk in k:
            self[kk] = k[kk]

    def clear(self):
        self._ks = []
        self._vs = []

    def copy(self):
        return SymDict(self.items())

    __copy__ = copy

    def __deepcopy__(self, memo):
        return SymDict((_copy.deepcopy(k, memo), _copy.deepcopy(v, memo)) for k, v in self.items())

    def __reduce__(self):
        return (SymDict, (self.items(),))

    def __eq__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        a, b = self.items(), list(o.items())
        if len(a) != len(b):
            return False
        if self._ordered and isinstance(o, _OD):
            return sand(*[sb(sym_eq(x, y)) for x, y in zip(a, b)])
        out = []
        for k, v in b:
            i = self._idx(k)
            if i < 0:
                return False
            out.append(sb(sym_eq(self._vs[i], v)))
        return sand(*out)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    __hash__ = None

    def __repr__(self):
        return 'SymDict(%r)' % (self.items(),)


class SymPlainDict(SymDict):
    """what {} makes where entries are going to be stored under computed keys"""
    _ordered = False

    @property
    def __class__(self):
        return dict

    def copy(self):
        return SymPlainDict(self.items())

    __copy__ = copy

    def __deepcopy__(self, memo):
        return SymPlainDict((_copy.deepcopy(k, memo), _copy.deepcopy(v, memo)) for k, v in self.items())


def sb(x):
    return x if type(x) is SymBool else bool(x)


def sym_eq(a, b):
    """structural equality, as a bool or SymBool, without forking on scalars"""
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta in SYM or tb in SYM:
        r = a == b
        return r if type(r) is SymBool else bool(r)
    if ta in (tuple, list) and ta is tb:
        if len(a) != len(b):
            return False
        out = []
        known = {}
        for x, y in zip(a, b):
            r = sym_eq(x, y)
            if r is False:
                return False
            if type(x) is SymStr and type(y) is str and len(y) == 1:
                # the same character cannot equal two different constants
                k = x._items()[0]
                if type(k) is SymInt and known.setdefault(k.t.get_id(), y) != y:
                    return False
            out.append(r)
        return sand(*out)
    if isinstance(a, dict) and isinstance(b, dict):
        ka, kb = list(a.keys()), list(b.keys())
        if len(ka) != len(kb):
            return False
        out = []
        if isinstance(a, _OD) and isinstance(b, _OD):
            for (k, v), (k2, v2) in zip(a.items(), b.items()):
                r = sand(sym_eq(k, k2), sym_eq(v, v2))
                if r is False:
                    return False
                out.append(r)
            return sand(*out)
        for k in ka:
            if k not in b:
                return False
            out.append(sym_eq(a[k], b[k]))
        return sand(*out)
    r = a == b
    return r if type(r) is SymBool else bool(r)


def seq_contains(xs, x):
    """x in xs for a sequence, as a SymBool when possible"""
    out = []
    for y in xs:
        if y is x:
            return True
        r = sym_eq(y, x)
        if r is True:
            return True
        if r is not False:
            out.append(r)
    return sor(*out)


# ---------------------------------------------------- operators from the AST

def contains(x, container):
    """x in container"""
    tc = type(container)
    if tc in (SymStr, SymBytes, SymByteArray, SymSet):
        return container.contains(x)
    if not deepsym(x) and not (tc is dict and (overlay(container) or objsym(x))):
        if tc in (list, tuple):
            if deepsym(container, 2):
                return seq_contains(container, x)
        return x in container
    # symbolic x
    if isinstance(container, (bytes, bytearray)):
        return SymBytes(list(container)).contains(x)
    if isinstance(container, str):
        if not isinstance(x, str):
            raise TypeError("'in <string>' requires string as left operand, not %s" % type(x).__name__)
        return SymStr([ord(c) for c in container]).contains(x)
    if isinstance(container, SymDict):
        return x in container
    if isinstance(container, dict):
        return _in_keys(x, list(container.keys()) + [k for k, _ in overlay(container)])
    if isinstance(container, (list, tuple, set, frozenset)):
        return _in_keys(x, list(container))
    if isinstance(container, range):
        return x in container if type(x) is int else seq_contains(container, x)
    if tc in (type({}.keys()), type({}.values())):
        return _in_keys(x, list(container))
    return x in container


def _in_keys(x, keys):
    """membership decided as one disjunction"""
    return seq_contains([k for k in keys if _comparable(k, x)], x)


def _comparable(k, x):
    kc, xc = k.__class__, x.__class__
    if kc is xc:
        return True
    if isinstance(k, (int, float)) and isinstance(x, (int, float)):
        return True
    return False


def objsym(x):
    """an object with symbolic state that can be used as a key of a dict"""
    tx = type(x)
    mod = tx.__module__
    if type(mod) is not str or not mod.startswith('symstd_'):
        return False
    for sl in getattr(tx, '__slots__', ()):
        if sl[0] == '_' and type(getattr(x, sl, None)) in SYM:
            return True
    return False


def keysym(x):
    return type(x) in SYM or (type(x) is tuple and deepsym(x)) or objsym(x)


def overlay(d):
    """entries with symbolic keys stored in the plain dict d on this path"""
    ov = T.engine().overlay
    e = ov.get(id(d)) if ov else None
    return e[1] if e is not None else ()


def dict_lookup(d, key):
    """(found, value) for a plain dict and a symbolic key"""
    cands = [(k, v) for k, v in overlay(d) if _comparable(k, key)] + [(k, d) for k in d.keys() if _comparable(k, key)]
    hits = [(k, sym_eq(k, key), v) for k, v in cands]
    hits = [(k, c, v) for k, c, v in hits if c is not False]
    if not hits:
        return False, None
    # a found/not-found split first, then the individual keys
    if not bool(sor(*[c for _, c, _ in hits])):
        return False, None
    for k, c, v in hits:
        if bool(c):
            return True, d[k] if v is d else v
    return False, None


def dict_store(d, key, value):
    es = overlay(d)
    for e in es:
        if _comparable(e[0], key) and bool(sym_eq(e[0], key)):
            e[1] = value
            return
    for k in list(d.keys()):
        if _comparable(k, key) and bool(sym_eq(k, key)):
            d[k] = value
            return
    T.engine().overlay.setdefault(id(d), (d, []))[1].append([key, value])


def getitem(o, i):
    to = type(o)
    if to is dict and (overlay(o) or objsym(i)):
        ok, v = dict_lookup(o, i)
        if not ok:
            raise KeyError('<symbolic key>')
        return v
    if type(i) in SYM or (type(i) is slice and (type(i.start) is SymInt or type(i.stop) is SymInt or type(i.step) is SymInt)) \
            or (type(i) is tuple and deepsym(i)):
        if to in (SymStr, SymBytes, SymByteArray):
            return o[i]
        if isinstance(o, (bytes, bytearray)):
            return SymBytes(list(o))[i]
        if isinstance(o, str):
            if type(i) is slice:
                its = S.slice_items([ord(c) for c in o], i)
                return ''.join(map(chr, its))
            return SymStr.make([S.get_item([ord(c) for c in o], i)])
        if to in (list, tuple):
            if type(i) is slice:
                return S.slice_items(o, i)
            return S.get_item(o, i)
        if isinstance(o, dict) and not isinstance(o, SymDict):
            ok, v = dict_lookup(o, i)
            if not ok:
                f = getattr(to, '__missing__', None)
                if f is not None:
                    return f(o, i)
                raise KeyError('<symbolic key>')
            return v
    return o[i]


def setitem(o, i, v):
    if isinstance(o, dict) and not isinstance(o, SymDict) and (keysym(i) or overlay(o)):
        if type(o) is not dict:
            raise Unsupported('symbolic key stored in a plain dict')
        dict_store(o, i, v)
        return
    if type(o) is bytearray and deepsym(v):
        raise Unsupported('bytearray store')
    o[i] = v


def delitem(o, i):
    if type(i) in SYM and isinstance(o, dict) and not isinstance(o, SymDict):
        for k in list(o.keys()):
            if _comparable(k, i) and bool(sym_eq(k, i)):
                del o[k]
                return
        raise KeyError('<symbolic key>')
    del o[i]


def iadd(a, b):
    """a += b"""
    if type(a) is bytearray:
        return SymByteArray(list(a)).__iadd__(b)
    return None


# ---------------------------------------------------------- method calls

def _sym_receiver_bytes(name):
    def f(o, *a, **k):
        return getattr(SymBytes(list(o)), name)(*a, **k)
    return f


def callm(o, name, /, *a, **k):
    """o.name(*a, **k)"""
    to = type(o)
    if to is str:
        if name == 'join':
            return join_str(o, a[0])
        if name == 'format':
            return sym_format(o, a, k)
        if deepsym(a, 2) or anysym((), k):
            if name == 'encode':
                return o.encode(*[T.engine().concretize_seq(x) if issym(x) else x for x in a], **k)
            return getattr(SymStr([ord(c) for c in o]), name)(*a, **k)
    elif to is bytes:
        if name == 'join':
            return join_bytes(o, a[0])
        if deepsym(a, 2):
            return getattr(SymBytes(list(o)), name)(*a, **k)
        if name == 'decode' and (a or k):
            enc = a[0] if a else k.get('encoding', 'utf-8')
            if type(enc) is str and enc.lower() in ('teletex', 'idna') or (len(a) > 1 or 'errors' in k):
                return S.decode(o, enc, *(a[1:] or ((k['errors'],) if 'errors' in k else ())))
    elif to is dict or to is _OD:
        if overlay(o) and name in ('items', 'keys', 'values', 'update', 'copy', 'popitem', 'clear', 'pop'):
            raise Unsupported('dict.%s with symbolic keys' % name)
        if a and (keysym(a[0]) or overlay(o)):
            if name == 'get':
                ok, v = dict_lookup(o, a[0])
                return v if ok else (a[1] if len(a) > 1 else None)
            if name in ('pop', 'setdefault'):
                ok, v = dict_lookup(o, a[0])
                if ok and name == 'setdefault':
                    return v
                if name == 'setdefault' and to is dict:
                    dict_store(o, a[0], a[1] if len(a) > 1 else None)
                    return a[1] if len(a) > 1 else None
                raise Unsupported('dict.%s with symbolic key' % name)
    elif to is list or to is tuple:
        if name in ('index', 'count', 'remove') and deepsym(a, 2):
            if name == 'index':
                for i, x in enumerate(o):
                    if bool(sym_eq(x, a[0])):
                        return i
                raise ValueError('not in list')
    elif to is set or to is frozenset:
        if name in ('add', 'update', 'remove', 'discard') and deepsym(a, 2):
            raise Unsupported('symbolic element stored in a plain set')
        if name in ('issubset', 'issuperset', 'union', 'difference', 'intersection') and deepsym(a, 2):
            return getattr(SymSet(o), name)(*a)
    elif to is int or to is bool:
        if name == 'to_bytes' and deepsym(a):
            return o.to_bytes(*[S.conc_index(x) if type(x) is SymInt else x for x in a], **k)
    elif o is int:
        if name == 'from_bytes' and a:
            return int_from_bytes(*a, **k)
    elif o is bytes or o is str or o is bytearray:
        if name == 'fromhex' and issym(a[0]):
            return unhex(a[0])
        if name == 'join':
            return callm(a[0], 'join', *a[1:])
    elif o is dict:
        if name == 'fromkeys' and deepsym(a, 2):
            return SymDict((x, a[1] if len(a) > 1 else None) for x in a[0])
    elif isinstance(o, _re.Pattern):
        from . import regex
        if deepsym(a, 1) or callable(a[0] if a else None):
            return regex.pattern_method(o, name, a, k)
    elif to is SymStr and name == 'format':
        return sym_format(o, a, k)
    f = getattr(o, name)
    return call(f, *a, **k)


def int_from_bytes(b, byteorder='big', signed=False):
    its = S._bytes_items(b)
    if its is None:
        its = list(b)
    if not any(type(x) is SymInt for x in its):
        return int.from_bytes(bytes(its), byteorder, signed=bool(signed))
    if byteorder == 'little':
        its = its[::-1]
    ts = [bv(x, 8) if type(x) is int else T.ext(x.t, 8, False) for x in its]
    t = ts[0] if len(ts) == 1 else z3.Concat(*ts)
    n = 8 * len(ts)
    if signed:
        f = its[0]
        flo, fhi = T.rng(f)
        hi = (1 << (n - 1)) - 1
        lo = -(1 << (n - 1))
        if flo >= 128:
            hi = -1
        if fhi < 128:
            return mk(t, flo << (n - 8), (fhi << (n - 8)) | ((1 << (n - 8)) - 1))
        return SymInt(t, lo, hi) if hi >= 0 else mk(t, lo, hi)
    lo = hi = 0
    for x in its:
        l, h = T.rng(x)
        lo, hi = (lo << 8) | l, (hi << 8) | h
    return mk(t, lo, hi)


def unhex(s):
    its = s._items()
    if type(s) is SymStr:
        pass
    if len(its) % 2:
        raise ValueError('non-hexadecimal number found')
    out = []
    for i in range(0, len(its), 2):
        c1, v1 = digit_value(its[i], 16)
        c2, v2 = digit_value(its[i + 1], 16)
        if not sand(c1, c2):
            raise ValueError('non-hexadecimal number found')
        out.append((_cl(v1, 16) << 4) | _cl(v2, 16))
    return bytes_from_iter(out)


# ----------------------------------------------------------- library models

_SIZES = {'B': 1, 'b': 1, 'H': 2, 'h': 2, 'I': 4, 'i': 4, 'L': 4, 'l': 4, 'Q': 8, 'q': 8}


def _struct_fmt(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode('ascii')
    order = 'big' if fmt[:1] in '!>' else 'little'
    body = fmt[1:] if fmt[:1] in '!><=@' else fmt
    out = []
    for n, c in _re.findall(r'(\d*)([a-zA-Z?])', body):
        if c == 's':
            out.append(('s', int(n or 1)))
        elif c in _SIZES:
            out.extend([(c, _SIZES[c])] * int(n or 1))
        else:
            raise Unsupported('struct format ' + fmt)
    return order, out


def m_struct_unpack(fmt, data):
    if not issym(data):
        return _struct.unpack(fmt, data)
    order, fs = _struct_fmt(fmt)
    if sum(n for _, n in fs) != len(data):
        raise _struct.error('unpack requires a buffer of %d bytes' % sum(n for _, n in fs))
    out = []
    p = 0
    for c, n in fs:
        ch = data[p:p + n]
        p += n
        out.append(ch if c == 's' else int_from_bytes(ch, order, c.islower()))
    return tuple(out)


def m_struct_pack(fmt, *a):
    if not anysym(a):
        return _struct.pack(fmt, *a)
    order, fs = _struct_fmt(fmt)
    if len(fs) != len(a):
        raise _struct.error('pack expected %d items' % len(fs))
    out = b''
    for (c, n), v in zip(fs, a):
        if c == 's':
            its = list(S._bytes_items(v))[:n]
            out = out + SymBytes.make(its + [0] * (n - len(its)))
            continue
        if not isinstance(v, int):
            raise _struct.error('required argument is not an integer')
        lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if c.islower() else (0, (1 << (8 * n)) - 1)
        if not bool(sand(v >= lo, v <= hi)):
            raise _struct.error('argument out of range')
        out = out + (v.to_bytes(n, order, signed=c.islower()))
    return out


B64 = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'


def _b64char(v):
    if type(v) is int:
        return B64[v]
    r = site(v < 26, v + 65, site(v < 52, v + 71, site(v < 62, v - 4, site(v == 62, 43, 47))))
    return mk(z3.Extract(7, 0, T.ext(r.t, max(8, r.t.size()), r.lo < 0)), 43, 122)


def m_b64encode(s, altchars=None):
    if not issym(s):
        return _base64.b64encode(s, altchars)
    if altchars is not None:
        raise Unsupported('altchars')
    b = s.b
    out = []
    for i in range(0, len(b), 3):
        q = b[i:i + 3]
        n = len(q)
        q = list(q) + [0] * (3 - n)
        v = [q[0] >> 2, ((q[0] & 3) << 4) | (q[1] >> 4), ((q[1] & 15) << 2) | (q[2] >> 6), q[2] & 63]
        cs = [_b64char(x) for x in v]
        if n == 1:
            cs[2:] = [61, 61]
        elif n == 2:
            cs[3] = 61
        out.extend(cs)
    return SymBytes.make(out)


def m_b2a_base64(s, newline=True):
    r = m_b64encode(s)
    return r + b'\n' if newline else r


def _b64val(c):
    """(valid, value) of a base64 alphabet byte"""
    if type(c) is int:
        i = B64.find(bytes([c]))
        return i >= 0, max(i, 0)
    up, lo, di = sand(c >= 65, c <= 90), sand(c >= 97, c <= 122), sand(c >= 48, c <= 57)
    v = site(up, c - 65, site(lo, c - 71, site(di, c + 4, site(c == 43, 62, 63))))
    v = mk(z3.Extract(5, 0, T.ext(v.t, max(6, v.t.size()), v.lo < 0)), 0, 63) if type(v) is SymInt else v
    return sor(up, lo, di, c == 43, c == 47), v


def m_b64decode(s, altchars=None, validate=False):
    if type(s) is SymStr:
        s = S.encode(s, 'ascii')
    if not issym(s):
        return _base64.b64decode(bytes(s) if isinstance(s, SymByteArray) else s, altchars, validate)
    if altchars is not None or validate:
        raise Unsupported('b64decode options')
    return m_a2b_base64(s)


def m_a2b_base64(s, **kw):
    """binascii.a2b_base64, non-strict mode (CPython 3.12)"""
    if type(s) is SymStr:
        s = S.encode(s, 'ascii')
    if not issym(s):
        return _binascii.a2b_base64(s)
    out = []
    quad = 0
    pads = 0
    left = 0
    for c in s.b:
        if bool(c == 61):
            if quad >= 2:
                pads += 1
                if quad + pads >= 4:
                    return bytes_from_iter(out)
            continue
        ok, v = _b64val(c)
        if not bool(ok):
            continue
        pads = 0
        if quad == 0:
            quad, left = 1, v
        elif quad == 1:
            quad = 2
            out.append((left << 2) | (v >> 4))
            left = v & 15
        elif quad == 2:
            quad = 3
            out.append((left << 4) | (v >> 2))
            left = v & 3
        else:
            quad = 0
            out.append((left << 6) | v)
            left = 0
    if quad:
        if quad == 1:
            raise _binascii.Error('Invalid base64-encoded string')
        raise _binascii.Error('Incorrect padding')
    return bytes_from_iter(out)


def m_hexlify(b, *a):
    if issym(b) and not a:
        return S.encode(b.hex(), 'ascii')
    return _binascii.hexlify(b, *a)


def m_unhexlify(s):
    if issym(s):
        try:
            return unhex(s)
        except ValueError:
            raise _binascii.Error('Non-hexadecimal digit found')
    return _binascii.unhexlify(s)


def m_charmap_decode(inp, errors='strict', mapping=None):
    if not issym(inp):
        return _codecs.charmap_decode(inp, errors, mapping)
    if type(mapping) is not str:
        raise Unsupported('charmap mapping')
    return S.charmap_decode(inp, 'charmap', mapping, errors), len(inp)


_charmaps = {}


def m_charmap_build(table):
    m = _codecs.charmap_build(table)
    _charmaps[id(m)] = (m, table)
    return m


def m_charmap_encode(inp, errors='strict', mapping=None):
    if not issym(inp):
        return _codecs.charmap_encode(inp, errors, mapping)
    if errors != 'strict':
        raise Unsupported('charmap errors')
    if isinstance(mapping, dict):
        pairs = [(k, v) for k, v in mapping.items() if type(k) is int and type(v) is int]
    else:
        ent = _charmaps.get(id(mapping))
        if ent is None:
            raise Unsupported('charmap')
        pairs = []
        for ch in sorted(set(ent[1])):
            try:
                pairs.append((ord(ch), _codecs.charmap_encode(ch, 'strict', mapping)[0][0]))
            except UnicodeEncodeError:
                pass
    return S.charmap_encode(inp._items(), 'charmap', pairs), len(inp)


def m_codecs_register(fn):
    S.codec_search.append(fn)


def m_codecs_register_error(name, fn):
    S.error_handlers[name] = fn


def m_codecs_encode(s, enc='utf-8', errors='strict'):
    return callm(s, 'encode', enc, errors)


def m_codecs_decode(s, enc='utf-8', errors='strict'):
    return callm(s, 'decode', enc, errors)


def m_math_ceil(x):
    if type(x) in (SymRat, SymOpen, SymFrac, SymInt):
        return x.__ceil__()
    return _math.ceil(x)


def m_math_floor(x):
    if type(x) in (SymRat, SymOpen, SymFrac, SymInt):
        return x.__floor__()
    return _math.floor(x)


def m_math_log(x, *b):
    if type(x) is SymInt:
        return sym_log(x, *b)
    return _math.log(x, *b)


def m_math_log2(x):
    if type(x) is SymInt:
        return sym_log(x, 2)
    return _math.log2(x)


def m_modf(x):
    if type(x) is SymInt:
        return 0.0, x
    return _math.modf(x)


class SymBytesIO(object):
    def __init__(self, data=b''):
        self.d = data
        self.pos = 0

    def _next(self):
        its = S._bytes_items(self.d)
        n = len(its)
        if self.pos >= n:
            return b''
        j = self.pos
        while j < n:
            j += 1
            if bool(its[j - 1] == 10):
                break
        r = SymBytes.make(its[self.pos:j])
        self.pos = j
        return r

    def readline(self, *a):
        return self._next()

    def readlines(self, *a):
        return list(self)

    def __iter__(self):
        while True:
            r = self._next()
            if not len(r):
                return
            yield r

    def __next__(self):
        r = self._next()
        if not len(r):
            raise StopIteration
        return r

    def read(self, n=None):
        its = S._bytes_items(self.d)
        j = len(its) if n is None or n < 0 else min(len(its), self.pos + n)
        r = SymBytes.make(its[self.pos:j])
        self.pos = j
        return r

    def getvalue(self):
        return self.d

    def write(self, b):
        self.d = self.d + b
        return len(b)

    def seek(self, p, w=0):
        self.pos = p
        return p

    def tell(self):
        return self.pos

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def m_BytesIO(*a):
    return SymBytesIO(*a)


class SymStringIO(object):
    def __init__(self, s=''):
        self.s = s

    def write(self, t):
        self.s = self.s + t
        return len(t)

    def getvalue(self):
        return self.s


def m_StringIO(*a):
    return SymStringIO(*a)


def m_hash_ctor(real):
    def f(*a, **k):
        if a and issym(a[0]):
            T.engine().note('hash of symbolic bytes (concretised)')
        return real(*[T.engine().concretize_seq(x) if issym(x) else x for x in a], **k)
    return f


_inert_tab = {}


def inert_ranges(form):
    """characters that normalisation never changes, whatever stands next to them, as long as all of them are such"""
    r = _inert_tab.get(form)
    if r is None:
        seconds = set()
        for cp in range(0x110000):
            d = _unicodedata.decomposition(chr(cp))
            if d and not d.startswith('<'):
                seconds.update(int(p, 16) for p in d.split()[1:])
        r = []
        for cp in range(0x110000):
            c = chr(cp)
            if (cp < 128 or (_unicodedata.normalize(form, c) == c and not _unicodedata.combining(c) and cp not in seconds
                             and not 0x1100 <= cp <= 0x11ff and not 0xac00 <= cp <= 0xd7ff)):
                if r and r[-1][1] == cp - 1:
                    r[-1] = (r[-1][0], cp)
                else:
                    r.append((cp, cp))
        _inert_tab[form] = r
    return r


def m_unicodedata_normalize_with(ud):
    def f(form, s):
        if type(s) is not SymStr:
            return ud.normalize(form, s)
        its = s._items()
        if all((x if type(x) is int else x.hi) < 128 for x in its) or bool(sand(*[x < 128 for x in its])):
            return SymStr.make([S._narrow(x, 127) for x in its])
        r = inert_ranges(form)
        if bool(sand(*[S.in_ranges(x, r) for x in its])):
            return s
        return ud.normalize(form, T.engine().concretize_seq(s))
    return f


m_unicodedata_normalize = m_unicodedata_normalize_with(_unicodedata)


def m_stringprep_pred(name):
    real = getattr(_stringprep, name)

    def f(c):
        if type(c) is not SymStr:
            return real(c)
        return S.in_ranges(c._items()[0], S.pred_ranges(real, 'stringprep.' + name))
    return f


_map_tab = {}


def m_char_map(real, name):
    """a function from a character to a string, tabulated"""
    def f(c):
        if type(c) is not SymStr:
            return real(c)
        x = c._items()[0]
        if type(x) is int:
            return real(chr(x))
        key = (name, x.lo, x.hi) if x.hi - x.lo < 4096 else (name, 0, 0x10ffff)
        tab = _map_tab.get(key)
        if tab is None:
            deltas = {}
            multi = []
            for cp in range(key[1], key[2] + 1):
                r = real(chr(cp))
                if len(r) != 1:
                    multi.append(cp)
                elif ord(r) != cp:
                    deltas.setdefault(ord(r) - cp, []).append(cp)
            tab = _map_tab[key] = (deltas, multi)
        deltas, multi = tab
        m = [cp for cp in multi if x.lo <= cp <= x.hi]
        if m and S.truth(S.in_set(x, m)):
            return real(chr(T.engine().concretize(x)))
        r = x
        for d, cps in deltas.items():
            cps = [cp for cp in cps if x.lo <= cp <= x.hi]
            if cps:
                r = S.site(S.in_set(x, cps), x + d, r)
        if type(r) is T.SymInt:
            r = S.mk(r.t, max(r.lo, 0), min(r.hi, 0x10ffff)) if r.lo >= 0 else S.mk(z3.Extract(20, 0, T.ext(r.t, max(21, r.t.size()), True)), 0, 0x10ffff)
        return SymStr.make([r])
    return f


def m_unicodedata_1(name):
    real = getattr(_unicodedata, name)

    def f(c, *a):
        if type(c) is SymStr:
            return real(T.engine().concretize_seq(c), *a)
        return real(c, *a)
    return f


def m_ud_category(c):
    """fork on the category class of a symbolic character"""
    if type(c) is not SymStr:
        return _unicodedata.category(c)
    x = c._items()[0]
    if type(x) is int:
        return _unicodedata.category(chr(x))
    cats = {}
    for cp in range(x.lo, x.hi + 1):
        k = _unicodedata.category(chr(cp))
        r = cats.setdefault(k, [])
        if r and r[-1][1] == cp - 1:
            r[-1] = (r[-1][0], cp)
        else:
            r.append((cp, cp))
    for k in sorted(cats):
        if bool(S.in_ranges(x, cats[k])):
            return k
    raise Unsupported('category')


def m_inet_pton(fam, addr):
    if issym(addr) and type(addr) is SymStr and fam in (_socket.AF_INET, _socket.AF_INET6):
        from . import instrument
        h = instrument.load_hlib('hlib')
        cs = [ord(x) if type(x) is str else x for x in addr._items()]
        if any(bool(c == 0) for c in cs):
            raise ValueError('embedded null character')
        r = (h.ref4 if fam == _socket.AF_INET else h.ref6)(_Plain, cs)
        if r is None:
            raise OSError('illegal IP address string passed to inet_pton')
        return S.SymBytes.make(list(r))
    if issym(addr):
        addr = T.engine().concretize_seq(addr)
    return _socket.inet_pton(fam, addr)


class _Plain(object):
    @staticmethod
    def all(*cs):
        return all(bool(c) for c in cs)


def m_inet_ntop(fam, b):
    if issym(b):
        if len(b) != (4 if fam == _socket.AF_INET else 16):
            raise ValueError('invalid length of packed IP address string')
        if fam == _socket.AF_INET:
            return join_str('.', [int_to_dec(x) for x in b.b])
        return ntop6(b)
    return _socket.inet_ntop(fam, b)


def ntop6(b):
    """glibc inet_ntop for AF_INET6"""
    words = [(b.b[2 * i] << 8) | b.b[2 * i + 1] for i in range(8)]
    z = [bool(w == 0) for w in words]
    best, bl, i = -1, 0, 0
    while i < 8:
        if z[i]:
            j = i
            while j < 8 and z[j]:
                j += 1
            if j - i > bl:
                best, bl = i, j - i
            i = j
        else:
            i += 1
    if bl < 2:
        best = -1
    out = []
    i = 0
    while i < 8:
        if best != -1 and best <= i < best + bl:
            if i == best:
                out.append(':')
            i += 1
            continue
        if i:
            out.append(':')
        if i == 6 and best == 0 and (bl == 6 or (bl == 5 and bool(words[5] == 0xffff))):
            out.append(join_str('.', [int_to_dec(x) for x in b.b[12:16]]))
            break
        out.append(to_base(words[i], 16))
        i += 1
    if best != -1 and best + bl == 8:
        out.append(':')
    return join_str('', out)


def m_strftime(fmt, t=None):
    """time.strftime for the C locale on Linux (glibc): %Y and %G are not zero padded"""
    tt = list(t) if t is not None else None
    if tt is None or not (issym(fmt) or deepsym(tt)):
        return _time.strftime(fmt, *([t] if t is not None else []))
    if issym(fmt):
        its = fmt._items()
        if any(type(x) is not int and not (type(x) is SymInt and (x.lo > 37 or x.hi < 37)) for x in its):
            fmt = T.engine().concretize_seq(fmt)
        else:
            fmt = [chr(x) if type(x) is int else SymStr.make([x]) for x in its]
    y, mo, d, h, mi, s = tt[:6]
    out = []
    i = 0
    while i < len(fmt):
        c = fmt[i]
        if type(c) is not str or c != '%':
            out.append(c)
            i += 1
            continue
        c = fmt[i + 1]
        i += 2
        if c == 'Y':
            out.append(int_to_dec(y) if issym(y) else str(y))
        elif c == 'y':
            out.append(fmt_int2(y % 100, 2))
        elif c == 'm':
            out.append(fmt_int2(mo, 2))
        elif c == 'd':
            out.append(fmt_int2(d, 2))
        elif c == 'H':
            out.append(fmt_int2(h, 2))
        elif c == 'M':
            out.append(fmt_int2(mi, 2))
        elif c == 'S':
            out.append(fmt_int2(s, 2))
        elif c == '%':
            out.append('%')
        else:
            raise Unsupported('strftime %' + c)
    return join_str('', out)


def fmt_int2(v, w):
    return dec_padded(v, w) if issym(v) else str(v).rjust(w, '0')


def m_copy(x):
    if issym(x):
        return x.__copy__() if hasattr(x, '__copy__') else x
    return _copy.copy(x)


def m_deepcopy(x, *a):
    if issym(x):
        return x.__deepcopy__(None) if hasattr(x, '__deepcopy__') else x
    return _copy.deepcopy(x, *a)


def m_isclass(x):
    return False if issym(x) else _inspect.isclass(x)


def _attr_name(o, name):
    """the attribute of o that a symbolic name is equal to on this path, or None"""
    for n in dir(o):
        if len(n) == len(name) and bool(sym_eq(name, n)):
            return n
    return None


def m_hasattr(o, name):
    if issym(name):
        name = _attr_name(o, name)
        return name is not None and hasattr(o, name)
    return hasattr(o, name)


def m_setattr(o, name, value):
    if issym(name):
        n = _attr_name(o, name)
        if n is None:
            n = T.engine().concretize_seq(name)
        name = n
    setattr(o, name, value)


def m_getattr(o, name, *d):
    if issym(name):
        name = T.engine().concretize_seq(name)
    return getattr(o, name, *d)


def m_repr(x):
    return '<symbolic>' if issym(x) else repr(x)


def m_od(*a, **k):
    return SymDict(*a, **k)


def m_sorted(it, key=None, reverse=False):
    xs = list(it)
    # insertion sort (stable): the same comparisons any sort would need on few items
    if not any(deepsym(key(x) if key else x) for x in xs):
        return sorted(xs, key=key, reverse=reverse)
    ks = [(key(x) if key else x) for x in xs]
    idx = []
    for i in range(len(xs)):
        j = len(idx)
        while j > 0 and _lt(ks[i], ks[idx[j - 1]], reverse):
            j -= 1
        idx.insert(j, i)
    return [xs[i] for i in idx]


def _lt(a, b, rev):
    if type(a) is tuple and type(b) is tuple:
        for x, y in zip(a, b):
            if bool(sym_eq(x, y)):
                continue
            return bool(y < x) if rev else bool(x < y)
        return len(a) > len(b) if rev else len(a) < len(b)
    return bool(b < a) if rev else bool(a < b)


def m_re(name):
    def f(pat, *a, **k):
        from . import regex
        strpos = 1 if name in ('sub', 'subn') else 0
        if len(a) > strpos and (issym(a[strpos]) or (name in ('sub', 'subn') and (callable(a[0]) or issym(a[0])))) or issym(pat):
            return regex.module_call(name, pat, a, k)
        return getattr(_re, name)(pat, *a, **k)
    return f


def m_re_compile(p, *a, **k):
    from . import regex
    if issym(p):
        return regex.SymPattern(p, *a, **k)
    return _re.compile(p, *a, **k)


def m_re_escape(p):
    if not issym(p):
        return _re.escape(p)
    special = [ord(c) for c in '()[]{}?*+-|^$\\.&~# \t\n\r\v\f']
    out = []
    for x in p._items():
        if bool(S.in_set(x, special)):
            out.append(92)
        out.append(x)
    return p._mk(out)


def m_enumerate(it, start=0):
    return enumerate(it, start)


def m_zlib(real):
    def f(b, *a, **k):
        if issym(b):
            b = T.engine().concretize_seq(b)
        return real(b, *a, **k)
    return f


def m_super_object(*a):
    raise Unsupported('super')


DISPATCH = {}


def reg(real, model):
    try:
        DISPATCH[real] = model
    except TypeError:
        pass


for _r, _m in [
    (int, m_int), (str, m_str), (bytes, m_bytes), (bytearray, m_bytearray), (ord, m_ord), (chr, m_chr),
    (len, m_len), (type, m_type), (bool, m_bool), (float, m_float), (hex, m_hex), (bin, m_bin),
    (format, m_format), (map, m_map), (filter, m_filter), (range, m_range), (sum, m_sum), (min, m_min),
    (max, m_max), (divmod, m_divmod), (pow, m_pow), (round, m_round), (set, m_set), (repr, m_repr),
    (sorted, m_sorted), (getattr, m_getattr), (hasattr, m_hasattr), (setattr, m_setattr), (_OD, m_od),
    (_struct.unpack, m_struct_unpack), (_struct.pack, m_struct_pack),
    (_base64.b64encode, m_b64encode), (_base64.b64decode, m_b64decode),
    (_base64.standard_b64encode, m_b64encode), (_base64.standard_b64decode, m_b64decode),
    (_binascii.b2a_base64, m_b2a_base64), (_binascii.a2b_base64, m_a2b_base64),
    (_binascii.hexlify, m_hexlify), (_binascii.unhexlify, m_unhexlify),
    (_binascii.b2a_hex, m_hexlify), (_binascii.a2b_hex, m_unhexlify),
    (_codecs.charmap_decode, m_charmap_decode), (_codecs.charmap_encode, m_charmap_encode),
    (_codecs.charmap_build, m_charmap_build), (_codecs.register, m_codecs_register),
    (_codecs.register_error, m_codecs_register_error),
    (_codecs.encode, m_codecs_encode), (_codecs.decode, m_codecs_decode),
    (_math.ceil, m_math_ceil), (_math.floor, m_math_floor), (_math.log, m_math_log), (_math.log2, m_math_log2),
    (_math.modf, m_modf),
    (_io.BytesIO, m_BytesIO), (_io.StringIO, m_StringIO),
    (_hashlib.sha1, m_hash_ctor(_hashlib.sha1)), (_hashlib.sha256, m_hash_ctor(_hashlib.sha256)),
    (_unicodedata.normalize, m_unicodedata_normalize),
    (_unicodedata.ucd_3_2_0.normalize, m_unicodedata_normalize_with(_unicodedata.ucd_3_2_0)),
    (_stringprep.map_table_b2, m_char_map(_stringprep.map_table_b2, 'map_table_b2')), (_stringprep.map_table_b3, m_char_map(_stringprep.map_table_b3, 'map_table_b3')), (_unicodedata.category, m_ud_category),
    (_unicodedata.combining, m_unicodedata_1('combining')), (_unicodedata.bidirectional, m_unicodedata_1('bidirectional')),
    (_unicodedata.decimal, m_unicodedata_1('decimal')),
    (_socket.inet_pton, m_inet_pton), (_socket.inet_ntop, m_inet_ntop),
    (_time.strftime, m_strftime), (_copy.copy, m_copy), (_copy.deepcopy, m_deepcopy),
    (_inspect.isclass, m_isclass),
    (_re.match, m_re('match')), (_re.search, m_re('search')), (_re.fullmatch, m_re('fullmatch')),
    (_re.sub, m_re('sub')), (_re.split, m_re('split')), (_re.findall, m_re('findall')), (_re.finditer, m_re('finditer')),
    (_re.subn, m_re('subn')),
    (_re.compile, m_re_compile), (_re.escape, m_re_escape),
    (_zlib.compress, m_zlib(_zlib.compress)), (_zlib.decompress, m_zlib(_zlib.decompress)),
    (int.from_bytes, int_from_bytes), (_fractions.Fraction, m_fraction),
]:
    reg(_r, _m)
for _n in dir(_stringprep):
    if _n.startswith('in_table_'):
        reg(getattr(_stringprep, _n), m_stringprep_pred(_n))

_BUILTIN_METHOD = type([].append)


def call(f, /, *a, **k):
    try:
        m = DISPATCH.get(f)
    except TypeError:
        m = None
    if m is not None:
        return m(*a, **k)
    if type(f) is _BUILTIN_METHOD and (anysym(a, k) or deepsym(a, 2)):
        # bound method of a builtin object that escaped callm
        o = f.__self__
        if isinstance(o, (str, bytes, dict, set)) and not isinstance(o, (_types.ModuleType, SymDict)):
            return callm_noloop(o, f.__name__, f, a, k)
    return f(*a, **k)


def callm_noloop(o, name, f, a, k):
    to = type(o)
    if to in (str, bytes, set, list) or (to in (dict, _OD) and deepsym(a[:1], 3)):
        return callm(o, name, *a, **k) if name in _MODELLED.get(to, ()) else f(*a, **k)
    return f(*a, **k)


_MODELLED = {
    str: ('join', 'format', 'replace', 'split', 'find', 'startswith', 'endswith', 'index', 'count', 'strip'),
    bytes: ('join', 'replace', 'split', 'find', 'startswith', 'endswith', 'index', 'count', 'strip'),
    dict: ('get',), _OD: ('get',), set: (), list: ('index',),
}


def fstr(parts):
    out = []
    for p in parts:
        if type(p) is tuple:
            v, conv, spec = p
            if conv == 'r':
                v = m_repr(v)
            elif conv == 's':
                v = m_str(v)
            out.append(m_format(v, spec) if issym(v) else (m_str(v) if not spec else format(v, spec)))
        else:
            out.append(p)
    return join_str('', out)


def getclass(o):
    return o.__class__
