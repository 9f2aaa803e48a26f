import socket

from pysym.harness import Harness
from hlib import named, ref4, ref6

MODULES = ('core', 'parser', 'util', '_inet')

V4, V6 = socket.AF_INET, socket.AF_INET6


# ---------------------------------------------------------------- the oracle: RFC 4291 section 2.2 and RFC 5952 section 4

def decimal(ctx, b):
    if ctx.all(b >= 100):
        return [48 + b // 100, 48 + b // 10 % 10, 48 + b % 10]
    if ctx.all(b >= 10):
        return [48 + b // 10, 48 + b % 10]
    return [48 + b]


def hexdigit(ctx, v):
    return ctx.ite(v < 10, 48 + v, 87 + v)


def hexadecimal(ctx, g):
    out = [hexdigit(ctx, g & 15)]
    for s in (4, 8, 12):
        if ctx.all(g < 1 << s):
            break
        out.insert(0, hexdigit(ctx, (g >> s) & 15))
    return out


def canonical(ctx, d):
    gs = [d[2 * i] * 256 + d[2 * i + 1] for i in range(8)]
    zero = [ctx.all(g == 0) for g in gs]
    best, at = 1, None
    i = 0
    while i < 8:
        j = i
        while j < 8 and zero[j]:
            j += 1
        if j - i > best:
            best, at = j - i, i
        i = j + 1
    out = []
    i = 0
    while i < 8:
        if i == at:
            out.extend([58, 58])
            i += best
            continue
        if out and not (at is not None and i == at + best):
            out.append(58)
        out.extend(hexadecimal(ctx, gs[i]))
        i += 1
    return out


def chars(s):
    return [ord(c) for c in s]


# ---------------------------------------------------------------- the harnesses

def there(ctx, fam, d, want):
    inet = ctx.lib._inet
    t = inet.inet_ntop(fam, d)
    ctx.check(len(t) == len(want), 'the canonical form')
    ctx.check(ctx.eq(t.encode('ascii'), ctx.byte_str(want)), 'the canonical form')
    ctx.check(ctx.eq(inet.inet_pton(fam, t), d), 'and back')
    ctx.reach('printed')


def four(ctx, first, n):
    """every IPv4 address, some octets at a time"""
    d = bytes([9, 42, 137, 200])
    d = d[:first] + ctx.bytes('d', n) + d[first + n:]
    want = []
    for i in range(4):
        want.extend(([46] if i else []) + decimal(ctx, d[i]))
    there(ctx, V4, d, want)


def zeros(ctx, k):
    """every arrangement of zero groups"""
    gs = []
    for i in range(8):
        if i < k:
            z = ctx.bool('z%d' % i)
            gs.append(b'\0\0' if z else b'\0' + ctx.bytes_in('g%d' % i, 1, [(1, 15)]))
        else:
            gs.append(b'\0\0' if (i * 5 + k) % 3 else b'\x01\x02')
    d = b''.join(gs)
    there(ctx, V6, d, canonical(ctx, d))


def group(ctx, first, n, base):
    """any groups within an address"""
    d = bytes(bytearray.fromhex(base))
    d = d[:first] + ctx.bytes('d', n) + d[first + n:]
    there(ctx, V6, d, canonical(ctx, d))


def read(ctx, fam, s):
    inet = ctx.lib._inet
    want = (ref4 if fam == V4 else ref6)(ctx, chars(s))
    st, r = ctx.attempt(inet.inet_pton, fam, s)
    if st == 'err':
        ctx.check(isinstance(r, ValueError), 'refused with ValueError, not %s' % type(r).__name__)
        ctx.check(want is None, 'a legal form is read')
        ctx.reach('refused')
        return
    ctx.check(want is not None, 'an illegal form is refused')
    if want is not None:
        ctx.check(ctx.eq(r, ctx.byte_str(want)), 'the address it denotes')
        if fam == V4:
            canon = [c for i in range(4) for c in ([46] if i else []) + decimal(ctx, r[i])]
        else:
            canon = canonical(ctx, r)
        ctx.check(ctx.eq(inet.inet_ntop(fam, r).encode('ascii'), ctx.byte_str(canon)), 'printed again in the canonical form')
        ctx.reach('read')


ANY = [(0, 0x10ffff)]
FEW = {4: [(46, 46), (48, 57)], 6: [(46, 46), (48, 49), (58, 58), (65, 65), (102, 103)]}


def text(ctx, fam, before, n, after, which):
    """text with any characters in it"""
    s = ctx.text('s', n, ANY if which == 'any' else FEW[6 if fam == V6 else 4])
    read(ctx, fam, before + s + after)


def shape(ctx, a, b, gap):
    """a groups, perhaps a gap, and b groups"""
    gs = []
    for i in range(a + b):
        if i in (0, a - 1, a, a + b - 1):
            gs.append('1' + ctx.text('g%d' % i, 1, [(48, 57), (97, 102), (65, 70)]))
        else:
            gs.append('a%d' % i)
    left, right = ':'.join(gs[:a]), ':'.join(gs[a:])
    s = left + '::' + right if gap else ':'.join(gs)
    read(ctx, V6, s)


def mixed(ctx, before, n):
    """the last 32 bits as an IPv4 address"""
    s = ctx.text('s', n, [(46, 46), (48, 57), (58, 58)])
    read(ctx, V6, before + s)


def wrong(ctx, what):
    inet = ctx.lib._inet
    n = ctx.choice('n', [0, 1, 3, 4, 5, 15, 16, 17])
    d = bytes(17)[:n]
    if what == 'family':
        for f in (lambda: inet.inet_ntop(99, d), lambda: inet.inet_pton(99, '1.2.3.4')):
            st, e = ctx.attempt(f)
            ctx.check(st == 'err' and isinstance(e, ValueError), 'an unknown family')
    elif what == 'length':
        for fam, k in ((V4, 4), (V6, 16)):
            st, e = ctx.attempt(inet.inet_ntop, fam, d)
            ctx.check(st == 'ok' if n == k else isinstance(e, ValueError), 'a wrong length')
    else:
        for f in (lambda: inet.inet_ntop(V4, '1.2.3.4'), lambda: inet.inet_pton(V4, b'1.2.3.4'), lambda: inet.inet_pton(V6, d)):
            st, e = ctx.attempt(f)
            ctx.check(st == 'err' and isinstance(e, TypeError), 'a wrong type')
    ctx.reach('refused')


BASES = ['0000' * 8, '20010db8' + '0000' * 5 + '0001', '0001000200030004000500060007abcd', 'fe80' + '0000' * 3 + '0202b3fffe1e8329',
         '0000' * 5 + 'ffff' + 'c0000201', 'ff01' + '0000' * 7, '0000' * 2 + '0001' + '0000' * 3 + '0001' + '0000']


def text_cases(tier):
    out = []
    q = tier == 'quick'
    for n in (range(0, 4) if q else range(0, 6)):
        out.append((V4, '', n, '', 'any'))
        out.append((V6, '', n, '', 'any'))
    for n in ((1, 2, 3, 4) if q else (1, 2, 3, 4, 5, 6)):
        out.append((V4, '', n, '.2.3.4', 'few'))
        out.append((V4, '1.', n, '.4', 'few'))
        out.append((V4, '1.2.3', n, '', 'few'))
    for n in ((7,) if q else (7, 8, 9)):
        out.append((V4, '', n, '', 'few'))
    for n in (1, 2):
        out.append((V4, '1.2.', n, '.4', 'any'))
        out.append((V4, '1.2.3.', n, '', 'any'))
        out.append((V4, '', n, '1.2.3.4', 'any'))
        out.append((V4, '1.2.3.4', n, '', 'any'))
        out.append((V6, '1:2:3:4:5:6:7:', n, '', 'any'))
        out.append((V6, '', n, ':2:3:4:5:6:7:8', 'any'))
        out.append((V6, '1::', n, '', 'any'))
        out.append((V6, '::1', n, '', 'any'))
        out.append((V6, '', n, '::', 'any'))
        out.append((V6, '1:2:3', n, '6:7:8', 'any'))
        out.append((V6, '::1.2.3.', n, '', 'any'))
        out.append((V6, '::', n, '.2.3.4', 'any'))
    for n in ((1, 2, 3, 4) if q else (1, 2, 3, 4, 5)):
        out.append((V6, '', n, '', 'few'))
        out.append((V6, '1:2:3:4:5:6', n, '', 'few'))
        out.append((V6, '::', n, '', 'few'))
        out.append((V6, '', n, ':1', 'few'))
    for n in (3, 4):
        out.append((V6, '1:2:3', n, '6:7:8', 'few'))
    out.append((V6, '1:2:3:4:5:6:7:8', 1, '', 'any'))
    out.append((V6, '1:2:3:4:5:6:7:', 5, '', 'few'))
    return out


HARNESSES = [
    Harness('four', four, named('first n', lambda tier: [(i, 1) for i in range(4)] + [(0, 2), (1, 2), (2, 2)] + ([] if tier == 'quick' else [(0, 3), (1, 3), (0, 4)])),
            ['printed'], bounds='any one or two adjacent (all) octets'),
    Harness('zeros', zeros, named('k', lambda tier: [(8,)] if tier == 'quick' else [(8,), (7,), (6,), (5,)]), ['printed'],
            bounds='each of the eight groups zero or any of 1 to 15: all arrangements'),
    Harness('group', group, named('first n base', lambda tier: [(2 * i, 2, b) for b in BASES for i in range(8)][::(1 if tier != 'quick' else 2)] + [
        (2 * i, 4, b) for b in BASES for i in range(7)][::(1 if tier != 'quick' else 9)]), ['printed'], bounds='any one or two adjacent groups of the listed addresses'),
    Harness('text', text, named('fam before n after which', text_cases), ['read', 'refused'],
            bounds='any text of up to 3 (5) characters, any 1-2 characters within or around addresses, and up to 4-7 (5-9) characters out of digits and separators'),
    Harness('shape', shape, named('a b gap', [(a, b, g) for a in range(0, 10) for b in range(0, 10) for g in (False, True) if a + b <= 9 and (g or b == 0)]), ['read', 'refused'],
            bounds='every number of groups before and after a gap, up to nine in all, the outer ones being anything'),
    Harness('mixed', mixed, named('before n', lambda tier: [(b, n) for b in ('::', '::1.2.3.', '1:2:3:4:5:6:', '1:2:3:4:5:6:1.2.', '1:2:3:4:5:6:7:1.2.3', '1:2:3:4:5::1.2.3', '1::2:1.2.3')
                                                            for n in ((2, 3) if tier == 'quick' else (2, 3, 4, 5))] + [('::1', 6), ('::ffff:', 7)]), ['read', 'refused'],
            bounds='2-3 (2-5) characters out of digits, dots and colons'),
    Harness('wrong', wrong, named('what', [('family',), ('length',), ('type',)]), ['refused']),
]
