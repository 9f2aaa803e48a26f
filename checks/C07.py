from pysym.harness import Harness
from hlib import zoo, encode, ref_tlv

MODULES = ('core', 'parser', 'util', 'x509', 'keys', 'tsp')


def bit(ctx, data, i):
    """bit i of a byte string, most significant first"""
    return (data[i // 8] >> (7 - i % 8)) & 1


def bits_are(ctx, contents, bits):
    """contents of a bit string encoding are exactly these bits, zero padded"""
    n = len(bits)
    octets = (n + 7) // 8
    if len(contents) != octets + 1:
        return False
    conds = [ctx.eq(contents[0], octets * 8 - n)]
    for i in range(octets * 8):
        conds.append(ctx.eq(bit(ctx, contents[1:], i), bits[i] if i < n else 0))
    return ctx.all(*conds)


def valid(ctx, c):
    """legal contents of a primitive bit string: condition"""
    if len(c) == 0:
        return False
    if len(c) == 1:
        return ctx.eq(c[0], 0)
    return c[0] <= 7


def from_tuple(ctx, n):
    core = ctx.lib.core
    bits = tuple(ctx.int('b%d' % i, 0, 1) for i in range(n))
    o = core.BitString(bits)
    ctx.check(bits_are(ctx, o.contents, bits), 'the encoding is the bits, zero padded, with the number of unused bits')
    ctx.check(ctx.eq(o.native, bits), 'built value reads back')
    w = core.BitString.load(o.dump(), strict=True)
    ctx.check(ctx.eq(w.native, bits), 'decoded value reads back')
    ctx.check(ctx.all(*[ctx.eq(x, 0) for x in w.unused_bits]), 'padding is zero')
    ctx.check(len(w.unused_bits) == -n % 8, 'the number of unused bits')
    for i in range(n + 2):
        ctx.check(ctx.eq(w[i], ctx.eq(bits[i], 1) if i < n else False), 'indexing agrees with the value')
    f = w.dump(force=True)
    ctx.check(ctx.eq(f, o.dump()), 'forced re-encoding changes nothing')
    ctx.reach('tuple')
    ctx.observe('d', f)


def decode(ctx, cls, n):
    """arbitrary contents of a primitive encoding: refused unless legal, and then exactly the encoded bits"""
    core = ctx.lib.core
    c = ctx.bytes('c', n)
    t = getattr(core, cls)
    o = t.load(encode((3, c)))
    st, v = ctx.attempt(lambda: o.native)
    ok = valid(ctx, c)
    if cls == 'ParsableOctetBitString':
        ok = ctx.all(ok, ctx.eq(c[0], 0)) if n else False
    if st == 'err':
        ctx.check(isinstance(v, ValueError), 'malformed contents are a ValueError')
        ctx.check(ctx.not_(ok), 'legal contents are read')
        ctx.reach('refused')
        return
    ctx.reach('read')
    ctx.check(ok, 'malformed unused-bit counts are refused')
    if n == 0:
        return
    total = (n - 1) * 8
    if cls == 'BitString':
        k = len(v)
        ctx.check(ctx.eq(k, total - c[0]), 'as many bits as encoded')
        ctx.check(ctx.all(*[ctx.eq(v[i], bit(ctx, c[1:], i)) for i in range(k)]), 'exactly the encoded bits')
        ctx.check(ctx.all(*[ctx.eq(o[i], ctx.eq(v[i], 1) if i < k else False) for i in range(k + 2)]), 'indexing agrees with the value')
    elif cls == 'IntegerBitString':
        ctx.check(ctx.eq(v, ctx.btoi(c[1:]) >> c[0]), 'the number formed by the encoded bits')
    else:
        ctx.check(len(v) == n - 1, 'as many octets as encoded')
        for i in range(n - 1):
            want = c[1 + i]
            if i == n - 2:
                want = want & (0xff << c[0])
            ctx.check(ctx.eq(v[i], want), 'the encoded bits, zero padded')
    if cls != 'ParsableOctetBitString':
        u = o.unused_bits
        ctx.check(ctx.eq(len(u), c[0]), 'unused bits reported')
        ctx.check(ctx.all(*[ctx.eq(x, (c[n - 1] >> (len(u) - 1 - i)) & 1) for i, x in enumerate(u)]), 'unused bits as encoded')
    d = o.dump(force=True)
    w = t.load(d)
    ctx.check(ctx.eq(w.native, v), 'forced re-encoding keeps the value')
    ctx.check(len(d) >= 3 and valid(ctx, d[2:]), 'forced re-encoding is legal')
    if len(d) > 3:
        ctx.check(ctx.eq(d[len(d) - 1] & ((1 << d[2]) - 1), 0), 'unused bits are zero after forced re-encoding')
    ctx.observe('v', v)


def constructed(ctx, cls, sizes, form):
    """chunked forms denote the concatenation, and only the last chunk may have unused bits"""
    core = ctx.lib.core
    t = getattr(core, cls)
    cs = [ctx.bytes('c%d' % i, n) for i, n in enumerate(sizes)]
    if form == 'nested':
        data = encode((0x23, [(0x23, [(3, c)]) for c in cs]), forms=dict([((), 'indef')] + [((i,), 'indef') for i in range(len(cs))]))
    else:
        data = encode((0x23, [(3, c) for c in cs]), forms={(): form})
    if form == 'min':
        # the constructed form with a definite length is not supported, which must not misread it
        st, v = ctx.attempt(lambda: t.load(data).native)
        ctx.check(st == 'err' and isinstance(v, ValueError), 'refused, not misread')
        ctx.reach('refused')
        return
    o = t.load(data)
    st, v = ctx.attempt(lambda: o.native)
    ok = ctx.all(True, *[valid(ctx, c) for c in cs])
    for c in (cs if cls == 'ParsableOctetBitString' else cs[:-1]):
        if len(c):
            ok = ctx.all(ok, ctx.eq(c[0], 0))
    if st == 'err':
        ctx.check(isinstance(v, ValueError), 'malformed contents are a ValueError')
        ctx.check(ctx.not_(ok), 'legal chunks are read')
        ctx.reach('refused')
        return
    ctx.reach('read')
    ctx.check(ok, 'malformed chunks are refused')
    body = b''
    for c in cs:
        body = body + c[1:]
    last = cs[-1][0] if cs and len(cs[-1]) else 0
    n = len(body)
    if cls == 'BitString':
        k = len(v)
        ctx.check(ctx.eq(k, n * 8 - last), 'as many bits as encoded')
        ctx.check(ctx.all(True, *[ctx.eq(v[i], bit(ctx, body, i)) for i in range(k)]), 'exactly the encoded bits')
    elif cls == 'IntegerBitString':
        ctx.check(ctx.eq(v, (ctx.btoi(body) if n else 0) >> last), 'the number formed by the encoded bits')
    else:
        ctx.check(len(v) == n, 'as many octets as encoded')
        for i in range(n):
            ctx.check(ctx.eq(v[i], body[i] & (0xff << last) if i == n - 1 and len(cs[-1]) > 1 else body[i]), 'the encoded bits, zero padded')
    d = o.dump(force=True)
    ctx.check(ctx.eq(d[0], 3), 're-encoded in the primitive form')
    ctx.check(ctx.eq(t.load(d).native, v), 're-encoding keeps the value')
    ctx.observe('v', v)


def from_octets(ctx, cls, n):
    core = ctx.lib.core
    t = getattr(core, cls)
    b = ctx.bytes('b', n)
    o = t(b)
    ctx.check(ctx.eq(o.contents, b'\x00' + b), 'no unused bits')
    ctx.check(ctx.eq(o.native, b), 'built value reads back')
    ctx.check(ctx.eq(o.dump(), ref_tlv(ctx, 3, b'\x00' + b)), 'encoding')
    w = t.load(o.dump(), strict=True)
    ctx.check(ctx.eq(w.native, b), 'decoded value reads back')
    ctx.check(ctx.eq(ctx.call(bytes, w), b), 'bytes() gives the octets')
    c = ctx.bytes('c', 2)
    w.set(c)
    ctx.check(ctx.all(ctx.eq(w.native, c), ctx.eq(t.load(w.dump()).native, c)), 'a new value replaces the old one')
    ctx.reach('octets')


def from_int(ctx, lo, hi):
    core = ctx.lib.core
    v = ctx.int('v', lo, hi)
    st, o = ctx.attempt(core.IntegerBitString, v)
    if st == 'err':
        ctx.check(v < 0, 'only negative numbers are refused')
        ctx.check(isinstance(o, ValueError), 'refused with ValueError')
        ctx.reach('negative')
        return
    ctx.check(v >= 0, 'negative numbers are refused')
    ctx.check(ctx.eq(o.contents[0], 0), 'no unused bits')
    ctx.check(ctx.eq(o.native, v), 'built value reads back')
    w = core.IntegerBitString.load(o.dump(), strict=True)
    ctx.check(ctx.eq(w.native, v), 'decoded value reads back')
    ctx.reach('int')


def mapped(ctx, kind):
    z = zoo(ctx)
    if kind == 'Bits':
        return z.Bits
    mod, cls = kind.split('.')
    return getattr(getattr(ctx.lib, mod), cls)


def named(ctx, kind, names, how):
    """a set of names -> encoding -> the same set; indexing by name and by number agrees"""
    t = mapped(ctx, kind)
    byname = dict((n, i) for i, n in t._map.items())
    chosen = set()
    for n in names:
        if ctx.bool('has_%s' % n):
            chosen.add(n)
    if how == 'set':
        o = t(set(chosen))
    elif how == 'tuple':
        size = max(t._map) + 1
        o = t(tuple(1 if t._map.get(i, i) in chosen else 0 for i in range(size)))
    else:
        o = t(set())
        for n in names:
            o[n if how == 'setname' else byname[n]] = n in chosen
    want = [0] * (max([byname[n] for n in chosen]) + 1 if chosen else 0)
    for n in chosen:
        want[byname[n]] = 1
    ctx.check(bits_are(ctx, o.contents, want), 'the encoding is the named bits without trailing zero bits')
    ctx.check(o.native == chosen, 'built value reads back')
    w = t.load(o.dump(), strict=True)
    ctx.check(w.native == chosen, 'decoded value reads back')
    for n, i in byname.items():
        ctx.check(w[n] == (n in chosen), 'indexing by name agrees with the value')
        ctx.check(w[i] == (n in chosen), 'indexing by number agrees with the value')
    ctx.check(w.dump(force=True) == o.dump(), 'forced re-encoding changes nothing')
    ctx.reach('named')
    ctx.observe('d', o.dump())


def named_decode(ctx, kind, n, unused):
    """arbitrary bits of a named bit list"""
    t = mapped(ctx, kind)
    c = bytes([unused]) + ctx.bytes('c', n)
    o = t.load(encode((3, c)))
    v = o.native
    total = n * 8 - unused
    for i in range(total):
        on = ctx.eq(bit(ctx, c[1:], i), 1)
        name = t._map.get(i, i)
        ctx.check(ctx.eq(name in v, on), 'a name is reported exactly when its bit is set')
        ctx.check(ctx.eq(o[i], on), 'indexing by number agrees')
        if name != i:
            ctx.check(ctx.eq(o[name], on), 'indexing by name agrees')
    ctx.check(len([x for x in v if x not in [t._map.get(i, i) for i in range(total)]]) == 0, 'nothing else is reported')
    d = o.dump(force=True)
    ctx.check(t.load(d).native == v, 'forced re-encoding keeps the value')
    ctx.check(ctx.eq(o.dump(force=True), d), 'forced re-encoding is stable')
    if len(d) > 3:
        last = d[len(d) - 1]
        ctx.check(ctx.eq((last >> d[2]) & 1, 1), 'no trailing zero bits')
    ctx.reach('decoded')


def unknown_name(ctx, kind, n):
    """names that the definition does not have are refused everywhere"""
    t = mapped(ctx, kind)
    s = ctx.text('s', n, [(0x61, 0x7a), (0x30, 0x39)])
    known = ctx.any(*[ctx.eq(s, x) for x in t._map.values()])
    o = t(set())
    st, v = ctx.attempt(lambda: o[s])
    if st == 'err':
        ctx.check(isinstance(v, ValueError), 'ValueError')
    ctx.check(ctx.eq(st == 'ok', known), 'reading an unknown name is refused')
    st2, v2 = ctx.attempt(t, ctx.call(set, [s]))
    if st2 == 'err':
        ctx.check(isinstance(v2, ValueError), 'ValueError')
    ctx.check(ctx.eq(st2 == 'ok', known), 'setting an unknown name is refused')

    def assign():
        o[s] = True
    if st == 'ok':
        ctx.reach('known')
        return
    ctx.reach('unknown')
    st3, v3 = ctx.attempt(assign)
    ctx.check(st3 == 'err' and isinstance(v3, ValueError), 'assigning an unknown name is refused')


def assign(ctx, n, index):
    """assigning one bit of an unnamed bit string changes that bit only"""
    core = ctx.lib.core
    bits = tuple(ctx.int('b%d' % i, 0, 1) for i in range(n))
    o = core.BitString.load(core.BitString(bits).dump())
    x = ctx.int('x', 0, 1)
    o[index] = ctx.eq(x, 1)
    want = list(bits) + [0] * max(0, index + 1 - n)
    want[index] = x
    ctx.check(ctx.eq(o.native, tuple(want)), 'only the assigned bit changes')
    ctx.check(bits_are(ctx, o.contents, want), 'the encoding follows')
    ctx.check(ctx.eq(core.BitString.load(o.dump()).native, tuple(want)), 'the new value reads back')
    ctx.reach('assigned')


CLS = ('BitString', 'OctetBitString', 'IntegerBitString', 'ParsableOctetBitString')
HARNESSES = [
    Harness('from_tuple', from_tuple, lambda tier: [dict(n=n) for n in (range(0, 19) if tier == 'quick' else range(0, 50))], ['tuple'],
            bounds='up to 18 (49) bits'),
    Harness('decode', decode, lambda tier: [dict(cls=c, n=n) for c in CLS for n in ((0, 1, 2, 3, 4) if tier == 'quick' else (0, 1, 2, 3, 4, 5, 9))],
            ['read', 'refused'], bounds='contents up to 4 (9) octets'),
    Harness('constructed', constructed, lambda tier: [dict(cls=c, sizes=s, form=f) for c in CLS for s in (
        [(), (1,), (2,), (2, 2), (1, 2), (2, 1), (0, 2)] + ([] if tier == 'quick' else [(2, 0), (3, 2), (2, 2, 2), (1, 1), (3, 3, 3)]))
        for f in ('indef', 'nested', 'min')], ['read', 'refused'], bounds='up to two (three) chunks of up to 2 (3) octets'),
    Harness('from_octets', from_octets, lambda tier: [dict(cls=c, n=n) for c in ('OctetBitString', 'ParsableOctetBitString') for n in (
        (0, 1, 2, 5, 127) if tier == 'quick' else (0, 1, 2, 3, 5, 8, 126, 127, 128, 255, 256))], ['octets']),
    Harness('from_int', from_int, lambda tier: [dict(lo=-5, hi=70000)] + [dict(lo=(1 << k) - 2, hi=(1 << k) + 2) for k in (
        (31, 64, 255, 256) if tier == 'quick' else (24, 31, 32, 63, 64, 127, 128, 255, 256, 511, 512, 520, 1024))], ['int', 'negative']),
    Harness('named', named, lambda tier: [dict(kind=k, names=n, how=h) for k, n in (
        ('Bits', ('b0', 'b1', 'b2', 'b5', 'b9')), ('x509.KeyUsage', ('digital_signature', 'key_cert_sign', 'crl_sign', 'encipher_only', 'decipher_only')),
        ('x509.ReasonFlags', ('unused', 'key_compromise', 'certificate_hold', 'aa_compromise')),
        ('tsp.PKIFailureInfo', ('bad_alg', 'bad_request', 'time_not_available', 'system_failure')))
        for h in ('set', 'tuple', 'setname', 'setindex')], ['named']),
    Harness('named_decode', named_decode, lambda tier: [dict(kind=k, n=n, unused=u) for k in ('Bits', 'x509.KeyUsage') for n, u in (
        [(1, 0), (1, 3), (1, 7), (2, 6), (2, 7)] + ([] if tier == 'quick' else [(1, 1), (2, 0), (2, 4)]))], ['decoded'],
        bounds='up to 10 (16) bits'),
    Harness('unknown_name', unknown_name, lambda tier: [dict(kind=k, n=n) for k in ('Bits', 'x509.KeyUsage') for n in (
        (0, 1, 2, 8) if tier == 'quick' else range(0, 18))], ['known', 'unknown']),
    Harness('assign', assign, lambda tier: [dict(n=n, index=i) for n, i in ((0, 0), (0, 3), (3, 1), (8, 7), (8, 8), (9, 0), (7, 12))] + (
        [] if tier == 'quick' else [dict(n=n, index=i) for n in (1, 5, 15, 16, 17) for i in (0, 4, 15, 16, 18)]), ['assigned']),
]
