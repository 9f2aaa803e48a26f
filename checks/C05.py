from pysym.harness import Harness
from hlib import zoo, encode, ref_tlv

MODULES = ('core', 'parser', 'util', 'x509', 'cms', 'keys', 'crl', 'ocsp', 'tsp')


def minimal_int(ctx, c, v):
    """c is the shortest two's-complement encoding of v"""
    n = len(c)
    ok = [n >= 1, ctx.eq(ctx.btoi(c, True), v)]
    if n > 1:
        top = 1 << (8 * (n - 1) - 1)
        ok.append(ctx.any(v < -top, v >= top))
    return ctx.all(*ok)


def build(ctx, lo, hi, shift=0, tagging=None):
    """any number through Integer: minimal contents, the same number back"""
    core = ctx.lib.core
    v = ctx.int('v', lo, hi) + shift
    kw = {tagging: 3} if tagging else {}
    o = core.Integer(v, **kw)
    ctx.check(minimal_int(ctx, o.contents, v), 'contents are the minimal two\'s-complement octets')
    ctx.check(ctx.eq(o.native, v), 'native of the built value')
    ctx.check(ctx.eq(ctx.call(int, o), v), 'int() of the built value')
    d = o.dump()
    if tagging is None:
        ctx.check(ctx.eq(d, ref_tlv(ctx, 2, o.contents)), 'encoding is tag, length, contents')
    elif tagging == 'implicit':
        ctx.check(ctx.eq(d, ref_tlv(ctx, 0x83, o.contents)), 'encoding is tag, length, contents')
    else:
        ctx.check(ctx.eq(d, ref_tlv(ctx, 0xa3, ref_tlv(ctx, 2, o.contents))), 'encoding is tag, length, contents')
    w = core.Integer.load(d, strict=True, **kw)
    ctx.check(ctx.eq(w.native, v), 'decodes to the same number')
    ctx.check(ctx.eq(ctx.call(int, w), v), 'int() of the decoded value')
    ctx.check(ctx.eq(w.dump(force=True), d), 'DER stays as it is when forced')
    o.set(v + 1)
    ctx.check(ctx.all(ctx.eq(o.native, v + 1), ctx.eq(core.Integer.load(o.dump(), **kw).native, v + 1)), 'a new number replaces the old one')
    ctx.reach('built')
    ctx.observe('d', d)


def decode(ctx, n, form, force=True):
    """any contents, minimal or not, denote their two's-complement value"""
    core = ctx.lib.core
    c = ctx.bytes('c', n)
    o = core.Integer.load(encode((2, c), form))
    want = ctx.btoi(c, True) if n else 0
    ctx.check(ctx.eq(o.native, want), 'contents denote their two\'s-complement value')
    ctx.check(ctx.eq(ctx.call(int, o), want), 'int() gives the same value')
    ctx.check(ctx.eq(core.Integer(contents=c).native, want), 'contents given directly denote the same value')
    ctx.reach('decoded')
    ctx.observe('v', o.native)
    if not force:
        return
    f = core.Integer.load(encode((2, c), form)).dump(force=True)
    ctx.check(ctx.eq(core.Integer.load(f).native, want), 'forced re-encoding keeps the value')
    ctx.check(minimal_int(ctx, f[2:], want), 'forced re-encoding is minimal')


def maps(ctx, kind):
    core = ctx.lib.core
    z = zoo(ctx)
    if kind == 'Num':
        return z.Num, 2
    if kind == 'Enum':
        return z.Enum, 10
    mod, cls = kind.split('.')
    t = getattr(getattr(ctx.lib, mod), cls)
    return t, t.tag


def named_decode(ctx, kind, n):
    """encoded named number -> name (or number for an INTEGER without a name), unknown enumerated values refused"""
    core = ctx.lib.core
    t, tag = maps(ctx, kind)
    enum = issubclass(t, core.Enumerated)
    c = ctx.bytes('c', n)
    num = ctx.btoi(c, True)
    o = t.load(encode((tag, c)))
    st, v = ctx.attempt(lambda: o.native)
    known = ctx.any(*[ctx.eq(num, k) for k in t._map])
    if st == 'err':
        ctx.check(enum, 'only enumerated values can be unknown')
        ctx.check(isinstance(v, ValueError), 'unknown values are a ValueError')
        ctx.check(ctx.not_(known), 'known values are read')
        ctx.reach('unknown')
        return
    if isinstance(v, str):
        ctx.reach('named')
        ctx.check(ctx.any(*[ctx.all(ctx.eq(num, k), v == name) for k, name in t._map.items()]), 'the name is the one of the number')
        w = t(v)
        ctx.check(ctx.eq(ctx.call(int, w), num), 'the name encodes to the number')
        ctx.check(w.native == v, 'the name reads back')
        ctx.check(minimal_int(ctx, w.contents, num), 'minimal contents')
        o2 = t.load(encode((tag, c)))
        ctx.check(ctx.eq(t.load(o2.dump(force=True)).native, v), 'forced re-encoding keeps the name')
    else:
        ctx.reach('number')
        ctx.check(not enum, 'an enumerated value has a name')
        ctx.check(ctx.not_(known), 'a named number is read as its name')
        ctx.check(ctx.eq(v, num), 'a number without a name is read as the number')


def named_build(ctx, kind, lo, hi):
    """numbers given to a named type"""
    core = ctx.lib.core
    t, tag = maps(ctx, kind)
    enum = issubclass(t, core.Enumerated)
    v = ctx.int('v', lo, hi)
    known = ctx.any(*[ctx.eq(v, k) for k in t._map])
    st, o = ctx.attempt(t, v)
    if st == 'err':
        ctx.check(enum, 'any number can be given to an INTEGER')
        ctx.check(isinstance(o, ValueError), 'unknown numbers are a ValueError')
        ctx.check(ctx.not_(known), 'known numbers are accepted')
        ctx.reach('refused')
        return
    ctx.check(ctx.any(not enum, known), 'unknown enumerated numbers are refused')
    ctx.check(minimal_int(ctx, o.contents, v), 'minimal contents')
    n = o.native
    if isinstance(n, str):
        ctx.reach('named')
        ctx.check(ctx.any(*[ctx.all(ctx.eq(v, k), n == name) for k, name in t._map.items()]), 'the name is the one of the number')
    else:
        ctx.reach('number')
        ctx.check(ctx.all(ctx.eq(n, v), ctx.not_(known)), 'a number without a name')
    ctx.check(ctx.eq(t.load(o.dump()).native, n), 'the encoding reads back the same')


def names(ctx, kind, n):
    """text given to a named type: only the names in its map"""
    core = ctx.lib.core
    t, tag = maps(ctx, kind)
    s = ctx.text('s', n, [(0x20, 0x7e)])
    st, o = ctx.attempt(t, s)
    known = ctx.any(*[ctx.eq(s, name) for name in t._map.values()])
    if st == 'err':
        ctx.check(isinstance(o, ValueError), 'unknown names are a ValueError')
        ctx.check(ctx.not_(known), 'known names are accepted')
        ctx.reach('refused')
        return
    ctx.check(known, 'unknown names are refused')
    num = ctx.call(int, o)
    ctx.check(ctx.any(*[ctx.all(ctx.eq(s, name), ctx.eq(num, k)) for k, name in t._map.items()]), 'the number is the one of the name')
    ctx.check(ctx.eq(t.load(o.dump()).native, s), 'the name reads back')
    ctx.reach('known')


def all_names(ctx, kind):
    """each name <-> number pair"""
    t, tag = maps(ctx, kind)
    pairs = sorted(t._map.items())
    i = ctx.int('i', 0, len(pairs) - 1)
    k, name = ctx.get(pairs, i)
    o = t(name)
    ctx.check(ctx.eq(ctx.call(int, o), k), 'the name encodes to its number')
    ctx.check(ctx.eq(t.load(o.dump()).native, name), 'the name reads back')
    ctx.check(ctx.eq(t(k).native, name), 'the number is read as its name')
    ctx.check(ctx.eq(t(k).dump(), o.dump()), 'name and number encode alike')
    ctx.reach('pair')


def plain_enum(ctx, n):
    """an Enumerated without names"""
    core = ctx.lib.core
    c = ctx.bytes('c', n)
    o = core.load(encode((10, c)))
    ctx.check(ctx.eq(o.native, ctx.btoi(c, True)), 'read as the number')
    s = ctx.text('s', 1, [(0x20, 0x7e)])
    ctx.check(ctx.rejects(core.Integer, s), 'a name is refused without a map')
    ctx.reach('plain')


KINDS = ('Num', 'Enum', 'x509.Version', 'crl.CRLReason', 'cms.CMSVersion', 'keys.PrivateKeyAlgorithmId', 'ocsp.OCSPResponseStatus',
         'tsp.PKIStatus', 'keys.ECPrivateKeyVersion', 'keys.RSAPrivateKeyVersion')
KINDS = tuple(k for k in KINDS if k != 'keys.PrivateKeyAlgorithmId')

HARNESSES = [
    Harness('build', build, lambda tier: [dict(lo=-(1 << b), hi=(1 << b)) for b in ((17, 40) if tier == 'quick' else (17, 40, 72, 100))] + [
        dict(lo=-3, hi=3, shift=s << b) for b in ((55, 63, 127, 255, 1016, 1023, 2047) if tier == 'quick' else list(range(47, 140, 8)) + [
            255, 256, 511, 1015, 1016, 1023, 1024, 2047, 2048]) for s in (1, -1) if s == 1 or b <= 255] + [
        dict(lo=-200, hi=200, tagging=g) for g in ('implicit', 'explicit')], ['built'],
        bounds='numbers up to 2^40 (2^100) in magnitude and around powers of two up to 2^2047'),
    Harness('decode', decode, lambda tier: [dict(n=n, form='min', force=n < (9 if tier == 'quick' else 12)) for n in ((0, 1, 2, 3, 5, 8, 9, 17, 33, 66) if tier == 'quick' else list(range(0, 26)) + [
        33, 65, 66, 128])] + [dict(n=n, form=f) for n in (1, 2) for f in (1, 2)], ['decoded'], bounds='contents up to 66 (128) octets, forced re-encoding up to 8 (11)'),
    Harness('named_decode', named_decode, lambda tier: [dict(kind=k, n=n) for k in KINDS for n in ((1, 2) if tier == 'quick' else (1, 2, 3, 4))],
            ['named', 'number', 'unknown'], bounds='contents of 1-2 (1-4) octets'),
    Harness('named_build', named_build, [dict(kind=k, lo=-70000, hi=70000) for k in KINDS], ['named', 'number', 'refused']),
    Harness('names', names, lambda tier: [dict(kind=k, n=n) for k in KINDS for n in ((0, 1, 2, 4) if tier == 'quick' else range(0, 24))], ['known', 'refused'],
            bounds='printable ASCII text up to 4 (23) characters'),
    Harness('all_names', all_names, [dict(kind=k) for k in KINDS], ['pair']),
    Harness('plain_enum', plain_enum, [dict(n=n) for n in (1, 2, 3)], ['plain']),
]
