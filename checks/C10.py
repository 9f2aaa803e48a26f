from pysym.harness import Harness
from hlib import encode, named, ref_tlv

MODULES = ('core', 'parser', 'util', 'x509')

# ITU-T T.61: code -> character, the positions without a character left out
T61 = dict((i, i) for i in range(0xa4) if i not in (0x23, 0x24, 0x5c, 0x5e, 0x60, 0x7b, 0x7d, 0x7e))
T61.update({
    0xa4: 0x24, 0xa5: 0xa5, 0xa6: 0x23, 0xa7: 0xa7, 0xa8: 0xa4, 0xab: 0xab, 0xb0: 0xb0, 0xb1: 0xb1, 0xb2: 0xb2, 0xb3: 0xb3, 0xb4: 0xd7,
    0xb5: 0xb5, 0xb6: 0xb6, 0xb7: 0xb7, 0xb8: 0xf7, 0xbb: 0xbb, 0xbc: 0xbc, 0xbd: 0xbd, 0xbe: 0xbe, 0xbf: 0xbf, 0xc1: 0x300, 0xc2: 0x301,
    0xc3: 0x302, 0xc4: 0x303, 0xc5: 0x304, 0xc6: 0x306, 0xc7: 0x307, 0xc8: 0x308, 0xca: 0x30a, 0xcb: 0x327, 0xcc: 0x332, 0xcd: 0x30b,
    0xce: 0x328, 0xcf: 0x30c, 0xe0: 0x2126, 0xe1: 0xc6, 0xe2: 0xd0, 0xe3: 0xaa, 0xe4: 0x126, 0xe6: 0x132, 0xe7: 0x13f, 0xe8: 0x141,
    0xe9: 0xd8, 0xea: 0x152, 0xeb: 0xba, 0xec: 0xde, 0xed: 0x166, 0xee: 0x14a, 0xef: 0x149, 0xf0: 0x138, 0xf1: 0xe6, 0xf2: 0x111,
    0xf3: 0xf0, 0xf4: 0x127, 0xf5: 0x131, 0xf6: 0x133, 0xf7: 0x140, 0xf8: 0x142, 0xf9: 0xf8, 0xfa: 0x153, 0xfb: 0xdf, 0xfc: 0xfe,
    0xfd: 0x167, 0xfe: 0x14b,
})
# the positions where Windows-1252 has no character, and where it differs from ISO 8859-1
CP1252 = dict((i, i) for i in range(256) if not 0x80 <= i < 0xa0)
CP1252.update({
    0x80: 0x20ac, 0x82: 0x201a, 0x83: 0x192, 0x84: 0x201e, 0x85: 0x2026, 0x86: 0x2020, 0x87: 0x2021, 0x88: 0x2c6, 0x89: 0x2030, 0x8a: 0x160,
    0x8b: 0x2039, 0x8c: 0x152, 0x8e: 0x17d, 0x91: 0x2018, 0x92: 0x2019, 0x93: 0x201c, 0x94: 0x201d, 0x95: 0x2022, 0x96: 0x2013, 0x97: 0x2014,
    0x98: 0x2dc, 0x99: 0x2122, 0x9a: 0x161, 0x9b: 0x203a, 0x9c: 0x153, 0x9e: 0x17e, 0x9f: 0x178,
})

CHARSET = {
    'UTF8String': 'utf8', 'NumericString': 'latin', 'PrintableString': 'latin', 'TeletexString': 't61', 'IA5String': 'ascii',
    'GraphicString': 'latin', 'VisibleString': 'latin', 'GeneralString': 'latin', 'UniversalString': 'ucs4', 'CharacterString': 'latin',
    'BMPString': 'utf16',
}
TAGS = {'UTF8String': 12, 'NumericString': 18, 'PrintableString': 19, 'TeletexString': 20, 'IA5String': 22, 'GraphicString': 25,
        'VisibleString': 26, 'GeneralString': 27, 'UniversalString': 28, 'CharacterString': 29, 'BMPString': 30}


def groups(table):
    g = {}
    for k, v in table.items():
        g.setdefault(v - k, []).append(k)
    out = []
    for d, ks in sorted(g.items(), key=lambda kv: -len(kv[1])):
        runs = []
        for k in sorted(ks):
            if runs and runs[-1][1] == k - 1:
                runs[-1][1] = k
            else:
                runs.append([k, k])
        out.append((d, runs))
    return out


REV_T61 = dict((v, k) for k, v in T61.items())
RUNS = dict((id(t), groups(t)) for t in (T61, CP1252, REV_T61))


def within(ctx, runs, x):
    return ctx.any(False, *[ctx.all(x >= a, x <= b) for a, b in runs])


def mapped(ctx, table, x):
    """(x has a value in the table, the value)"""
    r = 0
    for d, runs in RUNS[id(table)][::-1]:
        r = ctx.ite(within(ctx, runs, x), x + d, r)
    return ctx.any(False, *[within(ctx, runs, x) for _, runs in RUNS[id(table)]]), r


def surrogate(ctx, x):
    return ctx.all(x >= 0xd800, x <= 0xdfff)


def in_charset(ctx, cs, x):
    if cs in ('latin', 'ascii'):
        return x < (256 if cs == 'latin' else 128)
    if cs == 't61':
        return mapped(ctx, REV_T61, x)[0]
    return ctx.not_(surrogate(ctx, x))


def enc1(ctx, cs, x):
    """octets of one character, as a list; forks on their number"""
    if cs in ('latin', 'ascii'):
        return [x]
    if cs == 't61':
        return [mapped(ctx, REV_T61, x)[1]]
    if cs == 'ucs4':
        return [x >> 24, (x >> 16) & 255, (x >> 8) & 255, x & 255]
    if cs == 'utf16':
        if x < 0x10000:
            return [x >> 8, x & 255]
        y = x - 0x10000
        h = 0xd800 + (y >> 10)
        l = 0xdc00 + (y & 0x3ff)
        return [h >> 8, h & 255, l >> 8, l & 255]
    if x < 0x80:
        return [x]
    if x < 0x800:
        return [0xc0 | (x >> 6), 0x80 | (x & 63)]
    if x < 0x10000:
        return [0xe0 | (x >> 12), 0x80 | ((x >> 6) & 63), 0x80 | (x & 63)]
    return [0xf0 | (x >> 18), 0x80 | ((x >> 12) & 63), 0x80 | ((x >> 6) & 63), 0x80 | (x & 63)]


def dec(ctx, cs, b):
    """code points of octets, or None when they are not valid in the character set"""
    out = []
    n = len(b)
    i = 0
    while i < n:
        x = b[i]
        if cs in ('latin', 'ascii'):
            if cs == 'ascii' and x >= 128:
                return None
            out.append(x)
            i += 1
        elif cs in ('t61', 'cp1252'):
            table = T61 if cs == 't61' else CP1252
            ok, r = mapped(ctx, table, x)
            if ctx.not_(ok):
                return None
            out.append(r)
            i += 1
        elif cs == 'ucs4':
            if i + 4 > n:
                return None
            v = ((x * 256 + b[i + 1]) * 256 + b[i + 2]) * 256 + b[i + 3]
            if v > 0x10ffff or surrogate(ctx, v):
                return None
            out.append(v)
            i += 4
        elif cs == 'utf16':
            if i + 2 > n:
                return None
            v = x * 256 + b[i + 1]
            i += 2
            if v >= 0xd800 and v <= 0xdfff:
                if v >= 0xdc00 or i + 2 > n:
                    return None
                w = b[i] * 256 + b[i + 1]
                i += 2
                if w < 0xdc00 or w > 0xdfff:
                    return None
                v = 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00)
            out.append(v)
        else:
            k = 1 if x < 0x80 else 2 if 0xc2 <= x < 0xe0 else 3 if 0xe0 <= x < 0xf0 else 4 if 0xf0 <= x < 0xf5 else 0
            if k == 0 or i + k > n:
                return None
            v = x if k == 1 else x & (0xff >> (k + 1))
            for j in range(1, k):
                y = b[i + j]
                if y < 0x80 or y >= 0xc0:
                    return None
                v = v * 64 + (y & 63)
            if v < (0, 0, 0x80, 0x800, 0x10000)[k] or v > 0x10ffff or surrogate(ctx, v):
                return None
            out.append(v)
            i += k
    return out


def ords(ctx, s):
    return [ctx.call(ord, ctx.get(s, i)) for i in range(len(s))]


def from_text(ctx, cls, n, ranges, tagging=None):
    core = ctx.lib.core
    t = getattr(core, cls)
    cs = CHARSET[cls]
    s = ctx.text('s', n, ranges)
    xs = ords(ctx, s)
    ok = ctx.all(True, *[in_charset(ctx, cs, x) for x in xs])
    kw = {tagging: 1} if tagging else {}
    st, o = ctx.attempt(t, s, **kw)
    if st == 'err':
        ctx.check(isinstance(o, ValueError), 'refused with ValueError')
        ctx.check(ctx.not_(ok), 'text within the character set is encoded')
        ctx.reach('refused')
        return
    ctx.check(ok, 'text outside the character set is refused')
    want = []
    for x in xs:
        want.extend(enc1(ctx, cs, x))
    ctx.check(ctx.eq(o.contents, ctx.byte_str(want)), 'the octets of the character set')
    ctx.check(ctx.all(ctx.eq(o.native, s), ctx.eq(ctx.call(str, o), s)), 'built value reads back')
    d = o.dump()
    if tagging is None:
        ctx.check(ctx.eq(d, ref_tlv(ctx, TAGS[cls], o.contents)), 'encoding')
    w = t.load(d, strict=True, **kw)
    ctx.check(ctx.all(ctx.eq(w.native, s), ctx.eq(ctx.call(str, w), s)), 'decodes to the same text')
    ctx.check(ctx.eq(w.dump(force=True), d), 'forced re-encoding changes nothing')
    w.set('ok')
    ctx.check(ctx.all(w.native == 'ok', ctx.call(str, w) == 'ok', t.load(w.dump(), **kw).native == 'ok'), 'a new value replaces the old one')
    ctx.reach('encoded')
    ctx.observe('d', d)


def long_text(ctx, cls, n, at):
    """one character, any, among many"""
    core = ctx.lib.core
    t = getattr(core, cls)
    cs = CHARSET[cls]
    s = 'a' * at + ctx.text('s', 1, FULL) + 'b' * (n - at - 1)
    x = ord(s[at])
    st, o = ctx.attempt(t, s)
    if st == 'err':
        ctx.check(isinstance(o, ValueError), 'refused with ValueError')
        ctx.check(ctx.not_(in_charset(ctx, cs, x)), 'text within the character set is encoded')
        ctx.reach('refused')
        return
    ctx.check(in_charset(ctx, cs, x), 'text outside the character set is refused')
    unit = {'ucs4': b'\0\0\0', 'utf16': b'\0'}.get(cs, b'')
    want = (unit + b'a') * at + ctx.byte_str(enc1(ctx, cs, x)) + (unit + b'b') * (n - at - 1)
    ctx.check(ctx.eq(o.contents, want), 'the octets of the character set')
    w = t.load(o.dump(), strict=True)
    ctx.check(ctx.all(ctx.eq(w.native, s), ctx.eq(ctx.call(str, w), s)), 'decodes to the same text')
    ctx.reach('encoded')


def from_octets(ctx, cls, n, ranges=((0, 255),)):
    core = ctx.lib.core
    t = getattr(core, cls)
    cs = CHARSET[cls]
    c = ctx.bytes_in('c', n, ranges) if ranges != ((0, 255),) else ctx.bytes('c', n)
    o = t.load(encode((TAGS[cls], c)))
    st, v = ctx.attempt(lambda: o.native)
    want = dec(ctx, cs, c)
    if st == 'err':
        ctx.check(isinstance(v, ValueError), 'invalid octets are a ValueError')
        ctx.check(want is None, 'valid octets are read')
        ctx.reach('refused')
        return
    ctx.check(want is not None, 'octets that are not valid in the character set are refused')
    if want is None:
        return
    got = ords(ctx, v)
    ctx.check(len(got) == len(want) and ctx.all(True, *[ctx.eq(a, b) for a, b in zip(got, want)]), 'the characters the octets stand for')
    ctx.check(ctx.eq(t(v).contents, c), 'the text encodes to the same octets')
    ctx.check(ctx.eq(o.dump(force=True), encode((TAGS[cls], c))), 'forced re-encoding changes nothing')
    ctx.reach('decoded')
    ctx.observe('v', v)


def chunked(ctx, cls, n, cut):
    """text in chunks, characters may be split across chunks"""
    core = ctx.lib.core
    t = getattr(core, cls)
    cs = CHARSET[cls]
    s = ctx.text('s', n, [(0, 0x7f), (0xa0, 0xff), (0x100, 0xffff), (0x10000, 0x10ffff)])
    xs = ords(ctx, s)
    ctx.assume(ctx.all(*[in_charset(ctx, cs, x) for x in xs]))
    octets = []
    for x in xs:
        octets.extend(enc1(ctx, cs, x))
    k = min(cut, len(octets))
    tag = TAGS[cls]
    o = t.load(encode((tag | 0x20, [(tag, ctx.byte_str(octets[:k])), (tag, ctx.byte_str(octets[k:]))]), forms={(): 'indef'}))
    ctx.check(ctx.eq(o.native, s), 'the chunks together are the text')
    d = o.dump()
    ctx.check(ctx.eq(d, ref_tlv(ctx, tag, ctx.byte_str(octets))), 're-encoded as one string')
    ctx.check(ctx.eq(o.copy().native, s), 'a copy is the same text')
    ctx.reach('chunked')


def lenient_teletex(ctx, n):
    """the teletex alternative of a directory string: Windows-1252 when read, T.61 when asked to be strict or when written"""
    x = ctx.lib.x509
    c = ctx.bytes('c', n)
    data = encode((20, c))

    def lenient():
        return x.NotReallyTeletexString.load(data).native

    def strict():
        with x.strict_teletex():
            return x.NotReallyTeletexString.load(data).native
    for fn, cs in ((lenient, 'cp1252'), (strict, 't61'), (lenient, 'cp1252')):
        st, v = ctx.attempt(fn)
        want = dec(ctx, cs, c)
        if st == 'err':
            ctx.check(isinstance(v, ValueError), 'invalid octets are a ValueError')
            ctx.check(want is None, 'valid octets are read')
            ctx.reach('refused')
        else:
            got = ords(ctx, v)
            ctx.check(want is not None and ctx.all(True, *[ctx.eq(a, b) for a, b in zip(got, want)]), 'the characters the octets stand for')
            if cs == 't61':
                ctx.check(ctx.eq(x.NotReallyTeletexString(v).contents, c), 'written in T.61')
            ctx.reach('read')


FULL = ((0, 0x10ffff),)
WIDE = ('UTF8String', 'UniversalString', 'BMPString')
HARNESSES = [
    Harness('from_text', from_text, lambda tier: [dict(cls=c, n=n, ranges=FULL) for c in CHARSET for n in (
        (0, 1, 2) if tier == 'quick' else (0, 1, 2, 3, 4))] + [dict(cls=c, n=2, ranges=((0, 0xff),), tagging=g) for c in ('UTF8String', 'IA5String', 'BMPString') for g in (
            'implicit', 'explicit')] + [dict(cls=c, n=n, ranges=((0x20, 0x7e),)) for c in CHARSET for n in (
                (9,) if c == 'TeletexString' else (130,) if tier == 'quick' else (43, 64, 127, 128, 256))],
        ['encoded', 'refused'], bounds='any text up to 2 (4) characters, ASCII text up to 130 (256); 9 in T.61'),
    Harness('long_text', long_text, named('cls n at', lambda tier: [(c, n, at) for i, c in enumerate(sorted(CHARSET)) for j, n in enumerate((33, 66, 129, 258, 1030)) for at in (
        0, n - 1) if tier != 'quick' or (i + j + (at > 0)) % 3 == 0 or n == 258 and at]), ['encoded', 'refused'],
            bounds='any one character in text of up to 1030 characters, at either end'),
    Harness('from_octets', from_octets, lambda tier: [dict(cls=c, n=n) for c in CHARSET for n in ((0, 1, 2, 3, 4) if tier == 'quick' else (0, 1, 2, 3, 4, 5))] + [
        dict(cls='UTF8String', n=6 if tier == 'quick' else 7, ranges=((0x80, 0xff),)), dict(cls='UniversalString', n=8), dict(cls='BMPString', n=6)], ['decoded', 'refused'],
        bounds='any octets up to 4 (5), longer for the wide character sets'),
    Harness('chunked', chunked, lambda tier: [dict(cls=c, n=n, cut=k) for c in CHARSET if c != 'TeletexString' for n, k in ((1, 0), (1, 1), (2, 1), (2, 2), (2, 3)) + (
        () if tier == 'quick' else ((3, 5),))], ['chunked']),
    Harness('lenient_teletex', lenient_teletex, [dict(n=n) for n in (0, 1, 2)], ['read', 'refused']),
]
