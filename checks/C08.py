from pysym.harness import Harness
from hlib import zoo, encode, ref_tlv

MODULES = ('core', 'parser', 'util')


def join(parts):
    out = b''
    for p in parts:
        out = out + p
    return out


def wrap(cls, b):
    """contents octets of a primitive encoding that carries the bytes b"""
    return b'\x00' + b if cls == 'ParsableOctetBitString' else b


def from_bytes(ctx, cls, n, tagging=None):
    core = ctx.lib.core
    t = getattr(core, cls)
    b = ctx.bytes('b', n)
    kw = {tagging: 2} if tagging else {}
    o = t(b, **kw)
    first = 0x82 if tagging == 'implicit' else t.tag
    d = o.dump()
    want = ref_tlv(ctx, first, wrap(cls, b))
    if tagging == 'explicit':
        want = ref_tlv(ctx, 0xa2, want)
    ctx.check(ctx.eq(d, want), 'encoding is tag, length and the bytes')
    ctx.check(ctx.all(ctx.eq(o.native, b), ctx.eq(ctx.call(bytes, o), b)), 'built value reads back')
    w = t.load(d, strict=True, **kw)
    ctx.check(ctx.eq(ctx.call(bytes, w), b), 'bytes of the decoded value')
    ctx.check(ctx.eq(w.native, b), 'native of the decoded value')
    ctx.check(ctx.eq(w.dump(force=True), d), 'forced re-encoding changes nothing')
    c = ctx.bytes('c', 3)
    w.set(c)
    ctx.check(ctx.all(ctx.eq(w.native, c), ctx.eq(ctx.call(bytes, w), c), ctx.eq(t.load(w.dump(), **kw).native, c)), 'a new value replaces the old one')
    ctx.reach('bytes')
    ctx.observe('d', d)


def chunks(tree, cls, ctx, parts, forms, path=()):
    """nested chunk structure: ints are primitive chunks of that many arbitrary octets, lists are constructed chunks"""
    tag = 3 if cls == 'ParsableOctetBitString' else 4
    if type(tree) is int:
        b = ctx.bytes('k%d' % len(parts), tree)
        parts.append(b)
        return (tag, wrap(cls, b))
    forms[path] = 'indef'
    return (tag | 0x20, [chunks(x, cls, ctx, parts, forms, path + (i,)) for i, x in enumerate(tree)])


def constructed(ctx, cls, shape, tagging=None):
    core = ctx.lib.core
    t = getattr(core, cls)
    parts = []
    forms = {}
    node = chunks(shape, cls, ctx, parts, forms)
    kw = {}
    if tagging == 'implicit':
        node = (0xa6, node[1])
        kw = {'implicit': 6}
    data = encode(node, forms=forms)
    if tagging == 'explicit':
        data = encode((0xa6, data))
        kw = {'explicit': 6}
    want = join(parts)
    o = t.load(data, strict=True, **kw)
    how = ctx.choice('how', ['native', 'bytes', 'dump', 'copy'])
    if cls == 'IntegerOctetString':
        n = ctx.btoi(want) if len(want) else 0
        if how == 'dump':
            o.dump()
        elif how == 'copy':
            o = o.copy()
        ctx.check(ctx.eq(o.native, n), 'the number is the one the concatenated chunks denote')
        w = t.load(o.dump(), **kw)
        ctx.check(ctx.eq(w.native, n), 're-encoding keeps the number')
        ctx.reach('number')
        return
    if how == 'native':
        ctx.check(ctx.eq(o.native, want), 'native is the concatenation of the chunks')
    elif how == 'copy':
        ctx.check(ctx.eq(o.copy().native, want), 'native of a copy is the concatenation of the chunks')
    elif how == 'dump':
        o.dump()
    ctx.check(ctx.eq(ctx.call(bytes, o), want), 'bytes are the concatenation of the chunks')
    d = o.dump()
    first = {None: t.tag, 'implicit': 0x86, 'explicit': t.tag}[tagging]
    ref = ref_tlv(ctx, first, wrap(cls, want))
    if tagging == 'explicit':
        ref = ref_tlv(ctx, 0xa6, ref)
    ctx.check(ctx.eq(d, ref), 're-encoded as one primitive string')
    w = t.load(d, strict=True, **kw)
    ctx.check(ctx.all(ctx.eq(w.native, want), ctx.eq(o.native, want)), 're-encoding keeps the bytes')
    o = t.load(data, **kw)
    c = ctx.bytes('c', 2)
    o.set(c)
    ctx.check(ctx.all(ctx.eq(o.native, c), ctx.eq(t.load(o.dump(), strict=True, **kw).native, c)), 'a new value replaces the chunks')
    ctx.reach('chunks')


def bad_chunk(ctx, cls, first):
    """a chunk of another type is refused, not misread"""
    core = ctx.lib.core
    t = getattr(core, cls)
    tag = t.tag
    b = ctx.bytes('b', 1)
    f = ctx.int('f', first, first + 31)
    ctx.assume(ctx.not_(ctx.any(ctx.eq(f, tag), ctx.eq(f & 31, 31), ctx.eq(f, 0))))
    data = ctx.byte_str([tag | 0x20, 0x80, tag, 2, 0, 7, f, 2, 0]) + b + b'\x00\x00'
    st, v = ctx.attempt(lambda: t.load(data).native)
    ctx.check(st == 'err', 'refused')
    if st == 'err':
        ctx.check(isinstance(v, ValueError), 'refused with ValueError')
    ctx.reach('refused')


def integer(ctx, lo, hi, width):
    """numbers carried in an octet string"""
    core = ctx.lib.core
    v = ctx.int('v', lo, hi)
    o = core.IntegerOctetString(v)
    n = len(o.contents)
    ctx.check(ctx.all(ctx.eq(ctx.btoi(o.contents), v), n == 1 or ctx.get(o.contents, 0) != 0), 'shortest big-endian octets')
    ctx.check(ctx.all(ctx.eq(o.native, v), ctx.eq(core.IntegerOctetString.load(o.dump()).native, v)), 'reads back')
    o.set_encoded_width(width)
    ctx.check(ctx.all(len(o.contents) == width, ctx.eq(ctx.btoi(o.contents), v), ctx.eq(o.native, v)), 'exactly the width asked for')
    w = core.IntegerOctetString.load(o.dump())
    ctx.check(ctx.eq(w.native, v), 'the wide form reads back')
    w.set_encoded_width(width + 1)
    ctx.check(ctx.all(len(w.contents) == width + 1, ctx.eq(core.IntegerOctetString.load(w.dump()).native, v)), 'widened')
    ctx.reach('integer')
    ctx.observe('d', w.dump())


def int_decode(ctx, n):
    core = ctx.lib.core
    c = ctx.bytes('c', n)
    o = core.IntegerOctetString.load(encode((4, c)))
    v = ctx.btoi(c) if n else 0
    ctx.check(ctx.eq(o.native, v), 'the octets denote the number')
    d = o.dump(force=True)
    ctx.check(ctx.eq(core.IntegerOctetString.load(d).native, v), 'forced re-encoding keeps the number')
    ctx.reach('int')


def parsable(ctx, cls, order, n):
    """parsed value, native value and raw bytes of an octet string agree, also after replacement"""
    core = ctx.lib.core
    z = zoo(ctx)
    t = getattr(core, cls)
    x = ctx.bytes('x', n)
    inner = encode((0x30, encode((2, x)) + encode((1, b'\xff'))))
    data = encode((t.tag, wrap(cls, inner)))
    o = t.load(data)
    num = ctx.btoi(x, True)
    y = ctx.int('y', -300, 300)
    for step in order:
        if step == 'parse':
            p = o.parse(z.Inner)
            ctx.check(ctx.eq(p['x'].native, num), 'parsed value comes from the bytes')
            ctx.check(ctx.all(ctx.eq(o.native['x'], num), p['y'].native is True), 'native value is the one of the parsed value')
            ctx.check(o.parsed is p, 'the parsed value is kept')
        elif step == 'other':
            p = o.parse(core.Sequence)
            ctx.check(ctx.eq(p[0].native, num), 'parsed with another type')
        elif step == 'bytes':
            ctx.check(ctx.eq(ctx.call(bytes, o), inner), 'bytes')
        elif step == 'dump':
            ctx.check(ctx.eq(t.load(o.dump()).parse(z.Inner)['x'].native, num), 'dump')
        elif step == 'force':
            ctx.check(ctx.eq(t.load(o.dump(force=True)).parse(z.Inner)['x'].native, num), 'forced dump')
            inner = ctx.call(bytes, o)
        elif step == 'replace':
            inner = encode((0x30, encode((2, b'\x05'))))
            num = 5
            o.set(inner)
            ctx.check(ctx.eq(o.native, inner), 'a replaced value is not parsed until asked for')
            ctx.check(ctx.eq(o.parse(z.Inner)['x'].native, 5), 'replaced bytes are parsed afresh')
            o.set(inner)
            ctx.check(ctx.eq(ctx.call(bytes, o), inner), 'replaced bytes')
            break
        elif step == 'change':
            o.parse(z.Inner)['x'] = y
            num = y
            inner = z.Inner({'x': y, 'y': True}).dump()
            ctx.check(ctx.eq(ctx.call(bytes, o), inner), 'a change of the parsed value changes the bytes')
            ctx.check(ctx.eq(t.load(o.dump()).parse(z.Inner)['x'].native, y), 'a change of the parsed value is encoded')
            ctx.check(ctx.eq(o.native['x'], y), 'a change of the parsed value is in the native value')
    ctx.check(ctx.eq(ctx.call(bytes, o), inner), 'bytes at the end')
    ctx.check(ctx.eq(t.load(o.dump(), strict=True).native, inner), 'encoding at the end')
    ctx.check(ctx.eq(o.copy().dump(), o.dump()), 'a copy encodes alike')
    ctx.reach('parsable')


def built_parsed(ctx, cls):
    """built from a value to carry"""
    core = ctx.lib.core
    z = zoo(ctx)
    t = getattr(core, cls)
    v = ctx.int('v', -70000, 70000)
    i = z.Inner({'x': v})
    o = t(parsed=i)
    ctx.check(ctx.eq(ctx.call(bytes, o), i.dump()), 'bytes are the encoding of the value')
    ctx.check(ctx.eq(o.native['x'], v), 'native value')
    ctx.check(ctx.eq(t.load(o.dump()).parse(z.Inner)['x'].native, v), 'decodes')
    i['x'] = 7
    ctx.check(ctx.eq(t.load(o.dump()).parse(z.Inner)['x'].native, 7), 'a change of the carried value is encoded')
    ctx.reach('built')


def in_sequence(ctx, shape, extra):
    """a chunked octet string as a field"""
    z = zoo(ctx)
    parts = []
    forms = {}
    node = chunks(shape, 'OctetString', ctx, parts, forms)
    data = encode((0x30, encode((2, b'\x01')) + encode(node, forms=forms) + (encode((1, b'\xff')) if extra else b'')))
    o = z.Opt.load(data)
    ctx.check(ctx.eq(o['b'].native, join(parts)), 'the field is the concatenation')
    ctx.check(ctx.eq(o.native['b'], join(parts)), 'also in the native value')
    ctx.check(o['c'].native == extra, 'the following field is found')
    d = o.dump(force=True)
    w = z.Opt.load(d)
    ctx.check(ctx.eq(w['b'].contents, join(parts)), 'forced re-encoding merges the chunks')
    ctx.check(w['c'].native == extra, 'the following field is kept')
    ctx.reach('field')


ORDERS = [('parse',), ('bytes', 'parse'), ('parse', 'bytes', 'dump'), ('parse', 'replace'), ('replace',), ('bytes', 'replace'), ('parse', 'change'),
          ('parse', 'change', 'force'), ('other', 'parse', 'other', 'parse'), ('force', 'parse', 'force'), ('parse', 'force', 'change', 'replace'),
          ('change', 'dump', 'change', 'bytes'), ('dump', 'other', 'dump')]
SHAPES = [[], [0], [1], [2, 1], [0, 3], [[2], 1], [[], [1, [1]]], [1, [], 1]]
HARNESSES = [
    Harness('from_bytes', from_bytes, lambda tier: [dict(cls=c, n=n) for c in ('OctetString', 'ParsableOctetString', 'ParsableOctetBitString', 'VideotexString') for n in (
        (0, 1, 3, 127, 128) if tier == 'quick' else (0, 1, 2, 3, 8, 126, 127, 128, 129, 255, 256, 300))] + [
        dict(cls=c, n=2, tagging=g) for c in ('OctetString', 'ParsableOctetString') for g in ('implicit', 'explicit')], ['bytes'],
        bounds='any bytes of length 0-3, 127, 128 (up to 300)'),
    Harness('constructed', constructed, lambda tier: [dict(cls=c, shape=s, tagging=g) for c in (
        'OctetString', 'ParsableOctetString', 'ParsableOctetBitString', 'IntegerOctetString') for s in SHAPES + ([] if tier == 'quick' else [
            [1, 1, 1, 1], [130], [[[[2]]]], [[1, 2], [3, [0, 1]], 2]]) for g in (None, 'implicit', 'explicit')
        if not (tier == 'quick' and g and c not in ('OctetString', 'ParsableOctetBitString'))], ['chunks', 'number'],
        bounds='chunk structures up to three levels deep'),
    Harness('bad_chunk', bad_chunk, [dict(cls=c, first=f) for c in ('OctetString', 'ParsableOctetString', 'IntegerOctetString') for f in range(0, 256, 32)], ['refused']),
    Harness('integer', integer, [dict(lo=0, hi=70000, width=4), dict(lo=(1 << 64) - 3, hi=(1 << 64) + 3, width=12), dict(lo=0, hi=1 << 40, width=6),
                                 dict(lo=(1 << 256) - 3, hi=(1 << 256) + 3, width=66)], ['integer']),
    Harness('int_decode', int_decode, lambda tier: [dict(n=n) for n in ((0, 1, 2, 3, 6) if tier == 'quick' else range(0, 9))], ['int']),
    Harness('parsable', parsable, lambda tier: [dict(cls=c, order=o, n=n) for c in ('ParsableOctetString', 'ParsableOctetBitString') for o in ORDERS for n in (
        (2,) if tier == 'quick' else (1, 2, 3, 4))], ['parsable'], bounds='the listed operation sequences on a nested INTEGER of 2 (1-4) octets'),
    Harness('built_parsed', built_parsed, [dict(cls=c) for c in ('ParsableOctetString', 'ParsableOctetBitString')], ['built']),
    Harness('in_sequence', in_sequence, [dict(shape=s, extra=e) for s in SHAPES for e in (True, False)], ['field']),
]
