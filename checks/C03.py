from pysym.harness import Harness
from hlib import ref_element, encode, tree, leaves, at, replace, templates, template, read, zoo

MODULES = ('core', 'parser', 'util', 'x509', 'cms', 'crl', 'csr', 'ocsp', 'keys', 'algos', 'tsp', 'pkcs12', 'pdf')


def lossless(ctx, load, data, end, parts=False):
    """load, dump, read everything, dump; and read first, dump afterwards; and read a single part first"""
    st, v = ctx.attempt(load, data)
    if st == 'err':
        ctx.reach('refused')
        return
    want = data[0:end]
    ctx.check(ctx.eq(v.dump(), want), 'dump of a freshly loaded value is the loaded bytes')
    s1, _ = read(ctx, v, 'native')
    ctx.check(ctx.eq(v.dump(), want), 'dump after native is the loaded bytes')
    s2, _ = read(ctx, v, 'walk')
    ctx.check(ctx.eq(v.dump(), want), 'dump after visiting every part is the loaded bytes')
    w = load(data)
    s3, _ = read(ctx, w, 'walk')
    s4, _ = read(ctx, w, 'contents')
    ctx.check(ctx.eq(w.dump(), want), 'dump after reading is the loaded bytes')
    if parts:
        one_part_first(ctx, load, data, want)
    if s1 == 'ok':
        ctx.reach('readable')
    else:
        ctx.reach('unreadable')


def one_part_first(ctx, load, data, want):
    """read one part, or only its value, before everything else"""
    core = ctx.lib.core
    st, n = ctx.attempt(lambda: len(load(data)))
    if st == 'err' or not isinstance(load(data), (core.Sequence, core.SequenceOf)):
        return
    for i in range(n):
        for value in ((True, False) if n == 1 else (i % 2 == 0,)):
            w = load(data)
            ctx.attempt(lambda: w[i].native if value else w[i])
            if value:
                ctx.check(ctx.eq(w.dump(), want), 'dump after reading one part is the loaded bytes')
            read(ctx, w, 'native')
            ctx.check(ctx.eq(w.dump(), want), 'dump after reading one part and then the native value is the loaded bytes')


def outer_definite(ctx, data):
    """the first length octet of a single-octet-tag element is not the indefinite form"""
    return ctx.not_(ctx.eq(data[1], 0x80))


def universal(ctx, n):
    """any definite-length byte string loaded without a type"""
    data = ctx.bytes('data', n)
    if n >= 2:
        ctx.assume(ctx.any(data[0] & 31 != 31))
        ctx.assume(outer_definite(ctx, data))
    e = ref_element(data, 0, n)
    if e is None:
        ctx.reach('malformed')
        return
    lossless(ctx, ctx.lib.core.load, data, e[5])


PRIMS = ('Boolean', 'Integer', 'BitString', 'OctetBitString', 'IntegerBitString', 'OctetString', 'IntegerOctetString',
         'ParsableOctetString', 'ParsableOctetBitString', 'Null', 'ObjectIdentifier', 'UTF8String', 'NumericString', 'PrintableString',
         'TeletexString', 'VideotexString', 'IA5String', 'UTCTime', 'GeneralizedTime', 'VisibleString', 'GeneralString',
         'UniversalString', 'CharacterString', 'BMPString', 'GraphicString')


def primitive(ctx, cls, n, form, tagging=None):
    """every primitive type, any contents, every length form"""
    t = getattr(ctx.lib.core, cls)
    contents = ctx.bytes('contents', n)
    first = t.tag
    kw = {}
    if tagging == 'implicit':
        first = 0x85
        kw = {'implicit': 5}
    data = encode((first, contents), form)
    if tagging == 'explicit':
        data = encode((0xa5, data), form)
        kw = {'explicit': 5}
    lossless(ctx, lambda d: t.load(d, **kw), data, len(data))


def chunked(ctx, cls, sizes):
    """a constructed indefinite-length string inside a definite-length structure keeps its bytes"""
    t = getattr(ctx.lib.core, cls)
    chunks = []
    for i, s in enumerate(sizes):
        c = ctx.bytes('c%d' % i, s)
        chunks.append((t.tag, c))
    inner = encode((t.tag | 0x20, chunks), forms={(): 'indef'})
    data = encode((0x30, inner))
    lossless(ctx, ctx.lib.core.load, data, len(data))
    if cls == 'OctetString':
        z = zoo(ctx)
        data = encode((0x30, encode((2, b'\x01')) + inner))
        lossless(ctx, z.Opt.load, data, len(data))


def structure(ctx, cls, shape, form):
    """types with optional, default, tagged, nested and open fields; arbitrary contents in the last component"""
    z = zoo(ctx)
    t = getattr(z, cls)
    parts = b''
    for i, (first, n, f) in enumerate(shape):
        c = ctx.bytes('p%d' % i, n) if type(n) is int else n
        parts = parts + encode((first, c), f)
    outer = 0x31 if cls in ('ASet', 'OctSet', 'IntSet') else 0x30
    data = parts if cls == 'Alt' else encode((outer, parts), form)
    lossless(ctx, t.load, data, len(data), parts=True)


STRUCTS = [
    ('Opt', [(2, 2, 'min'), (4, 2, 2), (1, 1, 'min')]),
    ('Opt', [(2, 1, 1), (1, 1, 1), (0x80, 2, 1)]),
    ('Opt', [(2, 1, 'min'), (0xa1, b'\x0c\x01a', 1)]),
    ('Opt', [(2, 1, 'min'), (0xa1, 4, 'min')]),
    ('Opt', [(2, b'\x01', 'min'), (0xa2, 5, 'min')]),
    ('Opt', [(2, 0, 'min'), (4, 0, 'min')]),
    ('Inner', [(2, 1, 'min'), (1, 1, 'min')]),
    ('Inner', [(2, 3, 'min')]),
    ('Inner', [(2, 1, 1), (1, 1, 3)]),
    ('Defaults', []),
    ('Defaults', [(2, 1, 'min'), (0x80, 1, 'min')]),
    ('Defaults', [(0xa1, 3, 'min'), (0xa2, 4, 'min')]),
    ('Defaults', [(0xa2, b'\x02\x01\x01', 'min')]),
    ('Defaults', [(0xa2, b'', 'min')]),
    ('Ints', [(2, 1, 'min'), (2, 2, 1)]),
    ('Ints', [(2, 0, 'min'), (2, 0, 'min'), (2, 1, 'min')]),
    ('Inners', [(0x30, 4, 'min')]),
    ('Nest', [(0x30, 4, 'min'), (0x30, b'\x02\x01\x05', 'min')]),
    ('Nest', [(0x30, b'\x02\x01\x05', 1), (0x30, 3, 1), (0x30, 4, 1)]),
    ('OctSet', [(4, 2, 'min'), (4, 1, 'min')]),
    ('IntSet', [(2, 1, 'min'), (2, 1, 1), (2, 1, 'min')]),
    ('ASet', [(0x81, 1, 'min'), (2, 1, 'min')]),
    ('ASet', [(1, 1, 'min'), (2, 1, 1), (0x81, 1, 'min')]),
    ('ASet', [(2, 1, 'min'), (2, 1, 'min'), (0x81, 0, 'min')]),
    ('ASet', [(2, 1, 'min'), (0x81, 1, 'min'), (0xa0, b'\x0c\x01b', 'min')]),
    ('Alt', [(2, 2, 1)]),
    ('Alt', [(0x80, 2, 2)]),
    ('Alt', [(0xa1, 3, 1)]),
    ('Alt', [(0x30, 3, 1)]),
    ('Alt', [(0xa2, 3, 'min')]),
    ('WithAlt', [(0x89, 1, 'min'), (2, 1, 'min'), (0xa5, 3, 'min')]),
    ('WithAlt', [(0xa5, b'\xa1\x03\x02\x01\x05', 'min'), (1, 1, 'min')]),
    ('WithAlt', [(0xa5, b'\xa1\x80\x02\x01\x05\x00\x00', 'min'), (1, 1, 'min')]),
    ('WithAlt', [(0xa1, 3, 'min'), (1, 1, 'min')]),
    ('Open', [(6, b'\x2a\x03', 'min'), (2, 2, 1)]),
    ('Open', [(6, 2, 'min'), (2, 1, 'min')]),
    ('Open', [(6, b'\x2a\x04', 'min'), (0x30, 3, 'min')]),
    ('Open', [(6, b'\x2a\x05', 'min'), (12, 2, 1)]),
    ('Open', [(6, b'\x2a\x09', 'min'), (0x30, 2, 1)]),
    ('OpenOpt', [(6, 2, 'min')]),
    ('OpenTag', [(6, 2, 'min'), (0xa0, b'\x02\x01\x05', 'min')]),
    ('OpenTag', [(6, b'\x2a\x03', 'min'), (0xa0, 3, 'min')]),
    ('OpenOct', [(6, b'\x2a\x03', 'min'), (4, 3, 'min')]),
    ('OpenOct', [(6, b'\x2a\x04', 1), (4, b'\x30\x80\x02\x01\x05\x00\x00', 'min')]),
    ('Prims', [(2, 1, 'min'), (10, 1, 'min'), (5, 0, 'min')]),
    ('Prims', [(3, 2, 'min'), (6, b'\x2a\x03', 1)]),
    ('Prims', [(5, 1, 'min'), (6, 2, 1)]),
]


def boundary(ctx, total, kind):
    """elements whose length octets end in 0x80 (128, 384, ...) are ordinary definite lengths"""
    c = ctx.lib.core
    if kind == 'seq':
        b = ctx.bytes('b', 1)
        inner = encode((1, b), 2)
        data = encode((0x30, inner + encode((4, bytes(total - len(inner) - (2 if total - len(inner) - 2 < 128 else 3 if total - len(inner) - 3 < 256 else 4))))))
        load = c.load
        if len(data) < total:
            return
    elif kind == 'explicit':
        b = ctx.bytes('b', 1)
        data = encode((0xa3, encode((4, bytes(total - 1) + b))))
        load = lambda d: c.OctetString.load(d, explicit=3)
    elif kind == 'bits':
        b = ctx.bytes('b', 1)
        u = ctx.bytes_in('u', 1, [(0, 7)])
        data = encode((3, u + bytes(total - 2) + b))
        load = c.load
    elif kind == 'int':
        b = ctx.bytes('b', 1)
        data = encode((2, b'\x00\x00' + bytes(total - 3) + b))
        load = c.load
    elif kind == 'choice':
        b = ctx.bytes('b', 1)
        z = zoo(ctx)
        pad = encode((4, bytes(total - 9)))
        data = encode((0xa5, encode((0x30, encode((2, b'\x00' + b)) + encode((1, b))))))
        load = lambda d: z.Alt.load(d, explicit=5)
    else:
        b = ctx.bytes('b', 1)
        z = zoo(ctx)
        data = encode((0x30, encode((2, b'\x00' * (total - 3 - 7 - 3) + b)) + encode((4, b'abcd'), 1) + encode((1, b), 1)))
        load = z.Opt.load
    lossless(ctx, load, data, len(data))


def in_template(ctx, name, path, start, count):
    """real-world structures with part of one leaf arbitrary"""
    t, data = template(ctx, name)
    nodes = tree(data)
    first, c = at(nodes, path)
    if count == 'new':
        new = ctx.bytes('leaf', start)
    else:
        new = c[:start] + ctx.bytes('leaf', count) + c[start + count:]
    d = encode(replace(nodes, path, (first, new))[0])
    lossless(ctx, t.load, d, len(d))


def tmpl_cases(tier):
    names = ['cert_small', 'crl', 'ocsp_small', 'csr_small', 'cms_signed_small', 'cms_enveloped_small', 'ec_private', 'pkcs8_ec', 'rc2', 'pss',
             'encrypted_key', 'tsp_request', 'name', 'ocsp_req_small']
    if tier == 'thorough':
        names = sorted(templates())
    out = []
    for n in names:
        nodes = tree(templates()[n][2])
        for i, p in enumerate(leaves(nodes)):
            l = len(at(nodes, p)[1])
            if tier == 'quick':
                out.append(dict(name=n, path=p, start=2 if i % 3 == 0 else 1, count='new'))
            else:
                for m in (0, 1, 2, 3):
                    out.append(dict(name=n, path=p, start=m, count='new'))
                if l >= 2:
                    out.append(dict(name=n, path=p, start=0, count=2))
                    out.append(dict(name=n, path=p, start=l - 2, count=2))
    return out


def prim_cases(tier):
    out = []
    for c in PRIMS:
        top = 2 if tier == 'quick' else 3
        for n in range(0, top + 1):
            out.append(dict(cls=c, n=n, form='min'))
        out.append(dict(cls=c, n=2, form=2))
        out.append(dict(cls=c, n=1, form=1))
        out.append(dict(cls=c, n=1, form=3, tagging='implicit'))
        out.append(dict(cls=c, n=1, form=1, tagging='explicit'))
        out.append(dict(cls=c, n=1, form=4, tagging='explicit'))
    return out


HARNESSES = [
    Harness('universal', universal, {'quick': [dict(n=n) for n in (0, 1, 2, 3, 4)], 'thorough': [dict(n=n) for n in range(0, 8)]},
            ['readable', 'unreadable', 'malformed', 'refused'], bounds='every byte string up to 4 (7) octets, single-octet tag'),
    Harness('primitive', primitive, prim_cases, ['readable', 'unreadable'],
            bounds='contents up to 2 (3) octets; length forms short, 0x81, 0x82, 0x83; implicit and explicit tags'),
    Harness('chunked', chunked, [dict(cls=c, sizes=s) for c in ('OctetString', 'UTF8String', 'BitString') for s in ((), (1,), (2, 1))],
            ['readable', 'unreadable']),
    Harness('structure', structure, lambda tier: [dict(cls=c, shape=s, form=f) for i, (c, s) in enumerate(STRUCTS) for f in (
        ('min', 2)[i % 2:i % 2 + 1] if tier == 'quick' else ('min', 1, 2, 4))], ['readable', 'unreadable', 'refused'],
        bounds='the listed component shapes, each with arbitrary contents'),
    Harness('boundary', boundary, [dict(total=t, kind=k) for t in (127, 128, 129, 256, 384) for k in (
        'seq', 'explicit', 'bits', 'int', 'opt', 'choice')], ['readable']),
    Harness('in_template', in_template, tmpl_cases, ['readable', 'unreadable'],
            bounds='each leaf of each listed real structure replaced by arbitrary contents of 1-2 (0-3) octets, or a 2-octet window of it'),
]
