from itertools import permutations
from pysym.harness import Harness
from hlib import ref_element, ref_len, encode, tree, leaves, nodes_of, at, replace, templates, template, walk, zoo
from C03 import PRIMS as KNOWN, STRUCTS

PRIMS = KNOWN + ('ObjectDescriptor', 'Real')

MODULES = ('core', 'parser', 'util', 'x509', 'cms', 'crl', 'csr', 'ocsp', 'keys', 'algos', 'tsp', 'pkcs12', 'pdf')


def der(ctx, d, p, n, msg, deep=True):
    """definite-length elements with minimal headers fill d[p:n]"""
    while p < n:
        e = ref_element(d, p, n)
        ctx.check(e is not None, msg + ': well-formed')
        if e is None:
            return
        cls, method, tag, cs, ce, end = e
        k = p + 1
        if d[p] & 31 == 31:
            while d[k] >= 128:
                k += 1
            k += 1
        ctx.check(ce == end and ctx.eq(d[k:cs], ref_len(ce - cs)), msg + ': minimal length octets')
        if deep and method:
            der(ctx, d, cs, ce, msg)
        p = end


def extra(ctx, v):
    """has components beyond its fields, which are kept without a type"""
    core = ctx.lib.core
    if isinstance(v, core.Choice):
        return extra(ctx, v.chosen)
    if isinstance(v, core.Sequence):
        return len(v) > len(v._fields) or any([extra(ctx, v[i]) for i in range(len(v))])
    if isinstance(v, core.SequenceOf):
        return any([extra(ctx, x) for x in v])
    return False


def unordered(ctx, a, b):
    """equal as multisets"""
    if len(a) != len(b):
        return False
    return ctx.any(*[ctx.all(*[ctx.eq(x, y) for x, y in zip(a, p)]) for p in permutations(b)])


def forced(ctx, load, data, deep=True, eq=None):
    """the forced encoding of data, or None when it has no meaning"""
    eq = eq or ctx.eq
    st, v = ctx.attempt(load, data)
    if st == 'err':
        ctx.check(isinstance(v, ValueError), 'refused with ValueError')
        ctx.reach('refused')
        return None
    st, nat = ctx.attempt(lambda: v.native)
    w = load(data)
    s2, d = ctx.attempt(w.dump, True)
    if st == 'err':
        if s2 == 'err':
            ctx.check(isinstance(d, ValueError), 'not re-encodable: ValueError')
        ctx.reach('unreadable')
        return None
    ctx.check(s2 == 'ok', 'a readable value can be re-encoded')
    der(ctx, d, 0, len(d), 'forced encoding', deep and not extra(ctx, v))
    ctx.check(ctx.eq(v.dump(force=True), d), 'the same encoding after reading')
    ctx.check(eq(v.native, nat), 'the native value after re-encoding')
    ctx.check(ctx.eq(w.dump(), d), 'and it stays')
    st, x = ctx.attempt(lambda: load(d))
    ctx.check(st == 'ok', 'the encoding loads again')
    ctx.check(eq(x.native, nat), 'and has the same value')
    ctx.check(ctx.eq(x.dump(force=True), d), 're-encoding it changes nothing')
    ctx.check(ctx.eq(load(d).dump(force=True), d), 'nor when not read before')
    ctx.reach('re-encoded')
    return d


def primitive(ctx, cls, n, form, tagging=None):
    t = getattr(ctx.lib.core, cls)
    contents = ctx.bytes('contents', n)
    first = t.tag
    kw = {}
    want = t.tag
    if tagging == 'implicit':
        first = want = 0x85
        kw = {'implicit': 5}
    data = encode((first, contents), form)
    if tagging == 'explicit':
        data = encode((0xa5, data), form)
        kw = {'explicit': 5}
    d = forced(ctx, lambda d: t.load(d, **kw), data)
    if d is None:
        return
    ctx.check(ctx.eq(d[0], 0xa5 if tagging == 'explicit' else want), 'its own tag')
    exact = ('Integer', 'OctetString', 'IntegerOctetString', 'ParsableOctetString', 'ObjectIdentifier', 'Null') + tuple(
        p for p in PRIMS if p.endswith('String') and 'Bit' not in p)
    if cls == 'Null':
        contents = b''
    if cls in exact and cls not in ('Integer', 'IntegerOctetString', 'ObjectIdentifier'):
        body = encode((want, contents))
        ctx.check(ctx.eq(d, encode((0xa5, body)) if tagging == 'explicit' else body), 'the same contents')


def chunked(ctx, cls, sizes, wrap):
    """constructed strings become primitive ones with the joined contents"""
    core = ctx.lib.core
    t = getattr(core, cls)
    cs = [ctx.bytes('c%d' % i, s) for i, s in enumerate(sizes)]
    bit = cls in ('BitString', 'OctetBitString', 'IntegerBitString', 'ParsableOctetBitString')
    chunks = [(t.tag, b'\x00' + c if bit else c) for c in cs]
    data = encode((t.tag | 0x20, chunks), forms={(): 'indef'})
    whole = b''
    for c in cs:
        whole = whole + c
    body = encode((t.tag, (b'\x00' if bit else b'') + whole))
    load = t.load
    if wrap == 'explicit':
        data, body = encode((0xa3, data), forms={(): 'indef'}), encode((0xa3, body))
        load = lambda d: t.load(d, explicit=3)
    elif wrap == 'implicit':
        data, body = b'\xa3' + data[1:], b'\x83' + body[1:]
        load = lambda d: t.load(d, implicit=3)
    elif wrap == 'field':
        class S(core.Sequence):
            _fields = [('f', t), ('g', core.Integer)]
        data, body = encode((0x30, data + b'\x02\x01\x07')), encode((0x30, body + b'\x02\x01\x07'))
        load = S.load
    d = forced(ctx, load, data)
    if d is not None:
        if cls not in ('IntegerOctetString', 'IntegerBitString'):
            ctx.check(ctx.eq(d, body), 'the chunks joined in one primitive string')
        ctx.reach('joined')


def structure(ctx, cls, shape, form):
    z = zoo(ctx)
    t = getattr(z, cls)
    parts = b''
    for i, (first, n, f) in enumerate(shape):
        c = ctx.bytes('p%d' % i, n) if type(n) is int else n
        parts = parts + encode((first, c), f)
    outer = 0x31 if cls in ('ASet', 'OctSet', 'IntSet') else 0x30
    data = parts if cls == 'Alt' else encode((outer, parts), form)
    # the order of a SET OF has no meaning, an open type of an unknown identifier is kept as it is
    forced(ctx, t.load, data, deep=(6, b'\x2a\x09', 'min') not in shape, eq=(lambda a, b: unordered(ctx, a, b)) if cls in ('OctSet', 'IntSet') else None)


def variant(ctx, name, node, leaf, form):
    """a producer's choice of length octets does not matter: the forced encoding is that of the minimal form"""
    t, data = template(ctx, name)
    nodes = tree(data)
    first, c = at(nodes, leaf)
    if c:
        c = c[:-1] + ctx.bytes('leaf', 1)
    nodes = replace(nodes, leaf, (first, c))
    d = forced(ctx, t.load, encode(nodes[0], forms={node[1:]: form}))
    if d is not None:
        plain = t.load(encode(nodes[0])).dump(force=True)
        ctx.check(ctx.eq(d, plain), 'the same as for the minimal form')


def variants(tier):
    names = ['cert_small', 'crl', 'ocsp_small', 'csr_small', 'cms_signed_small', 'cms_enveloped_small', 'ec_private', 'pkcs8_ec', 'rc2', 'pss',
             'encrypted_key', 'tsp_request', 'name', 'ocsp_req_small']
    if tier != 'quick':
        names = sorted(templates())
    out = []
    k = 0
    for n in names:
        nodes = tree(templates()[n][2])
        ls = leaves(nodes)
        for p in nodes_of(nodes):
            cons = type(at(nodes, p)[1]) is list
            under = [x for x in ls if x[:len(p)] == p] or ls[:1]
            forms = [f for f in (('indef', 1, 2) if cons else (1, 3))]
            for f in forms if tier != 'quick' else forms[k % len(forms):][:1]:
                if f == 1 and len(encode(at(nodes, p))) > 200:
                    f = 4
                out.append(dict(name=n, node=p, leaf=under[k % len(under)], form=f))
            k += 1
    return out[::2] if tier == 'quick' else out


def prims(tier):
    out = []
    for c in PRIMS:
        for n in range(0, 3 if tier == 'quick' else 4):
            out.append(dict(cls=c, n=n, form='min'))
        out.append(dict(cls=c, n=2, form=2))
        out.append(dict(cls=c, n=1, form=3, tagging='implicit'))
        out.append(dict(cls=c, n=1, form=1, tagging='explicit'))
    return out


STR = ('OctetString', 'IntegerOctetString', 'ParsableOctetString', 'BitString', 'OctetBitString', 'IntegerBitString', 'ParsableOctetBitString',
       'UTF8String', 'PrintableString', 'BMPString')


def chunk_cases(tier):
    out = []
    for i, c in enumerate(STR):
        for j, s in enumerate(((), (1,), (2, 2), (0, 2))):
            ws = (None, 'explicit', 'implicit', 'field')
            for w in ws if tier != 'quick' else (ws[(i + j) % 4], ws[(i + j + 1) % 4]):
                out.append(dict(cls=c, sizes=s, wrap=w))
    return out


HARNESSES = [
    Harness('primitive', primitive, prims, ['re-encoded', 'unreadable'], bounds='contents up to 2 (3) octets, long lengths, implicit and explicit tags'),
    Harness('chunked', chunked, chunk_cases, ['joined', 'unreadable'], bounds='up to two chunks of up to 2 octets, plain, tagged and in a sequence'),
    Harness('structure', structure, lambda tier: [dict(cls=c, shape=s, form=f) for i, (c, s) in enumerate(STRUCTS) for f in (
        ('min', 2)[i % 2:i % 2 + 1] if tier == 'quick' else ('min', 1, 2, 4))], ['re-encoded', 'unreadable', 'refused'],
        bounds='the listed component shapes, each with arbitrary contents'),
    Harness('variant', variant, variants, ['re-encoded', 'unreadable'],
            bounds='each node of each listed real structure with long or indefinite length, with one octet of a leaf arbitrary'),
]
