import copy

from pysym.harness import Harness
from hlib import encode, tree, leaves, at, replace, zoo
from C03 import PRIMS, STRUCTS
from C14 import types, start, inner, nodes, begin, check_all, usable, plain, OPS, READS, NEEDS
from C18 import samples, type_of, properties

MODULES = ('core', 'parser', 'util', 'x509', 'cms', 'crl', 'csr', 'ocsp', 'keys', 'algos', 'tsp', 'pkcs12', 'pdf', '_iri', '_inet', '_types')

CLASSES = {0: 'universal', 1: 'application', 2: 'context', 3: 'private'}
STRINGS = ('BitString', 'OctetBitString', 'IntegerBitString', 'OctetString', 'IntegerOctetString', 'ParsableOctetString', 'ParsableOctetBitString',
           'UTF8String', 'NumericString', 'PrintableString', 'TeletexString', 'VideotexString', 'IA5String', 'VisibleString', 'GeneralString',
           'UniversalString', 'CharacterString', 'BMPString', 'GraphicString')


def pickled(v):
    """what pickle does with the value of __reduce__, the arguments being plain values"""
    f, args = v.__reduce__()
    return f(*args)


COPIES = {
    'copy': lambda v: v.copy(),
    'shallow': lambda v: copy.copy(v),
    'deep': lambda v: copy.deepcopy(v),
    'pickle': pickled,
}


def read(v, how):
    if how in ('native', 'both'):
        try:
            v.native
        except ValueError:
            pass
    if how in ('dump', 'both'):
        try:
            v.dump()
        except ValueError:
            # (received in chunks that are no text)
            pass


def outcome(ctx, f):
    """the value of f, or that it is refused"""
    st, r = ctx.attempt(f)
    if st == 'err':
        ctx.check(isinstance(r, ValueError), 'refused with ValueError')
        return 'refused'
    return plain(r)


def same(ctx, v, w, msg):
    ctx.check(type(v) is type(w), msg + ': type')
    ctx.check(ctx.eq(outcome(ctx, lambda: v.native), outcome(ctx, lambda: w.native)), msg + ': native')
    ctx.check(ctx.eq(v.contents, w.contents), msg + ': contents')


def put_tag(first, tagging):
    """identifier and the wrapping for a constructed bit and a tagging"""
    kind, cls, tag = tagging
    bits = 0x20 if kind == 'explicit' else first & 0x20
    if tag < 31:
        return bytes([cls << 6 | bits | tag])
    out = [tag & 127]
    while tag > 127:
        tag >>= 7
        out.append(tag & 127 | 128)
    return bytes([cls << 6 | bits | 31] + out[::-1])


def expected(first, contents, tagging):
    """the DER element for universal identifier first, with a tagging around or in place of it"""
    if tagging is None:
        return encode((first, contents))
    i = put_tag(first, tagging)
    if tagging[0] == 'implicit':
        return encode((i, contents))
    return encode((i, encode((first, contents))))


def kw(tagging):
    if tagging is None:
        return {}
    return {tagging[0]: (CLASSES[tagging[1]], tagging[2])}


def copied(ctx, v, how, tagging, other):
    """(copy, its tagging)"""
    if how == 'untag':
        return v.untag(), None
    if how == 'retag':
        return v.retag(kw(other)), other
    return COPIES[how](v), tagging


def check_copy(ctx, v, w, first, contents, tagging, old, msg):
    same(ctx, v, w, msg)
    ctx.check(ctx.eq(w.contents, contents), msg + ': the contents')
    e = expected(first, contents, tagging)
    ctx.check(ctx.eq(w.dump(), e), msg + ': encoding')
    ctx.check(ctx.eq(v.dump(), old), msg + ': the original dumps as before')
    x = type(v).load(w.dump(), strict=True, **kw(tagging))
    ctx.check(ctx.eq(outcome(ctx, lambda: x.native), outcome(ctx, lambda: v.native)), msg + ': decodes with its tagging')


def primitive(ctx, cls, n, form, tagging, how, other, before):
    """every primitive type with any contents, whatever the length form it came in"""
    t = getattr(ctx.lib.core, cls)
    contents = ctx.bytes('contents', n)
    first = t.tag
    if tagging is None:
        data = encode((first, contents), form)
    elif tagging[0] == 'implicit':
        data = encode((put_tag(first, tagging), contents), form)
    else:
        data = encode((put_tag(first, tagging), encode((first, contents), form)), form)
    v = t.load(data, **kw(tagging))
    read(v, before)
    w, tg = copied(ctx, v, how, tagging, other)
    if how == 'pickle':
        # carries the encoding along
        ctx.check(ctx.eq(w.dump(), data), 'pickled: encoding')
        same(ctx, v, w, 'pickled')
    else:
        check_copy(ctx, v, w, first, contents, tg, data, 'copied')
        ctx.reach('refused' if outcome(ctx, lambda: w.native) == 'refused' else 'copied')
    # once more, from the copy
    u = w.copy()
    same(ctx, w, u, 'copied again')


def chunked(ctx, cls, sizes, how, before):
    """strings received in chunks: the copy holds the joined string"""
    t = getattr(ctx.lib.core, cls)
    bits = cls.endswith('BitString')
    chunks = [ctx.bytes('c%d' % i, k) for i, k in enumerate(sizes)]
    if bits:
        # the number of unused bits of the last chunk
        u = ctx.int('unused', 0, 7) if cls == 'BitString' and sizes and sizes[-1] else 0
        parts = [ctx.byte_str([u if i == len(chunks) - 1 else 0]) + c for i, c in enumerate(chunks)]
    else:
        parts = chunks
    data = encode((t.tag | 0x20, [(t.tag, p) for p in parts]), 'indefs')
    v = t.load(data)
    nat = outcome(ctx, lambda: t.load(data).native)
    read(v, before)
    st, w = ctx.attempt(lambda: copied(ctx, v, how, None, None)[0])
    if st == 'err':
        ctx.check(isinstance(w, ValueError) and nat == 'refused', 'copied when it can be read')
        return
    ctx.check(ctx.eq(outcome(ctx, lambda: w.native), nat), 'native')
    ctx.check(ctx.eq(outcome(ctx, lambda: v.native), nat), 'the original')
    if nat != 'refused' and how != 'pickle':
        e = outcome(ctx, lambda: t.load(data).dump(force=True))
        ctx.check(ctx.eq(w.dump(), e), 'encoding')
        ctx.reach('copied')


def structure(ctx, cls, shape, form, how, before, other):
    z = zoo(ctx)
    t = getattr(z, cls)
    parts = []
    for i, (first, c, f) in enumerate(shape):
        parts.append(encode((first, ctx.bytes('p%d' % i, c) if type(c) is int else c), f))
    contents = b''.join(parts)
    first = 0x31 if cls in ('OctSet', 'IntSet', 'ASet') else 0x30
    data = encode((first, contents), form)
    v = t.load(data)
    nat = outcome(ctx, lambda: t.load(data).native)
    if before == 'both' and nat != 'refused':
        v.native
    w, tg = copied(ctx, v, how, None, other)
    if how == 'pickle':
        ctx.check(ctx.eq(w.dump(), data), 'pickled: encoding')
    else:
        ctx.check(ctx.eq(w.dump(), expected(first, contents, tg)), 'encoding')
        ctx.check(ctx.eq(w.contents, contents), 'contents')
    ctx.check(type(w) is t, 'type')
    ctx.check(ctx.eq(outcome(ctx, lambda: w.native), nat), 'native')
    ctx.check(ctx.eq(v.dump(), data), 'the original dumps as before')
    ctx.check(ctx.eq(outcome(ctx, lambda: v.native), nat), 'the native value of the original')
    ctx.reach('refused' if nat == 'refused' else 'copied')


def tags(ctx, kind, how):
    """copies of values with any tagging, and copies with any other tagging"""
    c = ctx.lib.core
    z = zoo(ctx)
    x = ctx.int('x', 0, 127)
    one = ctx.byte_str([x])
    if kind == 'int':
        t, first, contents = c.Integer, 2, one
        make = lambda **k: c.Integer(x, **k)
    elif kind == 'seq':
        t, first, contents = z.Inner, 0x30, b'\x02\x01' + one
        make = lambda **k: z.Inner({'x': x}, **k)
    elif kind == 'list':
        t, first, contents = c.SequenceOf, 0x30, b'\x02\x01' + one
        make = lambda **k: c.SequenceOf([x], spec=c.Integer, **k)
    elif kind == 'set':
        t, first, contents = c.SetOf, 0x31, b'\x02\x01' + one
        make = lambda **k: c.SetOf([x], spec=c.Integer, **k)
    else:
        t, first, contents = c.OctetString, 4, one + one
        make = lambda **k: c.OctetString(one + one, **k)
    a = ctx.choice('old', [None, ('implicit', 2), ('explicit', 2), ('implicit', 1), ('explicit', 3)])
    tag = ctx.int('tag', 0, 300)
    old = None if a is None else a + (tag,)
    v = make(**kw(old))
    w = make(**kw(old))
    before = v.dump()
    if how == 'retag':
        b = ctx.choice('new', [None, ('implicit', 2), ('explicit', 2), ('implicit', 3), ('explicit', 1)])
        n = ctx.choice('newtag', [0, 30, 31, 127, 128])
        new = None if b is None else b + (n,)
        u = v.retag(kw(new))
    elif how == 'untag':
        new = None
        u = v.untag()
    else:
        new = old
        u = COPIES[how](v)
    ref = make(**kw(new))
    ctx.check(ctx.eq(u.dump(), ref.dump()), 'encoded with the tagging it was given')
    ctx.check(ctx.eq(u.contents, contents), 'contents')
    ctx.check(ctx.eq(plain(u.native), plain(ref.native)), 'native')
    # and stays so when changed
    if kind == 'int':
        u.set(5)
    elif kind == 'seq':
        u['x'] = 5
    elif kind in ('list', 'set'):
        u.append(6)
        ref.append(6)
        ctx.check(ctx.eq(u.dump(), ref.dump()), 'the copy changed')
    else:
        u.set(b'new')
    if kind == 'int':
        ref.set(5)
    elif kind == 'seq':
        ref['x'] = 5
    elif kind == 'oct':
        ref.set(b'new')
    ctx.check(ctx.eq(u.dump(), ref.dump()), 'the copy changed')
    ctx.check(ctx.eq(v.dump(), before), 'the original did not')
    ctx.check(ctx.eq(v.dump(), w.dump()), 'the original did not')
    ctx.check(ctx.eq(plain(v.native), plain(w.native)), 'nor its native value')
    ctx.reach('tagged')


def clone(m):
    out = {}
    for k in m:
        v = m[k]
        if isinstance(v, dict):
            v = dict((a, b) for a, b in v.items())
        elif isinstance(v, list):
            v = [dict((a, b) for a, b in i.items()) if isinstance(i, dict) else i for i in v]
        elif isinstance(v, tuple):
            v = (v[0], dict((a, b) for a, b in v[1].items()) if isinstance(v[1], dict) else v[1])
        out[k] = v
    return out


def history(ctx, how, reads, op1, op2, kind, side, first):
    """a change, a copy, and a change of one of the two: the other one is as it was"""
    m = start()
    d = begin(ctx, how, m)
    READS[reads[0]](d)
    n1 = ctx.int('n1', 1, 127)
    if op1 is not None and usable(op1, m):
        OPS[op1](d, m, n1)
    READS[reads[1]](d)
    e = COPIES[kind](d)
    me = clone(m)
    z = types(ctx)
    for k in ('wrap', 'bits'):
        # which type a string is parsed as is not part of the value
        if me[k] is not None:
            e[k].parse(z.Inner)
    READS[reads[2]](e)
    n2 = ctx.int('n2', -128, 127)
    if side == 'copy':
        if not usable(op2, me):
            return
        OPS[op2](e, me, n2)
    else:
        if not usable(op2, m):
            return
        OPS[op2](d, m, n2)
    loose = 'indef' if how == 'indef' else 'built'
    check_all(ctx, d, m, first, loose)
    check_all(ctx, e, me, first, loose)
    ctx.reach('apart')


def parts(ctx, what, kind, before, side):
    """copies of the other containers: choices, open values, parsed strings, concatenated values"""
    c = ctx.lib.core
    z = zoo(ctx)
    x = ctx.int('x', -128, 127)
    y = ctx.int('y', -128, 127)

    def enc(v):
        return encode((0x30, [(2, ctx.byte_str([v & 255]))]))
    if what == 'alt':
        v = z.Alt('seq', {'x': x})
        inside = lambda v: v.chosen
        wrap = lambda e: e
    elif what == 'ealt':
        v = z.Alt('seq', {'x': x}, explicit=('application', 40))
        inside = lambda v: v.chosen
        wrap = lambda e: encode((b'\x7f\x28', e))
    elif what == 'any':
        v = c.Any(z.Inner({'x': x}))
        inside = lambda v: v.parse(z.Inner)
        wrap = lambda e: e
    elif what == 'eany':
        v = c.Any(z.Inner({'x': x}), explicit=3)
        inside = lambda v: v.parse(z.Inner)
        wrap = lambda e: encode((0xa3, e))
    elif what == 'octets':
        v = c.ParsableOctetString(enc(x))
        inside = lambda v: v.parse(z.Inner)
        wrap = lambda e: encode((4, e))
    elif what == 'bits':
        v = c.ParsableOctetBitString(enc(x))
        inside = lambda v: v.parse(z.Inner)
        wrap = lambda e: encode((3, b'\x00' + e))
    else:
        if not hasattr(z, 'Pair'):
            class Pair(c.Concat):
                _child_specs = [z.Inner, z.Ints]
            z.Pair = Pair
        v = z.Pair.load(enc(x) + b'\x30\x03\x02\x01\x09')
        inside = lambda v: v[0]
        wrap = lambda e: e + b'\x30\x03\x02\x01\x09'
    if before != 'none':
        inside(v)
    if before == 'native' and what != 'concat':
        v.native
    if before == 'changed':
        inside(v)['x'] = 77
        x = 77
    w = COPIES[kind](v)
    if before == 'native' and what != 'concat' and not (kind == 'pickle' and what in ('octets', 'bits')):
        # (which type a string is parsed as is not pickled)
        ctx.check(ctx.eq(plain(w.native), plain(v.native)), 'native')
    ctx.check(ctx.eq(w.dump(), wrap(enc(x))), 'encoding')
    inside(w)
    if side == 'copy':
        inside(w)['x'] = y
        a, b = v, w
    else:
        inside(v)['x'] = y
        a, b = w, v
    ctx.check(ctx.eq(a.dump(), wrap(enc(x))), 'the other is as it was')
    ctx.check(ctx.eq(inside(a)['x'].native, x), 'the other is as it was')
    ctx.check(ctx.eq(b.dump(), wrap(enc(y))), 'changed')
    ctx.check(ctx.eq(inside(b)['x'].native, y), 'changed')
    ctx.reach('apart')


CASTS = [('OctetString', 'IntegerOctetString'), ('OctetString', 'ParsableOctetString'), ('ParsableOctetString', 'IntegerOctetString'),
         ('IntegerOctetString', 'OctetString'), ('BitString', 'OctetBitString'), ('BitString', 'IntegerBitString'), ('OctetBitString', 'BitString'),
         ('BitString', 'ParsableOctetBitString')]


def cast(ctx, a, b, tagging, chunks):
    """the same value seen through another type"""
    c = ctx.lib.core
    ta, tb = getattr(c, a), getattr(c, b)
    bits = ta.tag == 3
    d = ctx.bytes('d', 2)
    if chunks:
        pre = b'\x00' if bits else b''
        data = encode((ta.tag | 0x20, [(ta.tag, pre + d), (ta.tag, pre + b'z')]), 'indefs')
    else:
        data = expected(ta.tag, (b'\x00' if bits else b'') + d, tagging)
    v = ta.load(data, **kw(tagging))
    w = v.cast(tb)
    ref = tb.load(data, **kw(tagging))
    ctx.check(type(w) is tb, 'type')
    ctx.check(ctx.eq(outcome(ctx, lambda: w.native), outcome(ctx, lambda: ref.native)), 'native')
    ctx.check(ctx.eq(w.dump(), ref.dump()), 'encoding')
    ctx.check(ctx.eq(outcome(ctx, lambda: w.dump(force=True)), outcome(ctx, lambda: ref.dump(force=True))), 'forced encoding')
    ctx.check(ctx.eq(v.dump(), ta.load(data, **kw(tagging)).dump()), 'the original')
    if not chunks and b != 'IntegerBitString':
        new = {'IntegerOctetString': 7, 'BitString': (0, 1, 0, 0, 0, 0, 0, 0)}.get(b, b'new')
        w.set(new)
        x = tb.load(w.dump(), strict=True, **kw(tagging))
        ctx.check(ctx.eq(x.native, new if b != 'BitString' else new), 'keeps its tagging when set')
        ctx.check(ctx.eq(v.dump(), data), 'the original')
    ctx.reach('cast')


def describe(ctx, v):
    """every property of a value as plain values"""
    core = ctx.lib.core
    out = {}
    for n in properties(type(v))[0]:
        if n in ('parsed', 'chosen'):
            continue
        st, r = ctx.attempt(getattr, v, n)
        if st == 'err':
            out[n] = type(r).__name__
        elif isinstance(r, (core.Asn1Value, core.Concat)):
            out[n] = r.dump()
        elif isinstance(r, list):
            out[n] = [x.dump() if isinstance(x, core.Asn1Value) else plain(x) for x in r]
        else:
            out[n] = plain(r)
    return out


def real(ctx, name, label, path, k, how, before):
    """every structure, one octet of one leaf being anything"""
    t = type_of(ctx, name)
    nodes = tree(samples()[name][label])
    if path is None:
        data = encode(nodes[0])
    else:
        first, c = at(nodes, path)
        data = encode(replace(nodes, path, (first, c[:k] + ctx.bytes('octet', 1) + c[k + 1:]))[0])
    v = t.load(data)
    if before:
        d0 = describe(ctx, v)
    st, w = ctx.attempt(COPIES[how], v)
    if st == 'err':
        ctx.check(isinstance(w, ValueError), 'copying refused with %s' % type(w).__name__)
        ctx.check(outcome(ctx, lambda: v.native) == 'refused' if not isinstance(v, ctx.lib.core.Concat) else True, 'copied when it can be read')
        return
    ctx.check(type(w) is t, 'type')
    ctx.check(ctx.eq(w.dump(), data), 'encoding')
    d1 = describe(ctx, w)
    if not before:
        d0 = describe(ctx, v)
    ctx.check(sorted(d0) == sorted(d1), 'the same properties')
    for n in d0:
        if n in d1:
            ctx.check(ctx.eq(d0[n], d1[n]), 'the property ' + n)
    ctx.check(ctx.eq(v.dump(), data), 'the original dumps as before')
    ctx.reach('copied')


TAGGINGS = [None, ('implicit', 2, 5), ('explicit', 2, 5), ('implicit', 1, 40), ('explicit', 3, 200)]
HOWS = ['copy', 'retag', 'untag', 'shallow', 'pickle', 'retag', 'deep']
BEFORE = ['none', 'native', 'dump', 'both']


def prim_cases(tier):
    out = []
    k = 0
    for cls in PRIMS:
        for n in ((1, 2) if tier == 'quick' else (0, 1, 2, 3)):
            for j in range(3 if tier == 'quick' else len(TAGGINGS) * 4):
                k += 1
                out.append(dict(cls=cls, n=n, form=('min', 1, 2)[k % 3], tagging=TAGGINGS[(k // 2) % 5], how=HOWS[k % 7],
                                other=TAGGINGS[1:][k % 4], before=BEFORE[(k // 3) % 4]))
    return out


def chunk_cases(tier):
    out = []
    k = 0
    for cls in STRINGS:
        for sizes in ((), (1,), (2, 1), (1, 0, 1)) if tier != 'quick' else ((2,), (1, 1)):
            for how in ('copy', 'shallow', 'untag', 'pickle'):
                k += 1
                if cls in ('BMPString', 'UniversalString') and any(s % 2 for s in sizes):
                    sizes = tuple(2 * s for s in sizes)
                out.append(dict(cls=cls, sizes=sizes, how=how, before=BEFORE[k % 3]))
    return out


def struct_cases(tier):
    out = []
    k = 0
    for cls, shape in STRUCTS:
        for j in range(1 if tier == 'quick' else 7):
            k += 1
            out.append(dict(cls=cls, shape=shape, form=('min', 2)[k % 2], how=HOWS[k % 7], before=('none', 'both')[(k // 2) % 2], other=TAGGINGS[1:][k % 4] if cls not in ('Alt', 'Tagged') else TAGGINGS[2]))
    return out


def history_cases(tier):
    out = []
    names = sorted(n for n in OPS if not n.startswith('bad'))
    rs = sorted(READS)
    firsts = ['native', 'dump', 'parts', 'contents', 'force']
    hows = ['built', 'loaded', 'indef']
    kinds = ['copy', 'shallow', 'deep', 'pickle']
    k = 0
    for op in names:
        for j in range(3 if tier == 'quick' else 24):
            k += 1
            op1 = None if k % 2 else names[(k * 7) % len(names)]
            out.append(dict(how=hows[k % 3], reads=(rs[k % 6], rs[(k // 2) % 6], rs[(k // 3) % 6]), op1=op1, op2=op, kind=kinds[(k + j) % 4],
                            side=('copy', 'original')[(k // 2 + j) % 2], first=firsts[k % 5]))
    return out


QUIET = (6, 12, 18, 19, 20, 22, 26, 27, 28, 30)


def real_cases(tier):
    out = []
    k = 0
    kinds = ['copy', 'shallow', 'pickle', 'deep']
    for name in sorted(samples()):
        for label in sorted(samples()[name]):
            nodes = tree(samples()[name][label])
            if tier == 'quick' and label != 'full' and 'full' in samples()[name]:
                continue
            # (identifiers and the text in names have very many outcomes)
            ls = [(p, at(nodes, p)[1]) for p in leaves(nodes) if len(at(nodes, p)[1]) and (tier != 'quick' or at(nodes, p)[0] not in QUIET)]
            for j in range(1 if tier == 'quick' else 4):
                k += 1
                how = kinds[k % 4]
                if name == 'x509.TrustedCertificate' and how == 'pickle':
                    how = 'copy'
                if not ls:
                    out.append(dict(name=name, label=label, path=None, k=0, how=how, before=bool(k // 4 % 2)))
                else:
                    p, c = ls[(k * 5) % len(ls)]
                    out.append(dict(name=name, label=label, path=p, k=(k * 3) % len(c), how=how, before=bool(k // 4 % 2)))
    return out


HARNESSES = [
    Harness('primitive', primitive, prim_cases, ['copied', 'refused'],
            bounds='every primitive type, contents of 1-2 (0-3) octets with any value, length forms, five taggings, six ways of copying'),
    Harness('chunked', chunked, chunk_cases, ['copied'], bounds='string types in up to two (three) chunks of 1-2 octets with any value'),
    Harness('structure', structure, struct_cases, ['copied', 'refused'], bounds='the listed component shapes, each with arbitrary contents'),
    Harness('tags', tags, [dict(kind=k, how=h) for k in ('int', 'seq', 'list', 'set', 'oct') for h in ('copy', 'shallow', 'pickle', 'untag', 'retag')], ['tagged'],
            bounds='no tagging, implicit or explicit, tag numbers 0 to 300; new tags 0, 30, 31, 127 and 128'),
    Harness('history', history, history_cases, ['apart'],
            bounds='the structure of C14: no or one change, a copy, and one change of either (with any values), with reads of six kinds in between'),
    Harness('parts', parts, [dict(what=w, kind=k, before=b, side=s) for w in ('alt', 'ealt', 'any', 'eany', 'octets', 'bits', 'concat')
                             for k in ('copy', 'shallow', 'pickle') for b in ('none', 'parsed', 'native', 'changed') for s in ('copy', 'original')
                             if k != 'pickle' or w not in ('any', 'eany', 'concat')], ['apart'],
            bounds='any value before and after'),
    Harness('cast', cast, lambda tier: [dict(a=a, b=b, tagging=t, chunks=c) for a, b in CASTS for t in TAGGINGS for c in (False, True) if not (c and t)], ['cast'],
            bounds='two octets with any value'),
    Harness('real', real, real_cases, ['copied'], bounds='a full (every) sample of each of the structures of the package, one octet of a leaf being anything'),
]
