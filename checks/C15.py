import itertools
from pysym.harness import Harness
from hlib import encode, zoo, ref_element

MODULES = ('core', 'parser', 'util', 'x509', 'cms', '_iri', '_inet', '_types', 'algos', 'keys')


def types(ctx):
    c = ctx.lib.core
    z = zoo(ctx)
    if not hasattr(z, 'Many'):
        class Pick(c.Choice):
            _alternatives = [('n', c.Integer, {'implicit': 9}), ('s', c.UTF8String), ('e', c.Boolean, {'explicit': 33})]

        class Many(c.Set):
            _fields = [
                ('p', c.Integer, {'implicit': ('private', 0), 'optional': True}),
                ('c5', c.Integer, {'implicit': 5}),
                ('big', c.Integer, {'implicit': 40, 'optional': True}),
                ('app', c.Integer, {'explicit': ('application', 7), 'optional': True}),
                ('u', c.OctetString),
                ('bool', c.Boolean, {'default': False}),
                ('pick', Pick, {'optional': True}),
                ('def', c.Integer, {'explicit': 3, 'default': 5}),
            ]

        class StrSet(c.SetOf):
            _child_spec = c.UTF8String

        class SeqSet(c.SetOf):
            _child_spec = z.Inner

        class PickSet(c.SetOf):
            _child_spec = Pick
        z.Many, z.Pick, z.StrSet, z.SeqSet, z.PickSet = Many, Pick, StrSet, SeqSet, PickSet
    return z


def before(ctx, a, b):
    """a comes no later than b in the DER order (the shorter one padded with zero octets)"""
    n = max(len(a), len(b))
    a = [a[i] if i < len(a) else 0 for i in range(n)]
    b = [b[i] if i < len(b) else 0 for i in range(n)]
    r = True
    for x, y in reversed(list(zip(a, b))):
        r = ctx.any(x < y, ctx.all(ctx.eq(x, y), r))
    return r


def minimal(ctx, x):
    for n in range(1, 5):
        if ctx.all(x >= -(1 << (8 * n - 1)), x < (1 << (8 * n - 1))):
            return ctx.itob(x, n, True)


def element(ctx, kind, k, z):
    """(value to set, its encoding)"""
    if kind == 'int':
        v = ctx.int('v%d' % k, -300, 70000)
        return v, encode((2, minimal(ctx, v)))
    if kind == 'oct':
        v = ctx.bytes('v%d' % k, ctx.choice('n%d' % k, [0, 1, 2]))
        return v, encode((4, v))
    if kind == 'seq':
        x, y = ctx.int('x%d' % k, 0, 127), ctx.bool('y%d' % k)
        return {'x': x, 'y': y}, encode((0x30, encode((2, ctx.byte_str([x]))) + (b'\x01\x01\xff' if y else b'')))
    if kind == 'str':
        v = ctx.text('v%d' % k, 1, [(0x20, 0x7e), (0xe0, 0xff)])
        return v, encode((12, v.encode('utf-8')))
    if kind == 'pick':
        n = ctx.choice('alt%d' % k, ['n', 's', 'e'])
        if n == 'n':
            v = ctx.int('v%d' % k, 0, 127)
            return z.Pick(n, v), encode((0x89, ctx.byte_str([v])))
        if n == 's':
            v = ctx.text('v%d' % k, 1, [(97, 122)])
            return z.Pick(n, v), encode((12, v.encode('utf-8')))
        v = ctx.bool('v%d' % k)
        return z.Pick(n, v), encode((b'\xbf\x21', b'\x01\x01' + (b'\xff' if v else b'\x00')))


OF = {'int': 'IntSet', 'oct': 'OctSet', 'seq': 'SeqSet', 'str': 'StrSet', 'pick': 'PickSet'}


def split(data):
    """concrete-length components"""
    out = []
    p = 0
    while p < len(data):
        e = ref_element(data, p, len(data))[5]
        out.append(data[p:e])
        p = e
    return out


def same_multiset(ctx, got, parts):
    cs = []
    for p in itertools.permutations(range(len(parts))):
        cs.append(ctx.all(*[ctx.eq(got[i], parts[j]) for i, j in enumerate(p)]))
    return ctx.any(*cs)


def set_of(ctx, kind, n, how):
    z = types(ctx)
    t = getattr(z, OF[kind])
    vals, encs = [], []
    for k in range(n):
        v, e = element(ctx, kind, k, z)
        vals.append(v)
        encs.append(e)
    order = ctx.choice('order', list(itertools.permutations(range(n))))
    if how == 'built':
        a = t(vals)
        out = a.dump()
        ctx.check(ctx.eq(t([vals[i] for i in order]).dump(), out), 'the order they were given in does not matter')
    elif how == 'appended':
        a = t([])
        a.dump()
        for i in order:
            a.append(vals[i])
        out = a.dump()
        ctx.check(ctx.eq(a.dump(force=True), out), 'forced, too')
    else:
        data = encode((0x31, ctx.join(b'', [encs[i] for i in order])))
        a = t.load(data)
        ctx.check(len(a) == n, 'every component')
        for i in range(n):
            ctx.check(ctx.eq(a[i].dump(), encs[order[i]]), 'components as received')
        ctx.check(ctx.eq(a.dump(), data), 'unmodified sets are kept as received')
        out = a.dump(force=True)
    got = split(out[2:])
    ctx.check(out[0] == 0x31 and out[1] == len(out) - 2, 'a set')
    ctx.check(len(got) == n, 'every component once')
    ctx.check(same_multiset(ctx, got, encs), 'the components')
    for i in range(n - 1):
        ctx.check(before(ctx, got[i], got[i + 1]), 'in ascending order of their encodings')
    b = t.load(out)
    ctx.check(ctx.eq(b.dump(force=True), out), 'canonical')
    ctx.reach('sorted')


FIELDS = ['p', 'c5', 'big', 'app', 'u', 'bool', 'pick', 'def']
# the order of the tags: universal, application, context, private; then by number
ORDER = {'bool': (0, 1), 'u': (0, 4), 'app': (1, 7), 'def': (2, 3), 'c5': (2, 5), 'big': (2, 40), 'p': (3, 0)}


def part(ctx, f, z):
    x = ctx.int('x ' + f, 0, 127)
    b = ctx.byte_str([x])
    if f == 'p':
        return x, encode((0xc0, b)), ORDER[f]
    if f == 'c5':
        return x, encode((0x85, b)), ORDER[f]
    if f == 'big':
        return x, b'\x9f\x28\x01' + b, ORDER[f]
    if f == 'app':
        return x, encode((0x67, encode((2, b)))), ORDER[f]
    if f == 'u':
        return b, encode((4, b)), ORDER[f]
    if f == 'bool':
        return True, b'\x01\x01\xff', ORDER[f]
    if f == 'def':
        ctx.assume(x != 5)
        return x, encode((0xa3, encode((2, b)))), ORDER[f]
    k = ctx.choice('pick', ['n', 's', 'e'])
    if k == 'n':
        return ('n', x), encode((0x89, b)), (2, 9)
    if k == 's':
        ctx.assume(x > 31)
        return ('s', b.decode('ascii')), encode((12, b)), (0, 12)
    return ('e', True), b'\xbf\x21\x03\x01\x01\xff', (2, 33)


def subsets():
    opt = ['p', 'big', 'app', 'bool', 'pick', 'def']
    out = []
    for r in range(len(opt) + 1):
        for s in itertools.combinations(opt, r):
            out.append(('c5', 'u') + s)
    return out


def set_type(ctx, fields, how, orders):
    """SET: sorted by tag, accepted in any order"""
    z = types(ctx)
    ps = dict((f, part(ctx, f, z)) for f in fields)
    canonical = ctx.join(b'', [ps[f][1] for f in sorted(fields, key=lambda f: ps[f][2])])
    want = encode((0x31, canonical))
    n = len(fields)
    perms = list(itertools.permutations(range(n))) if n < 4 else [tuple((i * s + r) % n for i in range(n)) for s in (1, n - 1) for r in range(n)] + [
        tuple(range(0, n, 2)) + tuple(range(1, n, 2))]
    order = ctx.choice('order', perms[:orders - 1] + perms[-1:])
    given = [fields[i] for i in order]
    if how == 'built':
        vals = {}
        for f in given:
            vals[f] = z.Pick(*ps[f][0]) if f == 'pick' else ps[f][0]
        a = z.Many(vals)
        ctx.check(ctx.eq(a.dump(), want), 'components in the order of their tags')
    elif how == 'changed':
        a = z.Many({'c5': 77, 'u': b'zz', 'p': 3, 'big': 9})
        a.dump()
        for f in given:
            a[f] = z.Pick(*ps[f][0]) if f == 'pick' else ps[f][0]
        for f in ('p', 'big'):
            if f not in ps:
                del a[f]
        ctx.check(ctx.eq(a.dump(), want), 'components in the order of their tags')
    else:
        data = encode((0x31, ctx.join(b'', [ps[f][1] for f in given])))
        a = z.Many.load(data)
        for f in given:
            ctx.check(ctx.eq(a[f].dump(), ps[f][1]), 'each component in its field')
        ctx.check(ctx.eq(a.dump(), data), 'unmodified sets are kept as received')
        ctx.check(ctx.eq(a.dump(force=True), want), 'components in the order of their tags')
    for f in FIELDS:
        if f in ps:
            v = ps[f][0][1] if f == 'pick' else ps[f][0]
            ctx.check(ctx.eq(a[f].native, v), 'field ' + f)
            ctx.check(ctx.eq(a.native[f], v), 'field ' + f)
        else:
            ctx.check(a[f].native == {'bool': False, 'def': 5}.get(f), 'absent')
    b = z.Many.load(a.dump())
    ctx.check(ctx.eq(b.dump(force=True), want), 'canonical')
    ctx.reach('sorted')


def names(ctx, n):
    """the attributes of a relative distinguished name"""
    x = ctx.lib.x509
    types_ = ['common_name', 'surname', 'country_name', 'domain_component'][:n]
    encs, vals = [], []
    oids = {'common_name': b'\x55\x04\x03', 'surname': b'\x55\x04\x04', 'country_name': b'\x55\x04\x06', 'domain_component': b'\x09\x92\x26\x89\x93\xf2\x2c\x64\x01\x19'}
    for k, t in enumerate(types_):
        s = ctx.text('s%d' % k, ctx.choice('n%d' % k, [1, 2]) if k < 2 else 2, [(65, 90)])
        if t == 'domain_component':
            v = x.DNSName(s)
            e = (22, s.encode('ascii'))
        elif t == 'country_name':
            v = x.DirectoryString('printable_string', ctx.lib.core.PrintableString(s))
            e = (19, s.encode('ascii'))
        else:
            v = x.DirectoryString('utf8_string', ctx.lib.core.UTF8String(s))
            e = (12, s.encode('ascii'))
        vals.append({'type': t, 'value': v})
        encs.append(encode((0x30, [(6, oids[t]), e])))
    order = ctx.choice('order', list(itertools.permutations(range(n))))
    a = x.RelativeDistinguishedName([x.NameTypeAndValue(vals[i]) for i in order])
    out = a.dump()
    got = split(out[2:])
    ctx.check(same_multiset(ctx, got, encs), 'the attributes')
    for i in range(n - 1):
        ctx.check(before(ctx, got[i], got[i + 1]), 'in ascending order of their encodings')
    ctx.reach('sorted')


def of_cases(tier):
    out = []
    for kind in OF:
        for n in (0, 1, 2, 3) if tier != 'quick' else (1, 2, 3):
            for how in ('built', 'appended', 'loaded'):
                if n == 3 and kind in ('int',) and tier == 'quick':
                    continue
                out.append(dict(kind=kind, n=n, how=how))
    return out


HARNESSES = [
    Harness('set_of', set_of, of_cases, ['sorted'], bounds='up to 3 components: integers from -300 to 70000, byte strings of 0-2 octets, texts, structures and choices, in every order'),
    Harness('set_type', set_type, lambda tier: [dict(fields=s, how=h, orders=4 if tier == 'quick' else 24) for i, s in enumerate(subsets()) for j, h in enumerate(('built', 'changed', 'loaded')) if tier != 'quick' or (i + j) % 4 == 0 or len(s) < 3],
            ['sorted'], bounds='every combination of 8 fields of all four tag classes, low and high tag numbers, tagged and untagged choices; 4 (up to 24) orders each'),
    Harness('names', names, [dict(n=2), dict(n=3), dict(n=4)], ['sorted'], bounds='2-4 attributes with texts of 1 or 2 characters'),
]
