from pysym.harness import Harness
from hlib import named, encode, zoo, minimal_tag_octets

MODULES = ('core', 'parser', 'util', 'x509', 'cms', 'crl', 'csr', 'ocsp', 'keys', 'algos', 'tsp', 'pkcs12', '_iri', '_inet', '_types')

CLASSES = {1: 'application', 2: 'context', 3: 'private'}


def types(ctx):
    c = ctx.lib.core
    z = zoo(ctx)
    if not hasattr(z, 'EInt'):
        class EInt(c.Integer):
            explicit = (1, 4)

        class EInner(z.Inner):
            explicit = (3, 40)

        class Tagged(c.Choice):
            _alternatives = [
                ('num', c.Integer),
                ('oct', c.OctetString, {'implicit': 0}),
                ('seq', z.Inner, {'implicit': ('application', 0)}),
                ('exp', c.Integer, {'explicit': 1}),
                ('big', c.UTF8String, {'implicit': ('private', 40)}),
                ('ebig', c.Boolean, {'explicit': ('application', 128)}),
                ('own', EInt),
                ('ownexp', EInt, {'explicit': 7}),
                ('both', c.Integer, {'explicit': 6, 'implicit': 7}),
                ('lst', z.Ints, {'implicit': 2}),
                ('nul', c.Null),
            ]

        class Fields(c.Sequence):
            _fields = [
                ('plain', c.Integer, {'optional': True}),
                ('imp', c.Integer, {'implicit': 0, 'optional': True}),
                ('app', c.OctetString, {'implicit': ('application', 0), 'optional': True}),
                ('pair', c.Boolean, {'implicit': (3, 0), 'optional': True}),
                ('big', c.Integer, {'implicit': ('context', 31), 'optional': True}),
                ('exp', c.Integer, {'explicit': 1, 'optional': True}),
                ('bexp', c.Integer, {'explicit': ('private', 200), 'optional': True}),
                ('own', EInt, {'optional': True}),
                ('ownimp', EInner, {'optional': True}),
                ('ownexp', EInt, {'explicit': 2, 'optional': True}),
                ('both', c.Integer, {'explicit': 3, 'implicit': 4, 'optional': True}),
                ('of', c.SequenceOf, {'explicit': 5, 'spec': c.Integer, 'optional': True}),
                ('alt', z.Alt, {'explicit': 6, 'optional': True}),
                ('any', c.Any, {'explicit': 8, 'optional': True}),
                ('def', c.Integer, {'explicit': 9, 'default': 5}),
                ('idef', z.Inner, {'implicit': 10, 'default': {'x': 1}}),
            ]

        class FieldSet(c.Set):
            _fields = [f for f in Fields._fields if f[0] != 'any']
        z.EInt, z.EInner, z.Tagged, z.Fields, z.FieldSet = EInt, EInner, Tagged, Fields, FieldSet
    return z


# kind: (class getter, constructor value, constructed, universal tag, contents)
def sample(ctx, kind, name='v'):
    c = ctx.lib.core
    z = types(ctx)
    if kind == 'int':
        v = ctx.int(name, 0, 127)
        return c.Integer, v, 0, 2, ctx.byte_str([v])
    if kind == 'oct':
        v = ctx.bytes(name, 2)
        return c.OctetString, v, 0, 4, v
    if kind == 'str':
        v = ctx.text(name, 2, [(0x20, 0x7e)])
        return c.UTF8String, v, 0, 12, v.encode('utf-8')
    if kind == 'bool':
        v = ctx.bool(name)
        return c.Boolean, v, 0, 1, (b'\xff' if v else b'\x00')
    if kind == 'null':
        return c.Null, None, 0, 5, b''
    if kind == 'seq':
        x = ctx.int(name, 0, 127)
        return z.Inner, {'x': x}, 1, 16, b'\x02\x01' + ctx.byte_str([x])
    if kind == 'list':
        x, y = ctx.int(name, 0, 127), ctx.int(name + 'b', 0, 127)
        return z.Ints, [x, y], 1, 16, ctx.join(b'', [b'\x02\x01', ctx.byte_str([x]), b'\x02\x01', ctx.byte_str([y])])
    if kind == 'set':
        x = ctx.int(name, 0, 127)
        return z.IntSet, [x], 1, 17, b'\x02\x01' + ctx.byte_str([x])


def tag(ctx, name, size, seed):
    """a tag; seeds stand for classes, None for any"""
    cls = ctx.choice(name + 'c', [1, 2, 3]) if seed is None else 1 + (seed + len(name)) % 3
    n = ctx.int(name, *{'small': (0, 30), 'mid': (31, 127), 'big': (128, 40000), 'any': (0, 300)}[size])
    return cls, n


def spelled(ctx, name, t, seed):
    """the documented ways to spell a tag"""
    ways = ['pair', 'named', 'int']
    how = ctx.choice(name, ways) if seed is None else ways[(seed + len(name)) // 3 % 3]
    if how == 'named':
        return (CLASSES[t[0]], t[1])
    if how == 'int' and t[0] == 2:
        return t[1]
    return t


def wrap(ctx, t, data):
    return encode((minimal_tag_octets(ctx, t[0], 1, t[1]), data))


def reference(ctx, s, imp=None, exp=()):
    """the encoding of a sample under an implicit and explicit tags, innermost first"""
    _, _, m, ut, body = s
    cls, num = (0, ut) if imp is None else imp
    out = encode((minimal_tag_octets(ctx, cls, m, num), body))
    for t in exp:
        out = wrap(ctx, t, out)
    return out


def same(ctx, v, s, data, msg):
    cls, val, m, ut, body = s
    ctx.check(ctx.eq(v.dump(), data), msg + ': encoding')
    ctx.check(ctx.eq(v.contents, body), msg + ': contents')
    ctx.check(ctx.eq(v.native, cls(val).native), msg + ': value')
    ctx.check(ctx.eq(v.dump(force=True), data), msg + ': forced encoding')


def tagged(ctx, kind, how, size, seed):
    """a value built under tags, its encoding, decoding, copying, untagging, retagging"""
    s = sample(ctx, kind)
    cls, val = s[0], s[1]
    imp, exp, kw = None, (), {}
    if how in ('implicit', 'both'):
        imp = tag(ctx, 'imp', size, seed)
        kw['implicit'] = spelled(ctx, 'ispell', imp, seed)
    if how in ('explicit', 'both'):
        t = tag(ctx, 'expl', size, seed)
        exp = (t,)
        kw['explicit'] = spelled(ctx, 'espel', t, seed)
    if how == 'two':
        t1, t2 = tag(ctx, 't1', size, seed), tag(ctx, 'tt2', 'mid' if seed is not None else 'any', seed)
        exp = (t1, t2)
        # listed from the inside to the outside
        kw['explicit'] = (t1, t2)
    data = reference(ctx, s, imp, exp)
    plain = reference(ctx, s)
    v = cls(val, **kw)
    same(ctx, v, s, data, 'built')
    w = cls.load(data, **kw)
    same(ctx, w, s, data, 'loaded')
    w = cls.load(data, **kw)
    ctx.check(ctx.eq(w.untag().dump(), plain), 'untagged')
    same(ctx, cls.load(w.untag().dump()), s, plain, 'untagged and loaded')
    same(ctx, w.copy(), s, data, 'copied')
    if True:
        same(ctx, w.retag({'explicit': ('application', 77)}), s, reference(ctx, s, None, [(1, 77)]), 'retagged')
        same(ctx, w.retag({'implicit': 12}), s, reference(ctx, s, (2, 12)), 'retagged')
    same(ctx, v.untag(), s, plain, 'built and untagged')
    same(ctx, cls(val).retag(kw), s, data, 'tagged afterwards')
    same(ctx, cls.load(plain).retag(kw), s, data, 'loaded and tagged afterwards')
    same(ctx, cls(cls(val).retag({'implicit': 3}).native, **kw), s, data, 'unaffected by other tagging')
    ctx.reach('tagged')


def wrong(ctx, kind, how, other, seed, size):
    """an encoding is decoded only under its own tagging"""
    s = sample(ctx, kind)
    cls = s[0]
    t1, t2 = tag(ctx, 't1', size, seed), tag(ctx, 'tt2', size, seed)
    u1 = tag(ctx, 'u1', size, seed if seed is None or seed % 2 else seed + 1)
    ctx.assume(ctx.any(ctx.not_(ctx.eq(t1[1], u1[1])), t1[0] != u1[0]))

    def under(k, a, b):
        if k == 'none':
            return None, (), {}
        if k == 'implicit':
            return a, (), {'implicit': a}
        if k == 'explicit':
            return None, (a,), {'explicit': a}
        if k == 'both':
            return b, (a,), {'explicit': a, 'implicit': b}
        return None, (b, a), {'explicit': (b, a)}
    imp, exp, kw = under(how, t1, t2)
    data = reference(ctx, s, imp, exp)
    # outer tags differ, or the inner ones do, or the kind of tagging does
    if other == how + '-outer':
        kw2 = under(how, u1, t2)[2]
    elif other == how + '-inner':
        kw2 = under(how, t1, u1)[2]
        ctx.assume(ctx.any(ctx.not_(ctx.eq(t2[1], u1[1])), t2[0] != u1[0]))
    else:
        kw2 = under(other, t1, t2)[2]
    ctx.check(ctx.eq(cls.load(data, **kw).dump(), data), 'under its own tagging')
    # constructed values are decoded when they are read
    ctx.check(ctx.rejects(lambda: cls.load(data, **kw2).native), 'not under any other')
    ctx.reach('refused')


def identifiers(ctx, kind, how, layer):
    """every other identifier octet is refused, at each level of tagging"""
    s = sample(ctx, kind)
    cls, m, ut, body = s[0], s[2], s[3], s[4]
    kw = {'none': {}, 'implicit': {'implicit': ('private', 5)}, 'explicit': {'explicit': ('application', 5)},
          'both': {'explicit': 5, 'implicit': 6}, 'two': {'explicit': ((1, 5), (3, 6))}}[how]
    octets = {'none': [ut | m << 5], 'implicit': [0xc5 | m << 5], 'explicit': [ut | m << 5, 0x65],
              'both': [0x86 | m << 5, 0xa5], 'two': [ut | m << 5, 0x65, 0xe6]}[how]
    if layer >= len(octets):
        ctx.reach('refused')
        return
    b = ctx.int('b', 0, 255)
    ctx.assume(b & 31 != 31)
    ok = ctx.eq(b, octets[layer])
    data = body
    for i, o in enumerate(octets):
        first = ctx.byte_str([b]) if i == layer else bytes([o])
        data = encode((first, data))
    st, v = ctx.attempt(cls.load, data, **kw)
    if st == 'ok':
        ctx.check(ok, 'accepted under other identifier octets')
        ctx.check(ctx.eq(v.dump(), data), 'kept')
    else:
        ctx.check(ctx.not_(ok), 'refused although well tagged')
        ctx.check(isinstance(v, ValueError), 'refused with ValueError')
    ctx.reach('refused')


ALTS = ['num', 'oct', 'seq', 'exp', 'big', 'ebig', 'own', 'ownexp', 'both', 'lst', 'nul']


def alternative(ctx, name):
    """(value for the constructor, encoding of the alternative, its native value)"""
    if name == 'nul':
        return None, b'\x05\x00', None
    if name == 'ebig':
        b = ctx.bool('b')
        return b, b'\x7f\x81\x00\x03\x01\x01' + (b'\xff' if b else b'\x00'), b
    if name == 'oct':
        v = ctx.bytes('v', 2)
        return v, b'\x80\x02' + v, v
    if name == 'big':
        t = ctx.text('txt', 1, [(0x20, 0x7e), (0xe0, 0xff)])
        return t, encode((b'\xdf\x28', t.encode('utf-8'))), t
    x = ctx.int('x', 0, 127)
    o = ctx.byte_str([x])
    if name == 'seq':
        return {'x': x}, b'\x60\x03\x02\x01' + o, {'x': x, 'y': False}
    if name == 'lst':
        return [x, 1], ctx.join(b'', [b'\xa2\x06\x02\x01', o, b'\x02\x01\x01']), [x, 1]
    head = {'num': b'\x02\x01', 'exp': b'\xa1\x03\x02\x01', 'own': b'\x64\x03\x02\x01',
            'ownexp': b'\xa7\x05\x64\x03\x02\x01', 'both': b'\xa6\x03\x87\x01'}[name]
    return x, head + o, x


def choice(ctx, name, outer, seed, size):
    """each alternative of a choice, bare and explicitly tagged"""
    z = types(ctx)
    val, enc, native = alternative(ctx, name)
    exp, kw = (), {}
    if outer == 'one':
        t = tag(ctx, 't', size, seed)
        exp, kw = (t,), {'explicit': spelled(ctx, 'spell', t, seed)}
    elif outer == 'two':
        t1, t2 = tag(ctx, 't', size, seed), (2, ctx.int('t2', 0, 30))
        exp, kw = (t1, t2), {'explicit': (t1, t2)}
    data = enc
    for t in exp:
        data = wrap(ctx, t, data)

    def same_choice(v, want, msg):
        ctx.check(v.name == name, msg + ': name')
        ctx.check(ctx.eq(v.native, native), msg + ': native')
        ctx.check(ctx.eq(v.chosen.native, native), msg + ': chosen')
        ctx.check(ctx.eq(v.dump(), want), msg + ': encoding')
        ctx.check(ctx.eq(v.chosen.dump(), enc), msg + ': encoding of the chosen value')
        ctx.check(ctx.eq(v.dump(force=True), want), msg + ': forced encoding')
    # reading in one order, dumping before, too
    v = z.Tagged.load(data, **kw)
    ctx.check(ctx.eq(v.dump(), data), 'kept unread')
    same_choice(v, data, 'loaded')
    same_choice(z.Tagged(name, val, **kw), data, 'built')
    same_choice(z.Tagged({name: val}, **kw), data, 'built from a dict')
    same_choice(z.Tagged((name, val), **kw), data, 'built from a pair')
    same_choice(z.Tagged.load(data, **kw).copy(), data, 'copied')
    same_choice(z.Tagged.load(data, **kw).untag(), enc, 'untagged')
    same_choice(z.Tagged(name, val).retag({'explicit': ('private', 60)}), wrap(ctx, (3, 60), enc), 'retagged')
    same_choice(z.Tagged.load(enc).retag(kw if kw else {}), data, 'loaded and retagged')
    if kw:
        ctx.check(ctx.rejects(z.Tagged.load, enc, explicit=('private', 99)), 'the tags are required')
        ctx.check(ctx.rejects(z.Tagged.load, data + b'\x00', strict=True, **kw), 'nothing after it')
    if outer == 'one':
        u = tag(ctx, 'u' if seed is None or seed % 2 else 'uu', size, seed)
        ctx.assume(ctx.any(ctx.not_(ctx.eq(t[1], u[1])), t[0] != u[0]))
        ctx.check(ctx.rejects(z.Tagged.load, data, explicit=u), 'not under another tag')
    ctx.check(ctx.rejects(z.Tagged, 'other', val), 'unknown names are refused')
    ctx.reach('chosen')


def accept(ctx, n):
    """a choice accepts exactly the identifiers of its alternatives"""
    z = types(ctx)
    if n == 1:
        b = ctx.int('b', 0, 255)
        ctx.assume(b & 31 != 31)
        head = [b]
    else:
        b = ctx.choice('b', [0x1f, 0x3f, 0x5f, 0x7f, 0x9f, 0xbf, 0xdf, 0xff])
        head = [b, ctx.int('b1', 31 if n == 2 else 129, 127 if n == 2 else 255)] + ([] if n == 2 else [ctx.int('b2', 0, 127)])
    data = ctx.byte_str(head) + b'\x00'
    table = [([2], 'num'), ([0x80], 'oct'), ([0x60], 'seq'), ([0xa1], 'exp'), ([0xdf, 40], 'big'), ([0x7f, 0x81, 0], 'ebig'),
             ([0x64], 'own'), ([0xa7], 'ownexp'), ([0xa6], 'both'), ([0xa2], 'lst'), ([5], 'nul')]
    st, v = ctx.attempt(z.Tagged.load, data)
    ids = [t for t, _ in table if len(t) == n]
    # constructed strings are taken as strings
    # explicit tags must not be empty
    ids = [t for t in ids if t not in ([0xa1], [0x7f, 0x81, 0], [0x64], [0xa7], [0xa6])]
    known = ctx.any(*[ctx.all(*[ctx.eq(x, y) for x, y in zip(head, t)]) for t in ids])
    if st == 'ok':
        ctx.check(ctx.eq(v.dump(), data), 'kept')
        m = None
        for t, name in table:
            if len(t) == n:
                if ctx.all(*[ctx.eq(x, y) for x, y in zip(head, t)]):
                    m = name
        if m is None:
            # the value is not looked at before it is needed: its method is seen then
            ctx.check(ctx.rejects(lambda: v.chosen), 'no alternative has this identifier')
            ctx.reach('later')
        else:
            ctx.check(v.name == m, 'the right alternative')
            ctx.reach('known')
    else:
        ctx.check(isinstance(v, ValueError), 'refused with ValueError')
        ctx.check(ctx.not_(known), 'identifier of an alternative')
        ctx.reach('refused')


FIELDS = {
    'plain': b'\x02\x01', 'imp': b'\x80\x01', 'app': b'\x40\x01', 'pair': b'\xc0\x01', 'big': b'\x9f\x1f\x01',
    'exp': b'\xa1\x03\x02\x01', 'bexp': b'\xff\x81\x48\x03\x02\x01', 'own': b'\x64\x03\x02\x01',
    'ownimp': b'\xff\x28\x05\x30\x03\x02\x01', 'ownexp': b'\xa2\x05\x64\x03\x02\x01', 'both': b'\xa3\x03\x84\x01',
    'of': b'\xa5\x05\x30\x03\x02\x01', 'alt': b'\xa6\x05\xa1\x03\x02\x01', 'any': b'\xa8\x03\x02\x01',
    'def': b'\xa9\x03\x02\x01', 'idef': b'\xaa\x03\x02\x01',
}


def build(ctx, core, z, name, x):
    if name == 'app':
        return ctx.byte_str([x])
    if name == 'pair':
        return True
    if name in ('ownimp', 'idef'):
        return {'x': x}
    if name == 'of':
        return [x]
    if name == 'alt':
        return z.Alt('exp', x)
    if name == 'any':
        return core.Any(core.Integer(x))
    return x


def fields(ctx, cls, names):
    """tagged fields are recognised by their tags, whichever others are absent"""
    z = types(ctx)
    core = ctx.lib.core
    t = getattr(z, cls)
    d, body, want = {}, b'', []
    for i, k in enumerate(names):
        x = ctx.int('x%d' % i, 2, 4)
        d[k] = build(ctx, core, z, k, x)
        e = FIELDS[k] + (b'\xff' if k == 'pair' else ctx.byte_str([x]))
        want.append((k, x, e))
        body = body + e
    data = encode((0x31 if cls == 'FieldSet' else 0x30, body))
    for v, how in ((t.load(data), 'loaded'), (t(d), 'built')):
        if cls == 'Fields' or how == 'loaded':
            ctx.check(ctx.eq(v.dump(), data), how + ': encoding')
        for k, x, e in want:
            f = v[k]
            ctx.check(ctx.eq(f.dump(), e), how + ': field ' + k)
            n = f.native
            if k == 'app':
                ctx.check(ctx.eq(n, ctx.byte_str([x])), how + ': value')
            elif k == 'pair':
                ctx.check(ctx.eq(n, True), how + ': value')
            elif k in ('ownimp', 'idef'):
                ctx.check(ctx.eq(n['x'], x), how + ': value')
            elif k == 'of':
                ctx.check(ctx.eq(n, [x]), how + ': value')
            elif k == 'any':
                ctx.check(ctx.eq(f.parse(core.Integer).native, x), how + ': value')
            else:
                ctx.check(ctx.eq(n, x), how + ': value')
            ctx.check(ctx.eq(f.copy().dump(), e), how + ': copy of ' + k)
        for k in FIELDS:
            if k not in names and not (cls == 'FieldSet' and k == 'any'):
                if k == 'def':
                    ctx.check(v[k].native == 5, 'default')
                elif k == 'idef':
                    ctx.check(v[k].native['x'] == 1, 'default')
                else:
                    ctx.check(v[k].native is None, 'absent')
    v = t.load(data)
    out = v.dump(force=True)
    if cls == 'Fields':
        ctx.check(ctx.eq(out, data), 'forced encoding')
    w = t.load(out)
    for k, x, e in want:
        ctx.check(ctx.eq(w[k].dump(), e), 'field %s after forcing' % k)
    # a field can be given as a tagged or untagged value of its type
    u = t({})
    for k, x, e in want:
        if k not in ('any', 'alt'):
            f = t.load(data)[k]
            u[k] = f.untag() if ctx.choice('u' + k, [0, 1]) else f
            ctx.check(ctx.eq(u[k].dump(), e), 'field %s set from a value' % k)
    ctx.reach('fields')


def foreign(ctx, kind, field, value, fc, vc):
    """a value carrying other tags that is put into a field, a list or a choice gets exactly the tags declared there"""
    core = ctx.lib.core
    s = sample(ctx, kind)
    cls, val = s[0], s[1]
    n = ctx.int('n', 0, 2)

    def under(k, c, n):
        if k == 'implicit':
            return {'implicit': (c, n)}, (c, n), ()
        if k == 'explicit':
            return {'explicit': (c, n)}, None, ((c, n),)
        if k == 'both':
            return {'explicit': (c, n), 'implicit': (c, 5)}, (c, 5), ((c, n),)
        if k == 'two':
            return {'explicit': ((c, n), (3, 4))}, None, ((c, n), (3, 4))
        return {}, None, ()
    fkw, imp, exp = under(field, fc, 1)
    want = reference(ctx, s, imp, exp)
    plain = reference(ctx, s)
    vkw, vimp, vexp = under(value, vc, n)

    class S(core.Sequence):
        _fields = [('a', cls, dict(fkw))]

    class U(core.Set):
        _fields = [('a', cls, dict(fkw))]

    class O(core.Sequence):
        _fields = [('o', core.Integer, {'implicit': 9, 'optional': True}), ('a', cls, dict(fkw, optional=True))]

    class C(core.Choice):
        _alternatives = [('z', core.Real), ('a', cls, dict(fkw))]

    class L(core.SequenceOf):
        _child_spec = cls

    class E(core.SetOf):
        _child_spec = cls
    for built in (True, False):
        def make():
            return cls(val, **vkw) if built else cls.load(reference(ctx, s, vimp, vexp), **vkw)
        ctx.check(ctx.eq(S({'a': make()}).dump(), encode((0x30, want))), 'in a sequence')
        ctx.check(ctx.eq(U({'a': make()}).dump(), encode((0x31, want))), 'in a set')
        o = O({'o': 3})
        o['a'] = make()
        ctx.check(ctx.eq(o.dump(), encode((0x30, b'\x89\x01\x03' + want))), 'assigned to an optional field')
        back = O.load(o.dump())
        ctx.check(ctx.eq(back['a'].native, cls(val).native), 'decoded')
        c = C('a', make())
        ctx.check(ctx.eq(c.dump(), want), 'in a choice')
        ctx.check(C.load(c.dump()).name == 'a', 'alternative')
        ls = L([make()])
        ls.append(make())
        ctx.check(ctx.eq(ls.dump(), encode((0x30, plain + plain))), 'in a list')
        ls[0] = make()
        ctx.check(ctx.eq(ls.dump(), encode((0x30, plain + plain))), 'assigned to a list')
        ctx.check(ctx.eq(E([make()]).dump(), encode((0x31, plain))), 'in a set of')
    ctx.reach('retagged')


def foreign_cases(tier):
    ways = ['none', 'implicit', 'explicit', 'both', 'two']
    out = []
    i = 0
    for k in ['int', 'seq', 'oct', 'set'] if tier == 'quick' else KINDS:
        for f in ways[:4]:
            for v in ways:
                for fc, vc in [(2, 2), (2, 1), (1, 2), (3, 1)]:
                    if tier == 'quick' and (vc != 2 and v == 'none' or (i + fc + vc) % 2 and k != 'int'):
                        continue
                    out.append((k, f, v, fc, vc))
                i += 1
    return out


def stray(ctx, cls, after):
    """a component whose identifier belongs to no later field is refused"""
    z = types(ctx)
    t = getattr(z, cls)
    names = list(FIELDS)
    b = ctx.int('b', 0, 255)
    ctx.assume(b & 31 != 31)
    firsts = [FIELDS[k][0] for k in (names[names.index(after) + 1:] if cls == 'Fields' else names)
              if not (cls == 'FieldSet' and k in ('any', after))]
    known = ctx.any(*[ctx.eq(b, f) for f in firsts])
    ctx.assume(ctx.not_(known))
    # the constructed bit is looked at when the field is read
    body = FIELDS[after] + (b'\xff' if after == 'pair' else b'\x03') + ctx.byte_str([b]) + b'\x00'
    data = encode((0x30 if cls == 'Fields' else 0x31, body))

    def go():
        v = t.load(data)
        v.native
        return [k for k in names if k not in ('any', after) and v[k].native is not None and k not in ('def', 'idef')]
    st, r = ctx.attempt(go)
    if st == 'err':
        ctx.check(isinstance(r, ValueError), 'refused with ValueError')
        ctx.reach('refused')
    else:
        # kept beyond the last field of a sequence, but never as a field
        ctx.check(cls == 'Fields' and r == [], 'accepted a stray component as a field')


KINDS = ['int', 'oct', 'str', 'bool', 'null', 'seq', 'list', 'set']


def tagged_cases(tier):
    out = []
    for i, k in enumerate(KINDS):
        for j, h in enumerate(['implicit', 'explicit', 'both', 'two']):
            sizes = ['small', 'mid', 'big']
            if tier == 'quick':
                sizes = [sizes[(i + j) % 3]]
            for s in sizes:
                for c in ([i + j, i + 3 * j + 3] if tier == 'quick' else [None]):
                    out.append((k, h, s, c))
    return out


def wrong_cases(tier):
    out = []
    kinds = ['int', 'oct', 'seq'] if tier == 'quick' else KINDS
    hs = ['none', 'implicit', 'explicit', 'both', 'two']
    for k in kinds:
        for h in hs:
            for o in hs + [h + '-outer', h + '-inner']:
                if o == h or (h == 'none' and o.startswith('none')) or (o.endswith('inner') and h in ('implicit', 'explicit')):
                    continue
                if tier == 'quick':
                    n = len(out)
                    out.append((k, h, o, n, 'small' if n % 4 else 'mid'))
                else:
                    out.append((k, h, o, None, 'any'))
    return out


def choice_cases(tier):
    out = []
    for i, a in enumerate(ALTS):
        for o in ('none', 'one', 'two'):
            if tier == 'quick':
                out.append((a, o, i, 'small' if i % 4 else 'mid'))
                if o != 'none':
                    out.append((a, o, i + 4, 'mid' if i % 4 == 1 else 'small'))
            else:
                out.append((a, o, None, 'any'))
    return out


def field_cases(tier):
    names = list(FIELDS)
    out = []
    for i, k in enumerate(names):
        out.append(('Fields', (k,)))
        if k != 'any':
            out.append(('FieldSet', (k,)))
        out.append(('Fields', tuple(sorted({k, names[(i + 5) % len(names)], names[(i + 9) % len(names)]}, key=names.index))))
    if tier != 'quick':
        for i in range(len(names)):
            for j in range(i + 1, len(names)):
                out.append(('Fields', (names[i], names[j])))
                if 'any' not in (names[i], names[j]):
                    out.append(('FieldSet', (names[i], names[j])))
    return out


HARNESSES = [
    Harness('tagged', tagged, named('kind how size seed', tagged_cases), reach=['tagged'],
            bounds='values of 8 types under an implicit, explicit, implicit and explicit, or two explicit tags of any class but universal, numbers 0..40000'),
    Harness('wrong', wrong, named('kind how other seed size', wrong_cases), reach=['refused'], bounds='tags of any two different classes or numbers 0..300, at every level'),
    Harness('identifiers', identifiers, named('kind how layer', [(k, h, i) for k in KINDS for h in ('none', 'implicit', 'explicit', 'both', 'two') for i in (0, 1, 2)
                                         if i < {'none': 1, 'implicit': 1, 'explicit': 2, 'both': 2, 'two': 3}[h]]),
            reach=['refused'], bounds='every single identifier octet at every level of tagging'),
    Harness('choice', choice, named('name outer seed size', choice_cases), reach=['chosen'],
            bounds='11 kinds of alternatives, none to two explicit tags with numbers 0..300'),
    Harness('accept', accept, named('n', [(1,), (2,), (3,)]), reach=['refused', 'known'], bounds='identifiers of one to three octets, empty contents'),
    Harness('fields', fields, named('cls names', field_cases), reach=['fields'], bounds='one to three of 16 tagged optional fields present'),
    Harness('foreign', foreign, named('kind field value fc vc', foreign_cases), reach=['retagged'],
            bounds='values of every kind under none to two tags of any number 0..2 and class, put into a field, list or choice declared with none to two tags'),
    Harness('stray', stray, named('cls after', [(c, k) for c in ('Fields', 'FieldSet') for k in FIELDS if not (c == 'FieldSet' and k == 'any')]), reach=['refused'],
            bounds='every single-octet identifier that no later field has'),
]
