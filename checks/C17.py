import json
import os
from pysym.harness import Harness
from hlib import named, encode, zoo, minimal_tag_octets

MODULES = ('core', 'parser', 'util', 'x509', 'cms', 'crl', 'csr', 'ocsp', 'keys', 'algos', 'tsp', 'pkcs12', 'pdf', '_iri', '_inet', '_types')

_data = {}


def table(name):
    if name not in _data:
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), name + '.json')) as f:
            _data[name] = json.load(f)
    return _data[name]


def types(ctx):
    c = ctx.lib.core
    z = zoo(ctx)
    if not hasattr(z, 'OpenBit'):
        specs = {'int': c.Integer, 'seq': z.Inner, 'str': c.UTF8String}

        class OpenBit(c.Sequence):
            _fields = [('t', z.OidT), ('v', c.ParsableOctetBitString)]
            _oid_pair = ('t', 'v')
            _oid_specs = specs

        class OpenMid(c.Sequence):
            _fields = [('a', c.Integer, {'optional': True}), ('t', z.OidT), ('f', c.Boolean, {'default': False}),
                       ('v', c.Any, {'optional': True}), ('z', c.Integer, {'implicit': 3, 'optional': True})]
            _oid_pair = ('t', 'v')
            _oid_specs = specs

        class OpenSet(c.Set):
            _fields = [('t', z.OidT), ('v', c.Any, {'explicit': 0})]
            _oid_pair = ('t', 'v')
            _oid_specs = specs

        class OpenCall(c.Sequence):
            _fields = [('t', z.OidT), ('v', None)]

            def _spec(self):
                return {'int': c.Integer, 'seq': z.Inner, 'str': c.UTF8String}.get(self['t'].native, c.Any)
            _spec_callbacks = {'v': _spec}

        class OpenNum(c.Sequence):
            _fields = [('t', z.Num), ('v', c.ParsableOctetString)]

            def _spec(self):
                return {'one': c.Integer, 'zero': z.Inner, 'many': c.UTF8String}.get(self['t'].native)
            _spec_callbacks = {'v': _spec}

        class SetOfAny(c.SetOf):
            _child_spec = c.Any

        class SetOfInt(c.SetOf):
            _child_spec = c.Integer

        class OpenVals(c.Sequence):
            _fields = [('t', z.OidT), ('v', None)]

            def _spec(self):
                return {'int': SetOfInt}.get(self['t'].native, SetOfAny)
            _spec_callbacks = {'v': _spec}

        z.OpenBit, z.OpenMid, z.OpenSet, z.OpenCall, z.OpenNum, z.OpenVals = OpenBit, OpenMid, OpenSet, OpenCall, OpenNum, OpenVals
        z.SetOfAny, z.SetOfInt = SetOfAny, SetOfInt
    return z


WRAP = {'Open': None, 'OpenOpt': None, 'OpenMid': None, 'OpenCall': None, 'OpenTag': 0xa0, 'OpenSet': 0xa0,
        'OpenOct': 4, 'OpenBit': 3}
NAMES = {3: 'int', 4: 'seq', 5: 'str', 6: 'enum'}


def value(ctx, kind, name='x'):
    """(native value, encoding)"""
    if kind == 'int':
        x = ctx.int(name, 0, 127)
        return x, b'\x02\x01' + ctx.byte_str([x])
    if kind == 'seq':
        x = ctx.int(name, 0, 127)
        return {'x': x, 'y': False}, b'\x30\x03\x02\x01' + ctx.byte_str([x])
    if kind == 'str':
        t = ctx.text(name, 1, [(0x20, 0x7e)])
        return t, b'\x0c\x01' + t.encode('utf-8')
    if kind == 'enum':
        x = ctx.int(name, 0, 1)
        return x, b'\x0a\x01' + ctx.byte_str([x])
    b = ctx.bytes(name, 2)
    return b, b'\x04\x02' + b


def wrapped(first, enc):
    if first is None:
        return enc
    if first == 3:
        return encode((3, b'\x00' + enc))
    return encode((first, enc))


def spec_of(ctx, z, kind):
    return {'int': ctx.lib.core.Integer, 'seq': z.Inner, 'str': ctx.lib.core.UTF8String}.get(kind)


def governed(ctx, cls, kind, order):
    """any identifier, a value of one of the kinds: decoded as its identifier says, whatever is read first"""
    z = types(ctx)
    core = ctx.lib.core
    t = getattr(z, cls)
    first = WRAP[cls]
    nat, enc = value(ctx, kind)
    k = ctx.int('oid', 0, 127)
    raw = wrapped(first, enc)
    outer = 0x31 if cls == 'OpenSet' else 0x30
    data = encode((outer, ctx.join(b'', [b'\x06\x02\x2a', ctx.byte_str([k]), raw])))
    v = t.load(data)
    ctx.check(ctx.eq(v.dump(), data), 'kept')
    spec, name = None, None
    for n in NAMES:
        if ctx.eq(k, n):
            name = NAMES[n]
            spec = spec_of(ctx, z, name)
            if name == 'enum' and cls == 'Open':
                spec = z.Enum
    if order == 'native':
        st, r = ctx.attempt(lambda: v.native)
    elif order == 'value':
        st, r = ctx.attempt(lambda: v['v'].native)
    elif order == 'iter':
        st, r = ctx.attempt(lambda: [v[f].native for f in v])
    else:
        st, r = ctx.attempt(lambda: v.copy()['v'].native)
    ctx.check(ctx.eq(v.dump(), data), 'reading does not change it')
    right = spec is None or name == kind
    if not right:
        # constructed and string types have different identifiers, so no value is taken for one of another type
        ctx.check(st == 'err' and isinstance(r, ValueError), 'a value of another type is refused')
        ctx.reach('refused')
        return
    # enumerations need a specification
    if spec is None and kind == 'enum' and first not in (3, 4):
        ctx.reach('raw')
        ctx.check(ctx.eq(v['v'].dump(), raw), 'raw bytes of an unknown type')
        return
    ctx.check(st == 'ok', 'read')
    f = v['v']
    ctx.check(ctx.eq(f.dump(), raw), 'bytes of the value')
    ctx.check(ctx.eq(v.dump(), data), 'reading does not change it')
    if spec is not None:
        p = f.parsed if first in (3, 4) else f
        ctx.check(type(p) is spec, 'decoded as the registered type')
        want = nat
        if name == 'enum':
            want = 'a' if ctx.eq(nat, 0) else 'b'
        ctx.check(ctx.eq(p.native, want), 'its value')
        ctx.check(ctx.eq(f.native, want), 'value of the field')
        ctx.check(ctx.eq(v.native['v'], want), 'value in the structure')
        ctx.check(v.native['t'] == name, 'identifier')
        ctx.reach('typed')
    elif first in (3, 4):
        ctx.check(ctx.eq(f.native, enc), 'raw octets under an unknown identifier')
        ctx.reach('raw')
    else:
        ctx.check(isinstance(f, core.Any), 'raw value under an unknown identifier')
        if kind == 'seq':
            ctx.check(ctx.eq(f.parse(z.Inner).native, nat), 'can be parsed later')
        else:
            ctx.check(ctx.eq(f.native, nat), 'universal value')
        ctx.check(ctx.eq(v.dump(), data), 'parsing does not change it')
        ctx.reach('raw')


def built(ctx, cls, name, how):
    """building with an identifier encodes the value as the registered type; replacing both follows the new identifier"""
    z = types(ctx)
    t = getattr(z, cls)
    first = WRAP[cls]
    num = [n for n in NAMES if NAMES[n] == name][0]
    nat, enc = value(ctx, name)
    outer = 0x31 if cls == 'OpenSet' else 0x30
    want = encode((outer, b'\x06\x02\x2a' + bytes([num]) + wrapped(first, enc)))
    ident = name if how[0] == 'n' else '1.2.%d' % num
    given = nat
    spec = spec_of(ctx, z, name)
    if how[1] == 'o':
        given = spec(nat)
    if how[2] == 'i':
        v = t({'v': given, 't': ident})
    elif how[2] == 's':
        v = t()
        v['t'] = ident
        v['v'] = given
    else:
        # the value and the identifier are replaced by another pair
        other = {'int': 'seq', 'seq': 'str', 'str': 'int'}[name]
        onat, oenc = value(ctx, other, 'y')
        v = t({'t': other, 'v': onat})
        if how[2] == 'l':
            v = t.load(v.dump())
        elif how[2] == 'r':
            v.native
            v.dump()
        v['t'] = ident
        v['v'] = given
    ctx.check(ctx.eq(v.dump(), want), 'encoding')
    ctx.check(ctx.eq(v['v'].native, nat), 'value of the field')
    ctx.check(ctx.eq(v.native, {'t': name, 'v': nat}), 'native')
    w = t.load(want)
    ctx.check(ctx.eq(w.native, {'t': name, 'v': nat}), 'loaded')
    ctx.check(ctx.eq(w.copy().dump(), want), 'copied')
    # the identifier decides afresh when the encoding is read again
    w['t'] = '1.2.77'
    u = t.load(w.dump())
    ctx.check(ctx.eq(u['v'].dump(), wrapped(first, enc)), 'raw bytes under a new identifier')
    if first in (3, 4):
        ctx.check(ctx.eq(u['v'].native, enc), 'not decoded under an unknown identifier')
    else:
        ctx.check(isinstance(u['v'], ctx.lib.core.Any), 'not decoded under an unknown identifier')
    u['t'] = ident
    ctx.check(ctx.eq(t.load(u.dump()).native, {'t': name, 'v': nat}), 'decoded again under the first identifier')
    wrong = {'int': 'text', 'seq': ctx.lib.core.Integer(5), 'str': b'x'}[name]
    ctx.check(ctx.rejects(t, {'t': ident, 'v': wrong}), 'a value of another type is refused')
    ctx.reach('built')


def deep(ctx, k, extra, opaque):
    """an identifier is another one when any of its arcs is, or when it has more or fewer"""
    z = types(ctx)
    core = ctx.lib.core
    base = '1.2' + '.7' * k

    class DeepOid(core.ObjectIdentifier):
        _map = {}

    class Deep(core.Sequence):
        _fields = [('t', DeepOid), ('v', core.ParsableOctetString if opaque else core.Any)]
        _oid_pair = ('t', 'v')
        _oid_specs = {base + '.5': z.Inner, base + '.300': core.UTF8String}
    arcs = [ctx.int('a%d' % i, 0, 127) for i in range(2 + max(extra, 0))]
    cut = k - 1 + min(extra, 0)
    oid = b'\x2a' + b'\x07' * cut + ctx.byte_str(arcs)
    if ctx.bool('wide'):
        # two octets for the last arc
        oid = oid[:-1] + b'\x82' + ctx.byte_str(arcs[-1:])
        last = 256 + arcs[-1]
    else:
        last = arcs[-1]
    raw = ctx.choice('raw', [b'\x30\x03\x02\x01\x07', b'\x0c\x01a'])
    v = Deep.load(encode((0x30, encode((6, oid)) + (encode((4, raw)) if opaque else raw))))
    spec = None
    if extra == 0 and ctx.all(arcs[0] == 7, last == 5):
        spec = z.Inner
    if extra == 0 and ctx.all(arcs[0] == 7, last == 300):
        spec = core.UTF8String
    st, r = ctx.attempt(lambda: v['v'].parsed if opaque and spec is not None else v['v'])
    if spec is None:
        ctx.check(st == 'ok' and type(r) is (core.ParsableOctetString if opaque else core.Any), 'raw under another identifier')
        ctx.check(v.spec('v') is (core.ParsableOctetString if opaque else core.Any), 'no type')
        if opaque:
            ctx.check(ctx.eq(r.native, raw), 'raw octets')
        ctx.reach('raw')
    elif (spec is z.Inner) == (raw[0] == 0x30):
        ctx.check(st == 'ok' and type(r) is spec, 'the registered type')
        ctx.check(ctx.eq(r.native, {'x': 7, 'y': False} if spec is z.Inner else 'a'), 'its value')
        ctx.reach('typed')
    else:
        ctx.check(st == 'err' and isinstance(r, ValueError), 'a value of another type is refused')
        ctx.reach('refused')


def optional(ctx, cls):
    """an absent optional open value, before other fields"""
    z = types(ctx)
    t = getattr(z, cls)
    k = ctx.int('oid', 0, 127)
    x = ctx.int('x', 1, 127)
    pre, post = b'', b''
    if cls == 'OpenMid':
        pre, post = b'\x02\x01' + ctx.byte_str([x]), b''
    data = encode((0x30, ctx.join(b'', [pre, b'\x06\x02\x2a', ctx.byte_str([k]), post])))
    v = t.load(data)
    ctx.check(v['v'].native is None, 'absent')
    ctx.check(ctx.eq(v.dump(), data), 'kept')
    ctx.check(ctx.eq(v.dump(force=True), data), 'kept when forced')
    v['v'] = None
    ctx.check(ctx.eq(v.dump(), data), 'none')
    if cls == 'OpenMid':
        ctx.check(ctx.eq(v['a'].native, x), 'other field')
        for name in ('int', 'seq', 'str'):
            nat, enc = value(ctx, name, name)
            data = encode((0x30, ctx.join(b'', [pre, b'\x06\x02\x2a', bytes([[n for n in NAMES if NAMES[n] == name][0]]), b'\x01\x01\xff',
                                                enc, b'\x83\x01\x05'])))
            v = t.load(data)
            ctx.check(ctx.eq(v['v'].native, nat), 'value between other fields')
            ctx.check(v['z'].native == 5 and v['f'].native is True, 'other fields')
            ctx.check(ctx.eq(v.dump(force=True), data), 'kept')
    ctx.reach('absent')


def numbered(ctx, n):
    """a field governed by an integer through a callback"""
    z = types(ctx)
    k = ctx.int('k', -128, 127) if n == 1 else ctx.int('k', 128, 32767)
    raw = ctx.choice('raw', [b'\x02\x01\x07', b'\x30\x03\x02\x01\x07', b'\x0c\x01a'])
    data = encode((0x30, encode((2, ctx.itob(k, n, True))) + encode((4, raw))))
    v = z.OpenNum.load(data)
    want = None
    for num, s, e, nat in ((1, ctx.lib.core.Integer, b'\x02\x01\x07', 7), (0, z.Inner, b'\x30\x03\x02\x01\x07', {'x': 7, 'y': False}),
                           (300, ctx.lib.core.UTF8String, b'\x0c\x01a', 'a')):
        if ctx.eq(k, num):
            want = (s, e, nat)
    st, r = ctx.attempt(lambda: v['v'].native)
    ctx.check(ctx.eq(v.dump(), data), 'kept')
    if want is None:
        ctx.check(st == 'ok' and r == raw, 'raw octets')
        ctx.reach('raw')
    elif want[1] == raw:
        ctx.check(st == 'ok' and ctx.eq(r, want[2]), 'value')
        ctx.check(type(v['v'].parsed) is want[0], 'type')
        ctx.reach('typed')
    else:
        ctx.check(st == 'err' and isinstance(r, ValueError), 'a value of another type is refused')
        ctx.reach('refused')


def vals(ctx, n):
    """attribute-like structures: a set of values of the registered type, or of any values"""
    z = types(ctx)
    k = ctx.int('oid', 0, 127)
    xs = [ctx.int('x%d' % i, 0, 127) for i in range(n)]
    body = ctx.join(b'', [b'\x02\x01' + ctx.byte_str([x]) for x in xs])
    data = encode((0x30, ctx.join(b'', [b'\x06\x02\x2a', ctx.byte_str([k]), encode((0x31, body))])))
    v = z.OpenVals.load(data)
    known = ctx.eq(k, 3)
    ctx.check(ctx.eq(v['v'].native, xs), 'values')
    if known:
        ctx.check(type(v['v']) is z.SetOfInt, 'type of the values')
        ctx.reach('typed')
    else:
        ctx.check(type(v['v']) is z.SetOfAny, 'any values')
        ctx.reach('raw')
    ctx.check(ctx.eq(v.dump(), data), 'kept')


# ------------------------------------------------------- the structures of the library

PRIM = {
    'core.Null': b'\x05\x00', 'core.OctetString': b'\x04\x01a', 'core.Integer': b'\x02\x01\x05', 'core.ObjectIdentifier': b'\x06\x02\x2a\x03',
    'core.GeneralizedTime': b'\x18\x0f20200101000000Z', 'core.BMPString': b'\x1e\x02\x00A', 'core.UTF8String': b'\x0c\x01a',
    'core.PrintableString': b'\x13\x01A', 'core.IA5String': b'\x16\x01a', 'core.OctetBitString': b'\x03\x02\x00a',
    'x509.DNSName': b'\x16\x01a', 'x509.EmailAddress': b'\x16\x03a@b', 'x509.DirectoryString': b'\x0c\x01a',
    'keys.ECDomainParameters': b'\x06\x02\x2a\x03', 'crl.CRLReason': b'\x0a\x01\x01', 'x509.KeyUsage': b'\x03\x02\x05\xa0',
    'x509.NetscapeCertificateType': b'\x03\x02\x05\xa0', 'cms.SMIMEEncryptionKeyPreferences': b'\x31\x00', 'core.SetOf': b'\x31\x00',
    'pkcs12.SafeContents': b'\x30\x00',
}


def sample(spec, field):
    """an encoding of a value of a type of the library; None when the type is not a fixed one"""
    if spec in PRIM:
        return PRIM[spec]
    s = table('schema')[spec] if spec in table('schema') else None
    if s is not None and s['kind'] in ('set', 'set of'):
        return b'\x31\x00'
    return b'\x30\x00'


def contents_of(dotted):
    arcs = [int(x) for x in dotted.split('.')]
    out = []
    for a in [arcs[0] * 40 + arcs[1]] + arcs[2:]:
        g = [a & 127]
        a >>= 7
        while a:
            g.insert(0, (a & 127) | 128)
            a >>= 7
        out += g
    return bytes(out)


def groups(name):
    """the identifiers a structure knows, by all their octets but the last"""
    out = {}
    for dotted, spec in sorted(table('oids')[name]['entries'].items()):
        c = contents_of(dotted)
        out.setdefault(c[:-1], {})[c[-1]] = spec
    return out


def lookup(ctx, name):
    mod, cls = name.split('.')
    return getattr(getattr(ctx.lib, mod), cls)


def library(ctx, name, prefix):
    """every identifier with all but the last octet given: the value is of the type the standards define for it"""
    core = ctx.lib.core
    o = table('oids')[name]
    t = lookup(ctx, name)
    prefix = bytes.fromhex(prefix)
    known = groups(name)[prefix]
    last = ctx.int('last', 0, 127)
    spec = o['other']
    for k, s in sorted(known.items()):
        if ctx.eq(last, k):
            spec = s
    fields = table('schema')[name]['fields']
    field = [f for f in fields if f[0] == o['value']][0]
    opaque = o['field'] in ('core.ParsableOctetString', 'core.ParsableOctetBitString')
    raw_type = spec == o['other'] and spec in ('core.Any', 'core.ParsableOctetString')
    if raw_type:
        inner = ctx.bytes('raw', 2) if opaque else b'\x04\x02' + ctx.bytes('raw', 2)
    elif spec in ('cms.SetOfAny', 'pkcs12.SetOfAny'):
        inner = b'\x31\x04\x04\x02' + ctx.bytes('raw', 2)
    else:
        inner = sample(spec, field)
    val = encode((4, inner)) if opaque else inner
    plain = val
    for w in field[2]:
        val = encode((w, val))
    body = b''
    for f in fields:
        if f[0] == o['id']:
            body = ctx.join(b'', [body, encode((6, prefix + ctx.byte_str([last])))])
        elif f[0] == o['value']:
            body = ctx.join(b'', [body, val])
        elif f[1] == 'required':
            body = ctx.join(b'', [body, b'\x02\x01\x09'])
    data = encode((0x30, body))
    v = t.load(data)
    f = v[o['value']]
    ctx.check(ctx.eq(f.dump(), val), 'bytes of the value')
    p = f
    if opaque and not raw_type:
        p = f.parsed
    ctx.check(type(p) is lookup(ctx, spec), 'type of the value')
    ctx.check(v.spec(o['value']) is lookup(ctx, spec), 'reported type')
    if raw_type:
        ctx.check(ctx.eq(f.native, inner if opaque else inner[2:]), 'raw bytes under an identifier without a type')
        ctx.reach('raw')
    else:
        ctx.check(ctx.eq(p.dump(), inner if opaque else val), 'bytes of the parsed value')
        ctx.reach('typed')
    ctx.attempt(lambda: v.native)
    ctx.check(ctx.eq(v.dump(), data), 'reading does not change it')


RSA = '1.2.840.113549.1.1.'
PUBLIC = {RSA + '1': 'keys.RSAPublicKey', RSA + '7': 'keys.RSAPublicKey', RSA + '10': 'keys.RSAPublicKey', '1.2.840.10040.4.1': 'core.Integer',
          '1.2.840.10046.2.1': 'core.Integer', '1.2.840.10045.2.1': '=keys.ECPointBitString', '1.3.101.110': '=core.OctetBitString',
          '1.3.101.111': '=core.OctetBitString', '1.3.101.112': '=core.OctetBitString', '1.3.101.113': '=core.OctetBitString'}
PRIVATE = {RSA + '1': 'keys.RSAPrivateKey', RSA + '10': 'keys.RSAPrivateKey', '1.2.840.10040.4.1': 'core.Integer',
           '1.2.840.10045.2.1': 'keys.ECPrivateKey', '1.3.101.110': 'core.OctetString', '1.3.101.111': 'core.OctetString',
           '1.3.101.112': 'core.OctetString', '1.3.101.113': 'core.OctetString'}


def key(ctx, kind, prefix):
    """public and private keys are decoded according to their algorithm"""
    prefix = bytes.fromhex(prefix)
    last = ctx.int('last', 0, 127)
    spec = None
    for dotted, s in sorted((PUBLIC if kind == 'public' else PRIVATE).items()):
        c = contents_of(dotted)
        if c[:-1] == prefix:
            if ctx.eq(last, c[-1]):
                spec = s
    alg = encode((0x30, encode((6, prefix + ctx.byte_str([last])))))
    opaque = spec is None or spec[0] == '='
    inner = ctx.bytes('raw', 2) if opaque else sample(spec, None)
    if kind == 'public':
        data = encode((0x30, alg + encode((3, b'\x00' + inner))))
        v = ctx.lib.keys.PublicKeyInfo.load(data)
        f = v['public_key']
    else:
        data = encode((0x30, ctx.join(b'', [b'\x02\x01\x00', alg, encode((4, inner))])))
        v = ctx.lib.keys.PrivateKeyInfo.load(data)
        f = v['private_key']
    if spec is None:
        ctx.check(ctx.eq(f.native, inner), 'opaque under an unknown algorithm')
        ctx.reach('raw')
    elif spec[0] == '=':
        ctx.check(type(f) is lookup(ctx, spec[1:]), 'type of the key')
        ctx.check(ctx.eq(f.native, inner), 'bytes of the key')
        ctx.reach('typed')
    else:
        ctx.check(type(f.parsed) is lookup(ctx, spec), 'type of the key')
        ctx.check(ctx.eq(f.parsed.dump(), inner), 'bytes of the key')
        ctx.reach('typed')
    ctx.check(ctx.eq(v.dump(), data), 'reading does not change it')


def encapsulated(ctx, cls):
    """version 1 content may be any PKCS #7 content, later versions wrap it in an octet string"""
    cms = ctx.lib.cms
    k = ctx.int('version', 0, 5)
    x = ctx.byte_str([ctx.int('x', 0, 127)])
    wrap = ctx.choice('wrap', [0, 1])
    oid = ctx.choice('oid', [b'\x2a\x86\x48\x86\xf7\x0d\x01\x07\x01', b'\x2a\x86\x48\x86\xf7\x0d\x01\x09\x10\x01\x04', b'\x2a\x03'])
    inner = b'\x04\x01' + x if wrap else b'\x02\x01' + x
    content = encode((0x30, encode((6, oid)) + encode((0xa0, inner))))
    head = b'\x02\x01' + ctx.byte_str([k])
    if cls == 'SignedData':
        data = encode((0x30, ctx.join(b'', [head, b'\x31\x00', content, b'\x31\x00'])))
    else:
        data = encode((0x30, ctx.join(b'', [head, b'\x30\x07\x06\x05\x2b\x0e\x03\x02\x1a', content, b'\x04\x01a'])))
    v = getattr(cms, cls).load(data)
    e = v['encap_content_info']
    v1 = ctx.eq(k, 1)
    ctx.check(type(e) is (cms.ContentInfo if v1 else cms.EncapsulatedContentInfo), 'type for the version')
    st, c = ctx.attempt(lambda: e['content'])
    if v1 or wrap:
        if oid == b'\x2a\x86\x48\x86\xf7\x0d\x01\x07\x01' and not wrap:
            # data is an octet string
            ctx.check(st == 'err' and isinstance(c, ValueError), 'data is an octet string')
        elif oid == b'\x2a\x86\x48\x86\xf7\x0d\x01\x09\x10\x01\x04' and wrap and not v1:
            ctx.check(ctx.rejects(lambda: c.native), 'not a time stamp')
        else:
            ctx.check(st == 'ok', 'content')
            ctx.check(ctx.eq(c.native, x if wrap else ctx.int('x', 0, 127)), 'content value')
    else:
        ctx.check(st == 'err' and isinstance(c, ValueError), 'an octet string is needed')
    ctx.check(ctx.eq(v.dump(), data), 'kept')
    ctx.reach('content')


def library_cases(tier):
    return [(n, p.hex()) for n in sorted(table('oids')) for p in groups(n)]


def key_cases(tier):
    out = []
    for kind, tab in (('public', PUBLIC), ('private', PRIVATE)):
        for p in sorted({contents_of(d)[:-1].hex() for d in tab}):
            out.append((kind, p))
    return out


HARNESSES = [
    Harness('governed', governed, named('cls kind order', lambda tier: [(c, k, o) for c in WRAP for i, k in enumerate(('int', 'seq', 'str', 'enum', 'oct'))
                                                                        for j, o in enumerate(('native', 'value', 'iter', 'copy'))
                                                                        if tier != 'quick' or (i + j) % 2 == 0]),
            reach=['typed', 'refused', 'raw'], bounds='8 kinds of open fields, 128 identifiers, values of five kinds'),
    Harness('built', built, named('cls name how', lambda tier: [(c, n, h) for c in WRAP if c != 'OpenMid' for n in ('int', 'seq', 'str')
                                                                for i, h in enumerate(a + b + d for a in 'nd' for b in 'vo' for d in 'ishlr')
                                                                if tier != 'quick' or i % 3 == len(c + n) % 3]),
            reach=['built'], bounds='8 kinds of open fields, built and replaced in five ways, one-octet values'),
    Harness('deep', deep, named('k extra opaque', lambda tier: [(k, e, o) for k in (2, 4, 8, 12, 20, 40) for e in (-1, 0, 1, 2) for o in (False, True)
                                                                if tier != 'quick' or o == (k in (4, 12, 40)) or e == 1]), reach=['typed', 'raw', 'refused'],
            bounds='identifiers of 4 to 45 arcs, of which the last two or more are any'),
    Harness('optional', optional, named('cls', [('OpenOpt',), ('OpenMid',)]), reach=['absent']),
    Harness('numbered', numbered, named('n', [(1,), (2,)]), reach=['typed', 'refused', 'raw'], bounds='identifiers -128..32767'),
    Harness('vals', vals, named('n', [(0,), (1,), (2,)]), reach=['typed', 'raw'], bounds='128 identifiers, up to two values'),
    Harness('library', library, named('name prefix', library_cases), reach=['typed', 'raw'],
            bounds='every structure of the library with an open field, every identifier that agrees with a known one but for the last octet'),
    Harness('key', key, named('kind prefix', key_cases), reach=['typed', 'raw'], bounds='identifiers that agree with a known one but for the last octet'),
    Harness('encapsulated', encapsulated, named('cls', [('SignedData',), ('DigestedData',)]), reach=['content'], bounds='versions 0 to 5'),
]
