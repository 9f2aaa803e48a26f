"""C26: elliptic-curve points and private keys encode at the exact field width"""
from pysym.harness import Harness
import hlib
from hlib import named

MODULES = ('core', 'parser', 'util', 'keys')


def number(ctx, name, n):
    """a number of exactly n octets (any number below 256 for one octet) with the two outer octets unknown"""
    if n == 1:
        return ctx.int(name, 0, 255)
    if n == 2:
        return ctx.int(name, 256, 65535)
    top = ctx.int(name + '_top', 1, 255)
    low = ctx.int(name + '_low', 0, 255)
    return top * 256 ** (n - 1) + low


def octets(ctx, value, width):
    return ctx.itob(value, width)


def ref_tlv(ctx, first, contents):
    return hlib.ref_tlv(ctx, first[0], contents)


# --- points ---------------------------------------------------------------

def coords(ctx, cls, nx, ny, received):
    k = ctx.lib.keys
    x = number(ctx, 'x', nx)
    y = number(ctx, 'y', ny)
    p = getattr(k, cls).from_coords(x, y)
    width = max(nx, ny)
    want = ctx.join(b'', [b'\x04', octets(ctx, x, width), octets(ctx, y, width)])
    ctx.check(ctx.eq(p.native, want), 'a point is not encoded as 04 followed by both coordinates at the wider width')
    if received:
        p = getattr(k, cls).load(p.dump())
    ctx.check(ctx.eq(p.to_coords(), (x, y)), 'the coordinates of a point do not come back')
    ctx.reach('coords')


def point_read(ctx, cls, n, chunked):
    k = ctx.lib.keys
    data = ctx.bytes('data', n)
    C = getattr(k, cls)
    pad = b'\x00' if cls == 'ECPointBitString' else b''
    tag = b'\x03' if cls == 'ECPointBitString' else b'\x04'
    if chunked:
        cut = min(chunked, n)
        parts = [data[:cut], data[cut:]]
        body = ctx.join(b'', [ref_tlv(ctx, tag, ctx.join(b'', [pad, p])) for p in parts])
        enc = ctx.join(b'', [ctx.byte_str([tag[0] | 0x20, 0x80]), body, b'\0\0'])
    else:
        enc = ref_tlv(ctx, tag, ctx.join(b'', [pad, data]))
    r = ctx.attempt(C.load, enc)
    if r[0] == 'ok':
        r = ctx.attempt(r[1].to_coords)
    good = n >= 3 and n % 2 == 1
    ok = ctx.all(good, n > 0 and data[0] == 4)
    if r[0] == 'ok':
        ctx.check(ok, 'coordinates are returned for an encoding that is not an uncompressed point')
        half = (n - 1) // 2
        ctx.check(ctx.eq(r[1], (ctx.btoi(data[1:1 + half]), ctx.btoi(data[1 + half:]))), 'a point decodes to other coordinates')
        ctx.reach('read')
    else:
        ctx.check(isinstance(r[1], ValueError), 'an unreadable point is not refused with ValueError')
        ctx.check(ctx.not_(ok), 'an uncompressed point is refused')
        ctx.reach('refused')


# --- private keys ---------------------------------------------------------

SIZES = {'secp192r1': 24, 'secp224r1': 28, 'secp256r1': 32, 'secp256k1': 32, 'secp384r1': 48, 'secp521r1': 66, 'sect163k1': 21,
         'brainpoolp320r1': 40, 'sect571r1': 72, 'secp112r1': 14}


def params_of(ctx, curve):
    k = ctx.lib.keys
    if curve == 'implicit':
        return k.ECDomainParameters(name='implicit_ca', value=k.Null())
    if isinstance(curve, int):
        order = number(ctx, 'order', curve)
        ctx.assume(order > 0)
        return k.ECDomainParameters(name='specified', value={
            'version': 'ecdpVer1', 'field_id': {'field_type': 'prime_field', 'parameters': 23},
            'curve': {'a': b'\x01', 'b': b'\x01'}, 'base': k.ECPoint.from_coords(3, 10), 'order': order})
    if curve == 'unknown':
        return k.ECDomainParameters(name='named', value='1.2.3.4')
    return k.ECDomainParameters(name='named', value=curve)


def width_of(curve):
    return curve if isinstance(curve, int) else SIZES.get(curve)


def raw(ctx, width, params):
    """an encoded key holding the number 1 in the given number of octets"""
    parts = [b'\x02\x01\x01', ref_tlv(ctx, b'\x04', b'\0' * (width - 1) + b'\x01')]
    if params is not None:
        parts.append(ref_tlv(ctx, b'\xa0', params.dump()))
    return ref_tlv(ctx, b'\x30', ctx.join(b'', parts))


def algorithm(ctx, params):
    return {'algorithm': 'ec', 'parameters': params}


def fresh(params, value):
    d = {'version': 1, 'private_key': value}
    if params is not None:
        d['parameters'] = params
    return d


# Each way of getting at an EC private key in which a number is put
def r_new(ctx, params, value):
    return ctx.lib.keys.ECPrivateKey(fresh(params, value))


def r_key_last(ctx, params, value):
    k = ctx.lib.keys.ECPrivateKey()
    k['version'] = 1
    k['parameters'] = params
    k['private_key'] = value
    return k


def r_params_last(ctx, params, value):
    k = ctx.lib.keys.ECPrivateKey()
    k['version'] = 1
    k['private_key'] = value
    k.dump()
    k['parameters'] = params
    return k


def r_loaded(ctx, params, value):
    k = ctx.lib.keys.ECPrivateKey.load(ctx.lib.keys.ECPrivateKey(fresh(params, 1)).dump())
    k['private_key'] = value
    return k


def r_copied(ctx, params, value):
    k = ctx.lib.keys.ECPrivateKey(fresh(params, 1)).copy()
    k['private_key'] = value
    return k


def r_again(ctx, params, value):
    k = ctx.lib.keys.ECPrivateKey(fresh(params, 1))
    k.dump()
    k['private_key'] = value
    return k


def r_object(ctx, params, value):
    K = ctx.lib.keys
    return K.ECPrivateKey(fresh(params, K.IntegerOctetString(value)))


def r_info(ctx, params, value):
    K = ctx.lib.keys
    return K.PrivateKeyInfo({'version': 0, 'private_key_algorithm': algorithm(ctx, params), 'private_key': K.ECPrivateKey(fresh(None, value))})


def r_info_dumped(ctx, params, value):
    K = ctx.lib.keys
    k = K.ECPrivateKey(fresh(None, value))
    k.dump()
    return K.PrivateKeyInfo({'version': 0, 'private_key_algorithm': algorithm(ctx, params), 'private_key': k})


def r_info_received(ctx, params, value):
    K = ctx.lib.keys
    k = K.ECPrivateKey.load(K.ECPrivateKey(fresh(None, value)).dump())
    i = K.PrivateKeyInfo()
    i['version'] = 0
    i['private_key_algorithm'] = {'algorithm': 'ec'}
    i['private_key'] = k
    i.dump()
    i['private_key_algorithm'] = algorithm(ctx, params)
    return i


def r_info_set(ctx, params, value):
    K = ctx.lib.keys
    i = r_info(ctx, params, 1)
    i = K.PrivateKeyInfo.load(i.dump())
    i['private_key'].parsed['private_key'] = value
    return i


def r_info_replaced(ctx, params, value):
    K = ctx.lib.keys
    i = K.PrivateKeyInfo.load(r_info(ctx, params, 1).dump())
    i['private_key'] = K.ECPrivateKey(fresh(None, value))
    return i


def r_wrap(ctx, params, value):
    K = ctx.lib.keys
    return K.PrivateKeyInfo.wrap(K.ECPrivateKey(fresh(params, value)), 'ec')


def r_wrap_received(ctx, params, value):
    # a sender that drops the leading octets of the number
    K = ctx.lib.keys
    enc = ref_tlv(ctx, b'\x30', ctx.join(b'', [b'\x02\x01\x01', K.IntegerOctetString(value).dump(), ref_tlv(ctx, b'\xa0', params.dump())]))
    return K.PrivateKeyInfo.wrap(K.ECPrivateKey.load(enc), 'ec')


ROUTES = dict((k[2:], v) for k, v in list(globals().items()) if k.startswith('r_'))


def private(ctx, route, curve, n):
    K = ctx.lib.keys
    params = params_of(ctx, curve)
    value = number(ctx, 'value', n)
    width = width_of(curve)
    r = ctx.attempt(ROUTES[route], ctx, params, value)
    if n > width and route == 'info_set':
        # the curve is only known to the structure around the key
        ctx.check(r[0] == 'ok' and ctx.eq(r[1]['private_key'].parsed['private_key'].native, value), 'the private key decodes to another number')
        return
    if n > width:
        ctx.check(r[0] == 'err' and isinstance(r[1], ValueError), 'a number too wide for the curve is not refused with ValueError')
        ctx.reach('too wide')
        return
    ctx.check(r[0] == 'ok', 'a number that fits the curve is refused')
    if r[0] != 'ok':
        return
    whole = r[1]
    for again in (False, True):
        if again:
            whole = type(whole).load(whole.dump())
        key = whole['private_key'].parsed if isinstance(whole, K.PrivateKeyInfo) else whole
        ctx.check(ctx.eq(key['private_key'].native, value), 'the private key decodes to another number')
        ctx.check(ctx.eq(key['private_key'].contents, octets(ctx, value, width)), 'the private key is not encoded at the width of its curve')
    ctx.reach('width')


def keeps(ctx, route, width, curve, n):
    """without known parameters a loaded key keeps at least the width it came with"""
    K = ctx.lib.keys
    params = None if curve is None else params_of(ctx, curve)
    enc = raw(ctx, width, params)
    value = number(ctx, 'value', n)
    if route == 'plain':
        whole = K.ECPrivateKey.load(enc)
        whole['private_key'] = value
    else:
        whole = K.PrivateKeyInfo.load(K.PrivateKeyInfo({'version': 0, 'private_key_algorithm': {'algorithm': 'ec'}, 'private_key': K.ECPrivateKey.load(enc)}).dump())
        whole['private_key'].parsed['private_key'] = value
    whole = type(whole).load(whole.dump())
    key = whole if route == 'plain' else whole['private_key'].parsed
    ctx.check(ctx.eq(key['private_key'].contents, octets(ctx, value, max(width, n))), 'the width a private key came with is not kept')
    ctx.reach('kept')


def refused(ctx, curve, n, received):
    """a refused number leaves the key as it was"""
    K = ctx.lib.keys
    k = K.ECPrivateKey(fresh(params_of(ctx, curve), 5))
    before = k.dump()
    if received:
        k = K.ECPrivateKey.load(before)
    value = number(ctx, 'value', n)
    r = ctx.attempt(k.__setitem__, 'private_key', value)
    ctx.check(r[0] == 'err' and isinstance(r[1], ValueError), 'a number too wide for the curve is not refused with ValueError')
    ctx.check(ctx.eq(k.dump(), before), 'a refused number changes the key')
    ctx.check(k['private_key'].native == 5, 'a refused number changes the value of the key')
    ctx.reach('unchanged')


def as_received(ctx, width, curve, indef, chunks):
    """reading or encoding a key afresh does not change its width"""
    K = ctx.lib.keys
    octs = ctx.bytes('octets', width)
    if chunks:
        cut = min(chunks, width)
        one = ctx.join(b'', [b'\x24\x80', ref_tlv(ctx, b'\x04', octs[:cut]), ref_tlv(ctx, b'\x04', octs[cut:]), b'\0\0'])
    else:
        one = ref_tlv(ctx, b'\x04', octs)
    parts = [b'\x02\x01\x01', one]
    if curve:
        parts.append(ref_tlv(ctx, b'\xa0', params_of(ctx, curve).dump()))
    body = ctx.join(b'', parts)
    enc = ctx.join(b'', [b'\x30\x80', body, b'\0\0']) if indef else ref_tlv(ctx, b'\x30', body)
    k = K.ECPrivateKey.load(enc)
    ctx.check(ctx.eq(k['private_key'].native, ctx.btoi(octs)), 'a private key decodes to another number')
    if not indef and not chunks:
        ctx.check(ctx.eq(k.dump(), enc), 'reading a private key changes its encoding')
    c = k.copy()
    want = ref_tlv(ctx, b'\x04', octs)
    for v, what in ((k.dump(), 'encoding'), (c.dump(), 'copying'), (k.dump(force=True), 'encoding afresh'), (c.dump(force=True), 'encoding a copy of')):
        got = K.ECPrivateKey.load(v)['private_key']
        if what.endswith('afresh'):
            ctx.check(ctx.eq(got.dump(), want), 'encoding afresh changes the octets of a private key')
        ctx.check(ctx.eq(got._merge_chunks(), octs), what + ' a private key changes its octets')
    ctx.reach('as received')


def octet_number(ctx, width, chunks, op):
    """the octets of a number held in an octet string, the leading ones included, survive every way of encoding it"""
    C = ctx.lib.core
    octs = ctx.bytes('octets', width)
    if chunks:
        cut = min(chunks, width)
        one = ctx.join(b'', [b'\x24\x80', ref_tlv(ctx, b'\x04', octs[:cut]), ref_tlv(ctx, b'\x04', octs[cut:]), b'\0\0'])
    else:
        one = ref_tlv(ctx, b'\x04', octs)
    v = C.IntegerOctetString.load(one)
    tag = b'\x04'
    if op == 'copy':
        v = v.copy()
    elif op == 'retag':
        v = v.retag({'implicit': 1})
        tag = b'\x81'
    elif op == 'explicit':
        v = v.retag({'explicit': 1}).untag()
    elif op == 'read':
        v.native
    elif op == 'copy width':
        v.set_encoded_width(width + 1)
        v = v.copy()
        n = ctx.int('n', 0, 255)
        v.set(n)
        ctx.check(ctx.eq(v.contents, octets(ctx, n, width + 1)), 'a copy does not encode at the width asked for')
        return
    for force in (False, True, False):
        ctx.check(ctx.eq(v.dump(force=force), ref_tlv(ctx, tag, octs)), 'the octets of a number change')
    ctx.check(ctx.eq(v.native, ctx.btoi(octs)), 'the number changes')
    ctx.reach('octets')


def set_width(ctx, n, width):
    K = ctx.lib.keys
    value = number(ctx, 'value', n)
    v = K.IntegerOctetString(value)
    r = ctx.attempt(v.set_encoded_width, width)
    if n > width:
        ctx.check(r[0] == 'err' and isinstance(r[1], ValueError), 'a width too small for the number is not refused')
        return
    ctx.check(r[0] == 'ok' and ctx.eq(v.contents, octets(ctx, value, width)), 'the encoded width is not the one asked for')
    other = ctx.int('other', 0, 255)
    v.set(other)
    ctx.check(ctx.eq(v.contents, octets(ctx, other, width)), 'a number set later is not encoded at the width asked for')
    ctx.reach('set width')


def private_rows(tier):
    quick = tier == 'quick'
    rows = []
    curves = ['secp256r1', 'secp521r1', 3] if quick else sorted(SIZES) + [1, 2, 3, 20, 32]
    for c in curves:
        w = width_of(c)
        ns = sorted({1, 2, w - 1, w, w + 1} - {0}) if not quick else [1, w - 1, w, w + 1]
        for r in sorted(ROUTES):
            for n in ns:
                rows.append((r, c, n))
    if quick:
        rows += [('new', c, n) for c in sorted(SIZES) for n in (1, SIZES[c])]
    return rows


HARNESSES = [
    Harness('coords', coords, named('cls nx ny received', lambda tier: [(c, a, b, r) for c in ('ECPoint', 'ECPointBitString')
            for a, b in ([(1, 1), (1, 2), (2, 1), (3, 1), (1, 3), (32, 32), (31, 32), (32, 31), (66, 65), (66, 66)]
                         if tier == 'quick' else [(i, j) for i in (1, 2, 3, 4, 16, 28, 32, 48, 66, 128) for j in (1, 2, 3, 4, 16, 28, 32, 48, 66, 128)])
            for r in (False, True)]), reach=['coords'],
            bounds='coordinates of 1..66 octets (thorough 128), outer octets unknown'),
    Harness('point_read', point_read, named('cls n chunked', lambda tier: [(c, n, k) for c in ('ECPoint', 'ECPointBitString')
            for n in (range(0, 8) if tier == 'quick' else range(0, 20)) for k in ((0, 1, 2) if n else (0,))]), reach=['read', 'refused'],
            bounds='every octet string of up to 7 octets (thorough 19) as a point, whole or in two chunks'),
    Harness('private', private, named('route curve n', private_rows), reach=['width', 'too wide'],
            bounds='every way of building, loading and changing a key x named and specified curves x numbers at the edges of the width'),
    Harness('keeps', keeps, named('route width curve n', lambda tier: [(r, w, c, n) for r in ('plain', 'info') for w in (1, 2, 3, 32)
            for c in ((None, 'unknown', 'implicit') if r == 'plain' else (None,)) for n in (1, 2, 4, 31, 33)]), reach=['kept'],
            bounds='keys of 1..32 octets with no or unknown parameters'),
    Harness('refused', refused, named('curve n received', [(c, n, r) for c in ('secp192r1', 'secp256r1', 2) for n in ((33, 40) if c != 2 else (3, 4)) for r in (False, True)]),
            reach=['unchanged'], bounds='numbers wider than the curve'),
    Harness('as_received', as_received, named('width curve indef chunks', [(w, c, i, k) for w in (0, 1, 2, 3, 31, 32, 33) for c in (None, 'secp256r1') for i in (False, True) for k in ((0, 1, 16) if w else (0,))]),
            reach=['as received'], bounds='every content of 1..33 octets'),
    Harness('octet_number', octet_number, named('width chunks op', [(w, c, o) for w in (0, 1, 2, 3, 8) for c in ((0, 1, 2) if w else (0,))
            for o in ('none', 'copy', 'retag', 'explicit', 'read', 'copy width')]), reach=['octets'], bounds='every content of 0..8 octets, whole or in two chunks'),
    Harness('set_width', set_width, named('n width', [(n, w) for n in (1, 2, 3, 8) for w in (1, 2, 3, 4, 8, 9)]), reach=['set width'],
            bounds='numbers of 1..8 octets'),
]
ASSUMPTIONS = ['coordinates and keys wider than two octets have their outer two octets unknown, the inner ones zero (sizes depend on the top octet only)']
