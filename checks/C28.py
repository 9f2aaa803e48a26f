"""C28: reported key sizes are exact"""
from pysym.harness import Harness
import hlib
from hlib import named
from C26 import number, octets

MODULES = ('core', 'parser', 'util', 'keys', 'algos')

# The width in octets of a private key on each named curve: the size of the order of the base point
# (SEC 2, X9.62 annex J, RFC 5639)
ORDERS = {
    14: 'secp112r1 secp112r2', 15: 'sect113r1 sect113r2', 16: 'secp128r1 secp128r2', 17: 'sect131r1 sect131r2',
    20: 'brainpoolp160r1 brainpoolp160t1',
    21: 'c2pnb163v1 c2pnb163v2 c2pnb163v3 c2pnb176w1 sect163k1 sect163r1 sect163r2 secp160r1 secp160k1 secp160r2',
    24: 'c2tnb191v1 c2tnb191v2 c2tnb191v3 c2onb191v4 c2onb191v5 prime192v2 prime192v3 secp192r1 secp192k1 brainpoolp192r1 brainpoolp192t1',
    25: 'c2pnb208w1 sect193r1 sect193r2', 28: 'secp224r1 brainpoolp224r1 brainpoolp224t1', 29: 'sect233k1 secp224k1',
    30: 'c2tnb239v1 c2tnb239v2 c2tnb239v3 c2onb239v4 c2onb239v5 prime239v1 prime239v2 prime239v3 sect239k1 sect233r1',
    32: 'secp256r1 secp256k1 brainpoolp256r1 brainpoolp256t1', 33: 'c2pnb272w1', 36: 'sect283k1 sect283r1', 37: 'c2pnb304w1',
    40: 'brainpoolp320r1 brainpoolp320t1', 45: 'c2tnb359v1 c2pnb368w1', 48: 'secp384r1 brainpoolp384r1 brainpoolp384t1',
    51: 'sect409k1', 52: 'sect409r1', 53: 'c2tnb431r1', 64: 'brainpoolp512r1 brainpoolp512t1', 66: 'secp521r1', 72: 'sect571k1 sect571r1',
}
CURVES = dict((c, n) for n, cs in ORDERS.items() for c in cs.split())


def positive(ctx, name, n, padded):
    """a positive number of exactly n octets, and an INTEGER holding it (with a redundant leading octet if padded)"""
    if n <= 2:
        v = ctx.int(name, 1 if n == 1 else 256, 256 ** n - 1)
    else:
        v = number(ctx, name, n)
    return v, hlib.ref_tlv(ctx, 2, octets(ctx, v, n + 1)) if padded else ctx.lib.core.Integer(v).dump()


def seq(ctx, *parts):
    return hlib.ref_tlv(ctx, 0x30, ctx.join(b'', list(parts)))


def build(ctx, kind, form, numb):
    """an encoded PublicKeyInfo or PrivateKeyInfo of which numb is the number the size is taken from"""
    K = ctx.lib.keys
    one, two = b'\x02\x01\x01', b'\x02\x01\x02'
    oid = lambda name: K.PublicKeyAlgorithmId(name).dump()
    if kind in ('rsa', 'rsassa_pss', 'rsaes_oaep'):
        alg = seq(ctx, oid(kind), b'\x05\0') if kind == 'rsa' else seq(ctx, oid(kind), b'\x30\0')
        key = seq(ctx, numb, two) if form == 'public' else seq(ctx, b'\x02\x01\0', numb, two, one, one, one, one, one, one)
    else:
        params = seq(ctx, numb, one, two) if kind == 'dh' else seq(ctx, numb, one, two)
        alg = seq(ctx, oid(kind), params)
        key = one
    if form == 'public':
        return seq(ctx, alg, hlib.ref_tlv(ctx, 3, ctx.join(b'', [b'\0', key])))
    return seq(ctx, b'\x02\x01\0', alg, hlib.ref_tlv(ctx, 4, key))


def sized(ctx, kind, form, n, padded, twice):
    K = ctx.lib.keys
    v, enc = positive(ctx, 'v', n, padded)
    cls = K.PublicKeyInfo if form == 'public' else K.PrivateKeyInfo
    i = cls.load(build(ctx, kind, form, enc))
    if twice:
        i = i.copy()
        i.native
    ctx.check(ctx.eq(i.bit_size, 8 * n), 'the reported bit size is not that of the number')
    ctx.check(ctx.eq(i.byte_size, n), 'the reported byte size is not that of the number')
    ctx.check(ctx.eq(i.byte_size, n), 'the reported byte size changes')
    ctx.check(i.algorithm == kind, 'the reported algorithm is not the one of the key')
    ctx.reach('sized')


def wrapped(ctx, kind, form, n):
    K = ctx.lib.keys
    v, _ = positive(ctx, 'v', n, False)
    if kind == 'dsa':
        i = K.PrivateKeyInfo.wrap(K.DSAPrivateKey({'version': 0, 'p': v, 'q': 7, 'g': 2, 'public_key': 5, 'private_key': 3}), 'dsa')
    elif form == 'public':
        i = K.PublicKeyInfo.wrap(K.RSAPublicKey({'modulus': v, 'public_exponent': 3}), kind)
    else:
        i = K.PrivateKeyInfo.wrap(K.RSAPrivateKey({'version': 0, 'modulus': v, 'public_exponent': 3, 'private_exponent': 3, 'prime1': 3, 'prime2': 5,
                                                   'exponent1': 1, 'exponent2': 1, 'coefficient': 1}), kind)
    ctx.check(ctx.eq(i.bit_size, 8 * n) and ctx.eq(i.byte_size, n), 'the reported size is not that of the number')
    ctx.reach('wrapped')


def dsa_hash(ctx, form, n, padded):
    K = ctx.lib.keys
    q, enc = positive(ctx, 'q', n, padded)
    params = seq(ctx, b'\x02\x01\x17', enc, b'\x02\x01\x02')
    ctx.check(ctx.eq(K.DSAParams.load(params).q_byte_size, n), 'the reported size of the subgroup is not that of q')
    alg = seq(ctx, K.PublicKeyAlgorithmId('dsa').dump(), params)
    if form == 'public':
        i = K.PublicKeyInfo.load(seq(ctx, alg, b'\x03\x04\0\x02\x01\x01'))
    else:
        i = K.PrivateKeyInfo.load(seq(ctx, b'\x02\x01\0', alg, b'\x04\x03\x02\x01\x01'))
    ctx.check(i.hash_algo == ('sha1' if n <= 20 else 'sha2'), 'the hash of a DSA key does not follow from the size of its subgroup')
    ctx.reach('hash')


def ec_params(ctx, curve):
    from C26 import params_of
    return params_of(ctx, curve)


def ec_private(ctx, curve, where, n, received):
    """the size is that of the curve, whatever the number"""
    K = ctx.lib.keys
    params = ec_params(ctx, curve)
    width = curve if isinstance(curve, int) else CURVES[curve]
    if n > width:
        return
    value = number(ctx, 'value', n)
    parts = [b'\x02\x01\x01', hlib.ref_tlv(ctx, 4, octets(ctx, value, n))]
    if where == 'inside':
        parts.append(hlib.ref_tlv(ctx, 0xa0, params.dump()))
    key = seq(ctx, *parts)
    alg = seq(ctx, *([K.PublicKeyAlgorithmId('ec').dump()] + ([params.dump()] if where == 'outside' else [])))
    i = K.PrivateKeyInfo.load(seq(ctx, b'\x02\x01\0', alg, hlib.ref_tlv(ctx, 4, key)))
    if not received:
        i = K.PrivateKeyInfo.wrap(K.ECPrivateKey({'version': 1, 'private_key': value, 'parameters': params}), 'ec')
    ctx.check(ctx.eq(i.bit_size, 8 * width) and ctx.eq(i.byte_size, width), 'the reported size of an EC key is not that of its curve')
    ctx.check(ctx.eq(params.key_size, width), 'the reported key size of a curve is not that of its order')
    ctx.reach('private')


def ec_unknown(ctx, width, curve):
    """with no known curve the size is that of the encoded number"""
    K = ctx.lib.keys
    octs = ctx.bytes('octets', width)
    key = seq(ctx, b'\x02\x01\x01', hlib.ref_tlv(ctx, 4, octs))
    alg = seq(ctx, *([K.PublicKeyAlgorithmId('ec').dump()] + ([] if curve is None else [ec_params(ctx, curve).dump()])))
    i = K.PrivateKeyInfo.load(seq(ctx, b'\x02\x01\0', alg, hlib.ref_tlv(ctx, 4, key)))
    ctx.check(ctx.eq(i.bit_size, 8 * width) and ctx.eq(i.byte_size, width), 'the reported size of an EC key is not that of its encoding')
    ctx.reach('unknown')


def ec_public(ctx, n):
    K = ctx.lib.keys
    data = ctx.bytes('data', n)
    alg = seq(ctx, K.PublicKeyAlgorithmId('ec').dump(), ec_params(ctx, 'secp256r1').dump())
    i = K.PublicKeyInfo.load(seq(ctx, alg, hlib.ref_tlv(ctx, 3, ctx.join(b'', [b'\0', data]))))
    r = ctx.attempt(lambda: (i.bit_size, i.byte_size))
    if r[0] == 'ok':
        bits, size = r[1]
        ctx.check(n >= 2, 'a size is reported for a point without coordinates')
        if n < 2:
            return
        compressed = ctx.any(data[0] == 2, data[0] == 3)
        whole = ctx.any(data[0] == 4, data[0] == 6, data[0] == 7)
        ctx.check(ctx.any(compressed, ctx.all(whole, n % 2 == 1)), 'a size is reported for a malformed point')
        want = ctx.ite(compressed, n - 1, (n - 1) // 2)
        ctx.check(ctx.all(size == want, bits == 8 * want), 'the reported size of an EC key is not that of its coordinates')
        ctx.reach('public')
    else:
        ctx.check(isinstance(r[1], ValueError), 'the size of a malformed point is not refused with ValueError')
        bad = n < 2 or ctx.not_(ctx.any(data[0] == 2, data[0] == 3, ctx.all(data[0] == 4, n % 2 == 1), ctx.all(data[0] == 6, n % 2 == 1), ctx.all(data[0] == 7, n % 2 == 1)))
        ctx.check(bad, 'the size of a point is refused')
        ctx.reach('malformed')


def order(ctx, n, padded):
    """the key size of a specified curve is that of its order"""
    K = ctx.lib.keys
    v, enc = positive(ctx, 'v', n, padded)
    K_ = K.ECDomainParameters
    whole = seq(ctx, b'\x02\x01\x01', seq(ctx, K.FieldType('prime_field').dump(), b'\x02\x01\x17'), seq(ctx, b'\x04\x01\x01', b'\x04\x01\x01'),
                b'\x04\x03\x04\x03\x0a', enc)
    ctx.check(ctx.eq(K_.load(whole).key_size, n), 'the key size of a curve is not that of its order')
    ctx.reach('order')


WIDE = (1, 2, 3, 20, 21, 64, 128, 255, 256)
DEEP = (1, 2, 3, 4, 19, 20, 21, 28, 32, 33, 64, 65, 96, 127, 128, 129, 192, 255, 256, 257, 384, 512)

HARNESSES = [
    Harness('sized', sized, named('kind form n padded twice', lambda tier: [(k, f, n, p, t) for k in ('rsa', 'rsassa_pss', 'rsaes_oaep', 'dsa', 'dh') for f in ('public', 'private')
            if not (f == 'private' and k in ('rsaes_oaep', 'dh')) for n in (WIDE if tier == 'quick' else DEEP) for p in (False, True) for t in (False, True)] + [
            (k, f, n, False, n > 512) for k, f, n in (('rsa', 'public', 512), ('rsa', 'private', 1025), ('rsa', 'public', 2048), ('rsa', 'private', 2048), ('dsa', 'private', 512), ('dsa', 'public', 2048), ('dh', 'public', 1025))]),
            reach=['sized'], bounds='numbers of 1..256 octets and of some larger sizes up to 2048 octets (thorough more of them) with unknown outer octets'),
    Harness('wrapped', wrapped, named('kind form n', lambda tier: [(k, f, n) for k, f in (('rsa', 'public'), ('rsassa_pss', 'public'), ('rsa', 'private'), ('rsassa_pss', 'private'), ('dsa', 'private'))
            for n in (WIDE if tier == 'quick' else DEEP) + (2048,)]), reach=['wrapped'], bounds='the same numbers in keys that are wrapped'),
    Harness('dsa_hash', dsa_hash, named('form n padded', [(f, n, p) for f in ('public', 'private') for n in (1, 2, 19, 20, 21, 28, 32, 33) for p in (False, True)]), reach=['hash'],
            bounds='subgroup orders of 1..33 octets'),
    Harness('ec_private', ec_private, named('curve where n received', lambda tier: [(c, w, n, r) for c in (sorted(CURVES) + [1, 2, 3, 20, 32]) for w in ('inside', 'outside')
            for n in ((1, 13) if tier == 'quick' else (1, 2, 8, 13, 21, 32)) for r in (False, True)]), reach=['private'], bounds='every named curve and specified ones; short and full numbers'),
    Harness('ec_unknown', ec_unknown, named('width curve', [(w, c) for w in (1, 2, 20, 32) for c in (None, 'implicit', 'unknown')]), reach=['unknown'], bounds='all contents'),
    Harness('ec_public', ec_public, named('n', [(n,) for n in (0, 1, 2, 3, 4, 5, 32, 33, 64, 65, 66, 67, 133)]), reach=['public', 'malformed'], bounds='every octet string of the given lengths'),
    Harness('order', order, named('n padded', lambda tier: [(n, p) for n in (WIDE if tier == 'quick' else DEEP) for p in (False, True)]), reach=['order'], bounds='orders of 1..256 octets'),
]
ASSUMPTIONS = ['numbers wider than two octets have their two outer octets unknown and the inner ones zero', 'bit sizes are by design eight times the byte size']
