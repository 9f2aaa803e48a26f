"""C29: algorithm identifiers report the parameters they actually carry"""
from pysym.harness import Harness
import hlib
from hlib import named

MODULES = ('core', 'parser', 'util', 'algos', 'keys', 'cms')

# Standards, by identifier: signature algorithm, hash (None: not part of the identifier)
SIGNATURES = {
    '1.3.14.3.2.3': ('rsassa_pkcs1v15', 'md5'), '1.3.14.3.2.29': ('rsassa_pkcs1v15', 'sha1'), '1.3.14.7.2.3.1': ('rsassa_pkcs1v15', 'md2'),
    '1.2.840.113549.1.1.2': ('rsassa_pkcs1v15', 'md2'), '1.2.840.113549.1.1.4': ('rsassa_pkcs1v15', 'md5'), '1.2.840.113549.1.1.5': ('rsassa_pkcs1v15', 'sha1'),
    '1.2.840.113549.1.1.14': ('rsassa_pkcs1v15', 'sha224'), '1.2.840.113549.1.1.11': ('rsassa_pkcs1v15', 'sha256'),
    '1.2.840.113549.1.1.12': ('rsassa_pkcs1v15', 'sha384'), '1.2.840.113549.1.1.13': ('rsassa_pkcs1v15', 'sha512'),
    '1.2.840.113549.1.1.1': ('rsassa_pkcs1v15', None),
    '1.2.840.10040.4.3': ('dsa', 'sha1'), '1.3.14.3.2.13': ('dsa', 'sha1'), '1.3.14.3.2.27': ('dsa', 'sha1'), '1.2.840.10040.4.1': ('dsa', None),
    '1.2.840.10045.4.1': ('ecdsa', 'sha1'), '1.2.840.10045.4': ('ecdsa', None), '1.3.101.112': ('ed25519', None), '1.3.101.113': ('ed448', None),
}
for i, h in enumerate(('sha224', 'sha256', 'sha384', 'sha512')):
    SIGNATURES['2.16.840.1.101.3.4.3.%d' % (i + 1)] = ('dsa', h)
    SIGNATURES['1.2.840.10045.4.3.%d' % (i + 1)] = ('ecdsa', h)
for i, h in enumerate(('sha3_224', 'sha3_256', 'sha3_384', 'sha3_512')):
    SIGNATURES['2.16.840.1.101.3.4.3.%d' % (i + 5)] = ('dsa', h)
    SIGNATURES['2.16.840.1.101.3.4.3.%d' % (i + 9)] = ('ecdsa', h)
    SIGNATURES['2.16.840.1.101.3.4.3.%d' % (i + 13)] = ('rsassa_pkcs1v15', h)
    SIGNATURES['0.4.0.127.0.7.1.1.4.1.%d' % (i + 8)] = ('ecdsa', h)
for i, h in enumerate(('sha1', 'sha224', 'sha256', 'sha384', 'sha512')):
    SIGNATURES['0.4.0.127.0.7.1.1.4.1.%d' % (i + 1)] = ('ecdsa', h)

DIGESTS = {'1.2.840.113549.2.2': 'md2', '1.2.840.113549.2.5': 'md5', '1.3.14.3.2.26': 'sha1'}
for n, h in {4: 'sha224', 1: 'sha256', 2: 'sha384', 3: 'sha512', 5: 'sha512_224', 6: 'sha512_256', 7: 'sha3_224', 8: 'sha3_256', 9: 'sha3_384', 10: 'sha3_512'}.items():
    DIGESTS['2.16.840.1.101.3.4.2.%d' % n] = h
HMACS = dict(('1.2.840.113549.2.%d' % (i + 7), h) for i, h in enumerate(('sha1', 'sha224', 'sha256', 'sha384', 'sha512', 'sha512_224', 'sha512_256')))
HMACS.update(('2.16.840.1.101.3.4.2.%d' % (i + 13), h) for i, h in enumerate(('sha3_224', 'sha3_256', 'sha3_384', 'sha3_512')))

# Ciphers that name a key length and mode themselves: (cipher, mode, key octets, block octets, where the IV is)
CIPHERS = {'1.3.14.3.2.7': ('des', 'cbc', 8, 8, 'params'), '1.2.840.113549.3.7': ('tripledes', 'cbc', 24, 8, 'params')}
for base, size in ((0, 16), (20, 24), (40, 32)):
    for i, mode in enumerate(('ecb', 'cbc', 'ofb', 'cfb', 'wrap', 'gcm', 'ccm', 'wrap_pad')):
        CIPHERS['2.16.840.1.101.3.4.1.%d' % (base + i + 1)] = ('aes', mode, size, 16, 'params' if mode in ('cbc', 'ofb') else None)
# Password-based ones: kdf, hash, cipher, key octets, block octets
PBES1 = {}
for n, h, c in ((1, 'md2', 'des'), (3, 'md5', 'des'), (4, 'md2', 'rc2'), (6, 'md5', 'rc2'), (10, 'sha1', 'des'), (11, 'sha1', 'rc2')):
    PBES1['1.2.840.113549.1.5.%d' % n] = ('pbkdf1', h, c, 8, 8)
for n, c, k, b in ((1, 'rc4', 16, 0), (2, 'rc4', 5, 0), (3, 'tripledes', 24, 8), (4, 'tripledes', 16, 8), (5, 'rc2', 16, 8), (6, 'rc2', 5, 8)):
    PBES1['1.2.840.113549.1.12.1.%d' % n] = ('pkcs12_kdf', 'sha1', c, k, b)

RC2, RC5, RC4 = '1.2.840.113549.3.2', '1.2.840.113549.3.9', '1.2.840.113549.3.4'
PBES2, PBKDF2, SCRYPT = '1.2.840.113549.1.5.13', '1.2.840.113549.1.5.12', '1.3.6.1.4.1.11591.4.11'
PSS = '1.2.840.113549.1.1.10'
# RFC 4055 section 2.1
NULLS = ['1.2.840.113549.1.1.1', '1.2.840.113549.1.1.11', '1.2.840.113549.1.1.12', '1.2.840.113549.1.1.13', '1.2.840.113549.1.1.14', '1.3.14.3.2.26',
         '2.16.840.1.101.3.4.2.1', '2.16.840.1.101.3.4.2.2', '2.16.840.1.101.3.4.2.3', '2.16.840.1.101.3.4.2.4']


def octet_oid(dotted):
    arcs = [int(x) for x in dotted.split('.')]
    out = []
    for a in [arcs[0] * 40 + arcs[1]] + arcs[2:]:
        part = [a & 127]
        while a > 127:
            a >>= 7
            part.insert(0, a & 127 | 128)
        out += part
    return bytes(out)


def oid(ctx, dotted):
    return hlib.ref_tlv(ctx, 6, octet_oid(dotted))


def seq(ctx, *parts):
    return hlib.ref_tlv(ctx, 0x30, ctx.join(b'', list(parts)))


def octs(ctx, data):
    return hlib.ref_tlv(ctx, 4, data)


def integer(ctx, v):
    return ctx.lib.core.Integer(v).dump()


def load(ctx, cls, enc, built):
    """the identifier as received, or built from what was received"""
    v = cls.load(enc)
    if built == 'copy':
        return v.copy()
    if built == 'native':
        alg, params = v['algorithm'].native, v['parameters']
        d = {'algorithm': alg}
        if not isinstance(params, ctx.lib.core.Void):
            d['parameters'] = params
        return cls(d)
    return v


def refuse(ctx, v, names, why):
    for n in names:
        r = ctx.attempt(getattr, v, n)
        ctx.check(r[0] == 'err' and isinstance(r[1], ValueError), '%s of %s is not refused with ValueError' % (n, why))


def report(ctx, v, **want):
    for n in sorted(want):
        ctx.check(ctx.eq(getattr(v, n), want[n]), '%s is not what the algorithm and its parameters say' % n)


# --- signatures -----------------------------------------------------------

def signature(ctx, dotted, built, null):
    A = ctx.lib.algos
    v = load(ctx, A.SignedDigestAlgorithm, seq(ctx, oid(ctx, dotted), b'\x05\0' if null else b''), built)
    sig, digest = SIGNATURES[dotted]
    report(ctx, v, signature_algo=sig)
    if digest:
        report(ctx, v, hash_algo=digest, cms_hash_algo=digest)
    else:
        refuse(ctx, v, ('hash_algo',), 'an identifier without a hash')
        if sig in ('ed25519', 'ed448'):
            report(ctx, v, cms_hash_algo={'ed25519': 'sha512', 'ed448': 'shake256'}[sig])
        else:
            refuse(ctx, v, ('cms_hash_algo',), 'an identifier without a hash')
    ctx.reach('signature')


def arc_family(ctx, cls, prefix, table, what):
    """every identifier that differs from a known one in its last octet"""
    last = ctx.int('last', 0, 127)
    content = ctx.join(b'', [octet_oid(prefix + '.0')[:-1], ctx.byte_str([last])])
    v = cls.load(seq(ctx, hlib.ref_tlv(ctx, 6, content)))
    v['algorithm'].native
    for k in sorted(table):
        head, _, arc = k.rpartition('.')
        if head == prefix and ctx.all(last == int(arc)):
            what(ctx, v, k, table[k])
            ctx.reach('known')
            return
    return v


def sig_family(ctx, prefix):
    A = ctx.lib.algos

    def known(ctx, v, k, row):
        report(ctx, v, signature_algo=row[0])
        if row[1]:
            report(ctx, v, hash_algo=row[1], cms_hash_algo=row[1])
        else:
            refuse(ctx, v, ('hash_algo',), 'an identifier without a hash')

    table = dict(SIGNATURES)
    table[PSS] = ('rsassa_pss', None)
    v = arc_family(ctx, A.SignedDigestAlgorithm, prefix, table, known)
    if v is not None:
        refuse(ctx, v, ('signature_algo', 'hash_algo', 'cms_hash_algo'), 'an unknown algorithm')
        ctx.reach('unknown')


ALL = ('kdf', 'kdf_hmac', 'kdf_salt', 'kdf_iterations', 'key_length', 'encryption_mode', 'encryption_cipher', 'encryption_block_size', 'encryption_iv')
KDF = ALL[:4]


def enc_family(ctx, prefix):
    A = ctx.lib.algos
    table = {}
    for k, r in CIPHERS.items():
        table[k] = ('cipher', r)
    for k, r in PBES1.items():
        table[k] = ('pbes1', r)
    for k in (RC2, RC4, RC5, PBES2, '1.2.840.113549.1.1.1', '1.2.840.113549.1.1.7'):
        table[k] = ('other', None)

    def known(ctx, v, k, row):
        if row[0] == 'cipher':
            c, m, size, block, iv = row[1]
            report(ctx, v, encryption_cipher=c, encryption_mode=m, key_length=size, encryption_block_size=block)
            refuse(ctx, v, KDF, 'a cipher')
        elif row[0] == 'pbes1':
            kdf, h, c, size, block = row[1]
            report(ctx, v, kdf=kdf, kdf_hmac=h, encryption_cipher=c, key_length=size, encryption_block_size=block, encryption_iv=None)
            refuse(ctx, v, ('kdf_salt', 'kdf_iterations'), 'absent parameters')

    v = arc_family(ctx, A.EncryptionAlgorithm, prefix, table, known)
    if v is not None:
        refuse(ctx, v, ALL, 'an unknown algorithm')
        ctx.reach('unknown')


def pss(ctx, digest, fields, built):
    """RSASSA-PSS carries its hash in its parameters, sha1 when they leave it out"""
    A = ctx.lib.algos
    parts = []
    want = 'sha1'
    if 'hash' in fields:
        parts.append(hlib.ref_tlv(ctx, 0xa0, seq(ctx, oid(ctx, digest), b'\x05\0' if 'null' in fields else b'')))
        want = DIGESTS[digest]
    if 'mgf' in fields:
        parts.append(hlib.ref_tlv(ctx, 0xa1, seq(ctx, oid(ctx, '1.2.840.113549.1.1.8'), seq(ctx, oid(ctx, digest), b'\x05\0'))))
    salt = 20
    if 'salt' in fields:
        salt = ctx.int('salt', 0, 65535)
        parts.append(hlib.ref_tlv(ctx, 0xa2, integer(ctx, salt)))
    v = load(ctx, A.SignedDigestAlgorithm, seq(ctx, oid(ctx, PSS), seq(ctx, *parts)), built)
    report(ctx, v, signature_algo='rsassa_pss', hash_algo=want, cms_hash_algo=want)
    p = v['parameters']
    ctx.check(ctx.eq(p['salt_length'].native, salt), 'the salt length is not the one in the parameters')
    ctx.check(p['mask_gen_algorithm']['algorithm'].native == 'mgf1', 'the mask generation is not the one in the parameters')
    ctx.check(p['mask_gen_algorithm']['parameters']['algorithm'].native == (DIGESTS[digest] if 'mgf' in fields else 'sha1'),
              'the hash of the mask generation is not the one in the parameters')
    ctx.check(p['trailer_field'].native == 'trailer_field_bc', 'the trailer is not the default')
    ctx.reach('pss')


def pss_absent(ctx, built):
    A = ctx.lib.algos
    v = load(ctx, A.SignedDigestAlgorithm, seq(ctx, oid(ctx, PSS)), built)
    report(ctx, v, signature_algo='rsassa_pss')
    refuse(ctx, v, ('hash_algo', 'cms_hash_algo'), 'absent parameters')
    ctx.reach('absent')


# --- encryption -----------------------------------------------------------

def cipher(ctx, dotted, n, built):
    A = ctx.lib.algos
    c, m, size, block, where = CIPHERS[dotted]
    iv = ctx.bytes('iv', n)
    parts = [oid(ctx, dotted)]
    if where:
        parts.append(octs(ctx, iv))
    v = load(ctx, A.EncryptionAlgorithm, seq(ctx, *parts), built)
    report(ctx, v, encryption_cipher=c, encryption_mode=m, key_length=size, encryption_block_size=block, encryption_iv=iv if where else None)
    refuse(ctx, v, KDF, 'a cipher')
    ctx.reach('cipher')


def ccm(ctx, dotted, n, built):
    A = ctx.lib.algos
    nonce = ctx.bytes('nonce', n)
    icv = ctx.int('icv', 0, 255)
    v = load(ctx, A.EncryptionAlgorithm, seq(ctx, oid(ctx, dotted), seq(ctx, octs(ctx, nonce), integer(ctx, icv))), built)
    ctx.check(ctx.eq(v['parameters']['aes_nonce'].native, nonce) and ctx.eq(v['parameters']['aes_icvlen'].native, icv), 'the parameters are not the ones encoded')
    report(ctx, v, encryption_cipher='aes', encryption_mode='ccm', key_length=CIPHERS[dotted][2], encryption_block_size=16)
    ctx.reach('ccm')


def rc2_length(ctx, v, version):
    """RFC 2268 section 6"""
    if version is None:
        return report(ctx, v, key_length=4)
    for k, size in ((160, 5), (120, 8), (58, 16)):
        if ctx.all(version == k):
            return report(ctx, v, key_length=size)
    if ctx.all(version >= 256):
        return report(ctx, v, key_length=(version + 7) // 8)
    refuse(ctx, v, ('key_length',), 'an RC2 version without a key length')


def rc_params(ctx, kind, n):
    iv = ctx.bytes('iv', n)
    if kind == 'rc2':
        version = ctx.int('version', -300, 70000)
        return seq(ctx, oid(ctx, RC2), seq(ctx, integer(ctx, version), octs(ctx, iv))), iv, version
    if kind == 'rc2 plain':
        return seq(ctx, oid(ctx, RC2), seq(ctx, octs(ctx, iv))), iv, None
    bits = ctx.int('bits', 8, 1024)
    rounds = ctx.int('rounds', 8, 127)
    parts = [b'\x02\x01\x10', integer(ctx, rounds), integer(ctx, bits)]
    if kind == 'rc5':
        parts.append(octs(ctx, iv))
    else:
        iv = None
    return seq(ctx, oid(ctx, RC5), seq(ctx, *parts)), iv, bits


def rc(ctx, kind, n, built):
    A = ctx.lib.algos
    enc, iv, number = rc_params(ctx, kind, n)
    v = load(ctx, A.EncryptionAlgorithm, enc, built)
    report(ctx, v, encryption_cipher=kind[:3], encryption_mode='cbc', encryption_iv=iv)
    refuse(ctx, v, KDF, 'a cipher')
    if kind.startswith('rc2'):
        report(ctx, v, encryption_block_size=8)
        rc2_length(ctx, v, number)
    else:
        report(ctx, v, encryption_block_size=number // 8)
        refuse(ctx, v, ('key_length',), 'RC5')
    ctx.reach('rc')


def pbes1(ctx, dotted, n, built):
    A = ctx.lib.algos
    kdf, h, c, size, block = PBES1[dotted]
    salt = ctx.bytes('salt', n)
    it = ctx.int('iterations', 0, 100000)
    v = load(ctx, A.EncryptionAlgorithm, seq(ctx, oid(ctx, dotted), seq(ctx, octs(ctx, salt), integer(ctx, it))), built)
    report(ctx, v, kdf=kdf, kdf_hmac=h, kdf_salt=salt, kdf_iterations=it, key_length=size, encryption_cipher=c, encryption_block_size=block, encryption_iv=None)
    if c != 'rc4':
        report(ctx, v, encryption_mode='cbc')
    ctx.reach('pbes1')


def pbes2(ctx, kdf, prf, with_length, scheme, built):
    A = ctx.lib.algos
    salt = ctx.bytes('salt', 3)
    it = ctx.int('iterations', 1, 70000)
    length = ctx.int('length', 1, 300) if with_length else None
    tail = [integer(ctx, length)] if with_length else []
    if kdf == 'pbkdf2':
        if prf is not None:
            tail.append(seq(ctx, oid(ctx, prf), b'\x05\0'))
        k = seq(ctx, oid(ctx, PBKDF2), seq(ctx, octs(ctx, salt), integer(ctx, it), *tail))
    elif kdf == 'other':
        k = seq(ctx, oid(ctx, PBKDF2), seq(ctx, seq(ctx, oid(ctx, '1.2.3')), integer(ctx, it), *tail))
    else:
        k = seq(ctx, oid(ctx, SCRYPT), seq(ctx, octs(ctx, salt), integer(ctx, it), b'\x02\x01\x08', b'\x02\x01\x01', *tail))
    number = None
    if scheme in CIPHERS:
        c, m, size, block, where = CIPHERS[scheme]
        iv = ctx.bytes('iv', 2)
        s = seq(ctx, oid(ctx, scheme), *([octs(ctx, iv)] if where else []))
        if not where:
            iv = None
    else:
        s, iv, number = rc_params(ctx, scheme, 2)
        c, m, block = scheme[:3], 'cbc', 8
        if scheme.startswith('rc5'):
            block = number // 8
    v = load(ctx, A.EncryptionAlgorithm, seq(ctx, oid(ctx, PBES2), seq(ctx, k, s)), built)
    report(ctx, v, kdf='scrypt' if kdf == 'scrypt' else 'pbkdf2', encryption_cipher=c, encryption_mode=m, encryption_block_size=block, encryption_iv=iv)
    if kdf == 'scrypt':
        report(ctx, v, kdf_salt=salt, kdf_hmac=None, kdf_iterations=None)
    else:
        report(ctx, v, kdf_hmac='sha1' if prf is None else HMACS[prf], kdf_iterations=it)
        if kdf == 'other':
            refuse(ctx, v, ('kdf_salt',), 'a salt from another source')
        else:
            report(ctx, v, kdf_salt=salt)
    if length is not None:
        report(ctx, v, key_length=length)
    elif scheme in CIPHERS:
        report(ctx, v, key_length=size)
    elif scheme.startswith('rc2'):
        rc2_length(ctx, v, number)
    else:
        refuse(ctx, v, ('key_length',), 'RC5')
    ctx.reach('pbes2')


def asymmetric(ctx, dotted, built):
    A = ctx.lib.algos
    v = load(ctx, A.EncryptionAlgorithm, seq(ctx, oid(ctx, dotted), b'\x05\0' if dotted.endswith('.1') else seq(ctx)), built)
    refuse(ctx, v, [n for n in ALL if n != 'encryption_iv'], 'an asymmetric algorithm')
    ctx.check(v.encryption_iv is None, 'an asymmetric algorithm has an IV')
    if dotted.endswith('.7'):
        p = v['parameters']
        ctx.check(p['hash_algorithm']['algorithm'].native == 'sha1' and p['p_source_algorithm']['parameters'].native == b'', 'the parameters of OAEP do not have their defaults')
    ctx.reach('asymmetric')


def oaep(ctx, digest, n):
    A = ctx.lib.algos
    label = ctx.bytes('label', n)
    enc = seq(ctx, oid(ctx, '1.2.840.113549.1.1.7'), seq(
        ctx, hlib.ref_tlv(ctx, 0xa0, seq(ctx, oid(ctx, digest), b'\x05\0')),
        hlib.ref_tlv(ctx, 0xa1, seq(ctx, oid(ctx, '1.2.840.113549.1.1.8'), seq(ctx, oid(ctx, digest), b'\x05\0'))),
        hlib.ref_tlv(ctx, 0xa2, seq(ctx, oid(ctx, '1.2.840.113549.1.1.9'), octs(ctx, label)))))
    for cls in (A.EncryptionAlgorithm, ctx.lib.keys.PublicKeyAlgorithm, ctx.lib.cms.KeyEncryptionAlgorithm):
        p = cls.load(enc)['parameters']
        ctx.check(p['hash_algorithm']['algorithm'].native == DIGESTS[digest], 'the hash is not the one in the parameters')
        ctx.check(p['mask_gen_algorithm']['parameters']['algorithm'].native == DIGESTS[digest], 'the hash of the mask generation is not the one in the parameters')
        ctx.check(ctx.eq(p['p_source_algorithm']['parameters'].native, label), 'the label is not the one in the parameters')
    ctx.reach('oaep')


# --- parameters that have to be NULL ----------------------------------------

FORCED = [('algos', 'DigestAlgorithm'), ('algos', 'SignedDigestAlgorithm'), ('algos', 'EncryptionAlgorithm'), ('algos', 'AnyAlgorithmIdentifier'),
          ('cms', 'KeyEncryptionAlgorithm'), ('keys', 'PrivateKeyAlgorithm'), ('keys', 'PublicKeyAlgorithm')]


def forced(ctx, module, cls, dotted, how):
    C = getattr(getattr(ctx.lib, module), cls)
    ident = dotted
    oid_cls = dict((f[0], f[1]) for f in C._fields)['algorithm']
    if how == 'name':
        r = ctx.attempt(oid_cls.map, dotted)
        if r[0] == 'err' or r[1] == dotted:
            return
        ident = r[1]
        if oid_cls.unmap(ident) != dotted:
            return
    if how == 'set':
        v = C()
        v['algorithm'] = ident
    elif how == 'later':
        v = C({'algorithm': '1.2.3.4'})
        v.dump()
        v['algorithm'] = ident
    elif how == 'object':
        v = C({'algorithm': oid_cls(ident)})
    else:
        v = C({'algorithm': ident})
    null = dotted in NULLS
    want = seq(ctx, oid(ctx, dotted), b'\x05\0' if null else b'')
    ctx.check(ctx.eq(v.dump(), want), 'the parameters of a new identifier are not NULL exactly when they have to be')
    ctx.check(type(v['parameters']) is (ctx.lib.core.Null if null else ctx.lib.core.Void), 'the parameters of a new identifier are not NULL exactly when they have to be')
    ctx.check(v['algorithm'].dotted == dotted, 'a new identifier has another algorithm')
    ctx.reach('null' if null else 'none')


def as_received(ctx, module, cls, dotted, null):
    C = getattr(getattr(ctx.lib, module), cls)
    enc = seq(ctx, oid(ctx, dotted), b'\x05\0' if null else b'')
    v = C.load(enc)
    v.native
    ctx.check(type(v['parameters']) is (ctx.lib.core.Null if null else ctx.lib.core.Void), 'the parameters of a received identifier are not the ones it carries')
    ctx.check(ctx.eq(v.dump(), enc) and ctx.eq(v.dump(force=True), enc), 'the parameters of a received identifier change')
    ctx.reach('received')


def digest_ids(ctx, which, dotted):
    A = ctx.lib.algos
    cls = {'digest': A.DigestAlgorithm, 'hmac': A.HmacAlgorithm}[which]
    want = (DIGESTS if which == 'digest' else HMACS)[dotted]
    ctx.check(cls.load(seq(ctx, oid(ctx, dotted), b'\x05\0'))['algorithm'].native == want, 'an identifier has the wrong name')
    ctx.check(cls({'algorithm': want})['algorithm'].dotted == dotted, 'a name has the wrong identifier')
    ctx.reach('id')


def schemes(tier):
    some = ['1.3.14.3.2.7', '1.2.840.113549.3.7', '2.16.840.1.101.3.4.1.2', '2.16.840.1.101.3.4.1.22', '2.16.840.1.101.3.4.1.43', '2.16.840.1.101.3.4.1.6']
    return (some if tier == 'quick' else sorted(CIPHERS)) + ['rc2', 'rc2 plain', 'rc5', 'rc5 plain']


def pbes2_rows(tier):
    rows = [('pbkdf2', None, False, s, b) for s in schemes(tier) if 'ccm' not in s for b in ('load', 'copy')]
    rows += [('pbkdf2', p, l, '2.16.840.1.101.3.4.1.2', b) for p in [None] + sorted(HMACS) for l in (False, True) for b in ('load', 'native')]
    rows += [(k, None, l, s, 'load') for k in ('scrypt', 'other') for l in (False, True) for s in schemes(tier)]
    return [r for r in rows if not (r[3] in CIPHERS and CIPHERS[r[3]][1] == 'ccm')]


MODES = ('load', 'copy', 'native')
HARNESSES = [
    Harness('signature', signature, named('dotted built null', [(k, b, n) for k in sorted(SIGNATURES) for b in ('load', 'copy') for n in (False, True)]), reach=['signature'],
            bounds='every signature algorithm, with and without NULL'),
    Harness('sig_family', sig_family, named('prefix', [(p,) for p in ('1.2.840.113549.1.1', '2.16.840.1.101.3.4.3', '1.2.840.10045.4.3', '1.2.840.10045.4', '1.2.840.10040.4',
            '1.3.14.3.2', '1.3.101', '0.4.0.127.0.7.1.1.4.1', '1.2.3')]), reach=['known', 'unknown'], bounds='every identifier with the prefix of a known one'),
    Harness('enc_family', enc_family, named('prefix', [(p,) for p in ('2.16.840.1.101.3.4.1', '1.2.840.113549.3', '1.2.840.113549.1.5', '1.2.840.113549.1.12.1',
            '1.2.840.113549.1.1', '1.3.14.3.2', '1.2.3')]), reach=['known', 'unknown'], bounds='every identifier with the prefix of a known one, without parameters'),
    Harness('pss', pss, named('digest fields built', [(d, f, b) for d in sorted(DIGESTS) for f in ('', 'hash', 'hash null', 'mgf', 'hash null mgf salt', 'salt') for b in MODES]),
            reach=['pss'], bounds='every hash, every subset of the fields, salt lengths up to 65535'),
    Harness('pss_absent', pss_absent, named('built', [(b,) for b in MODES]), reach=['absent']),
    Harness('cipher', cipher, named('dotted n built', lambda tier: [(d, n, b) for d in sorted(CIPHERS) if CIPHERS[d][1] != 'ccm' for n in ((0, 8) if tier == 'quick' else (0, 1, 8, 16, 17))
            for b in MODES if CIPHERS[d][4] or n == 0]), reach=['cipher'], bounds='every cipher and every IV of up to 8 octets (thorough 17)'),
    Harness('ccm', ccm, named('dotted n built', [(d, n, b) for d in sorted(CIPHERS) if CIPHERS[d][1] == 'ccm' for n in (7, 13) for b in MODES]), reach=['ccm']),
    Harness('rc', rc, named('kind n built', [(k, n, b) for k in ('rc2', 'rc2 plain', 'rc5', 'rc5 plain') for n in (0, 8) for b in MODES]), reach=['rc'],
            bounds='every RC2 version in -300..70000, every RC5 block size in 8..1024 bits'),
    Harness('pbes1', pbes1, named('dotted n built', [(d, n, b) for d in sorted(PBES1) for n in (0, 8) for b in MODES]), reach=['pbes1'],
            bounds='every password-based algorithm, every salt of 0 and 8 octets, iterations up to 100000'),
    Harness('pbes2', pbes2, named('kdf prf with_length scheme built', pbes2_rows), reach=['pbes2'],
            bounds='PBKDF2 with every HMAC and scrypt, with and without a key length (1..300), every kind of cipher'),
    Harness('asymmetric', asymmetric, named('dotted built', [(d, b) for d in ('1.2.840.113549.1.1.1', '1.2.840.113549.1.1.7') for b in MODES]), reach=['asymmetric']),
    Harness('oaep', oaep, named('digest n', [(d, n) for d in sorted(DIGESTS) for n in (0, 3)]), reach=['oaep'], bounds='every hash, every label of 0 and 3 octets'),
    Harness('forced', forced, named('module cls dotted how', [(m, c, d, h) for m, c in FORCED for d in NULLS + ['1.2.840.113549.1.1.5', '2.16.840.1.101.3.4.2.7', '1.2.840.113549.2.5',
            '1.2.840.10045.4.3.2', '1.2.840.113549.1.1.15', '1.2.3.4.5', '2.16.840.1.101.3.4.1.2'] for h in ('dotted', 'name', 'set', 'later', 'object')]),
            reach=['null', 'none'], bounds='every class of identifiers and every algorithm of RFC 4055 section 2.1, and ones near them'),
    Harness('as_received', as_received, named('module cls dotted null', [(m, c, d, n) for m, c in FORCED for d in NULLS for n in (False, True)]), reach=['received']),
    Harness('digest_ids', digest_ids, named('which dotted', [('digest', d) for d in sorted(DIGESTS)] + [('hmac', d) for d in sorted(HMACS)]), reach=['id']),
]
ASSUMPTIONS = ['the mode of the RC4 algorithms of PKCS#12 is not decided (a stream cipher has none)', 'an IV is only reported where it is the parameters or a field iv of them']
