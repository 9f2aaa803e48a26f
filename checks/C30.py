"""C30: extension accessors return exactly the extensions present"""
import hashlib
from pysym.harness import Harness
import hlib
from hlib import named
from C29 import octet_oid, oid, seq, octs, integer

MODULES = ('core', 'parser', 'util', 'x509', 'crl', 'ocsp')


def tlv(ctx, first, *parts):
    return hlib.ref_tlv(ctx, first, ctx.join(b'', list(parts)))


def octet(ctx, name, lo=0, hi=255):
    return ctx.byte_str([ctx.int(name, lo, hi)])


def dns(ctx, name):
    return tlv(ctx, 0x82, octet(ctx, name, 97, 122), b'.example')


def uri(text):
    return bytes([0x86, len(text)]) + text.encode('ascii')


def rdns(text):
    """a Name with one common name"""
    cn = b'\x0c' + bytes([len(text)]) + text.encode('ascii')
    atv = b'\x06\x03\x55\x04\x03' + cn
    atv = b'\x30' + bytes([len(atv)]) + atv
    rdn = b'\x31' + bytes([len(atv)]) + atv
    return b'\x30' + bytes([len(rdn)]) + rdn


def points(ctx, name):
    return seq(ctx, seq(ctx, tlv(ctx, 0xa0, tlv(ctx, 0xa0, uri('http://c/'))), tlv(ctx, 0xa2, dns(ctx, name))))


def access(ctx, name):
    return seq(ctx, seq(ctx, oid(ctx, '1.3.6.1.5.5.7.48.2'), dns(ctx, name)))


# RFC 5280 and the others: kind -> (identifier, type of the value, a value)
NAMES = lambda ctx, n: seq(ctx, dns(ctx, n))
OCTETS = lambda ctx, n: octs(ctx, octet(ctx, n))
NUMBER = lambda ctx, n: tlv(ctx, 2, octet(ctx, n))
TIME = lambda ctx, n: tlv(ctx, 0x18, b'2020010203040', octet(ctx, n, 48, 57), b'Z')
NULL = lambda ctx, n: b'\x05\0'
PURPOSES = lambda ctx, n: seq(ctx, tlv(ctx, 6, b'\x2b\x06\x01\x05\x05\x07\x03', octet(ctx, n, 1, 3)))

CERTIFICATE = {
    'subject_directory_attributes': ('2.5.29.9', 'SubjectDirectoryAttributes', lambda ctx, n: seq(ctx, seq(ctx, oid(ctx, '1.3.6.1.5.5.7.9.3'), tlv(ctx, 0x31, tlv(ctx, 0x13, octet(ctx, n, 65, 90)))))),
    'key_identifier': ('2.5.29.14', 'OctetString', OCTETS),
    'key_usage': ('2.5.29.15', 'KeyUsage', lambda ctx, n: tlv(ctx, 3, b'\1', ctx.byte_str([ctx.int(n, 0, 1) * 4 + 2]))),
    'private_key_usage_period': ('2.5.29.16', 'PrivateKeyUsagePeriod', lambda ctx, n: seq(ctx, tlv(ctx, 0x80, b'2020010203040', octet(ctx, n, 48, 57), b'Z'))),
    'subject_alt_name': ('2.5.29.17', 'GeneralNames', NAMES),
    'issuer_alt_name': ('2.5.29.18', 'GeneralNames', NAMES),
    'basic_constraints': ('2.5.29.19', 'BasicConstraints', lambda ctx, n: seq(ctx, b'\1\1\xff', NUMBER(ctx, n))),
    'name_constraints': ('2.5.29.30', 'NameConstraints', lambda ctx, n: seq(ctx, tlv(ctx, 0xa0, seq(ctx, dns(ctx, n))))),
    'crl_distribution_points': ('2.5.29.31', 'CRLDistributionPoints', points),
    'certificate_policies': ('2.5.29.32', 'CertificatePolicies', lambda ctx, n: seq(ctx, seq(ctx, tlv(ctx, 6, b'\x2a', octet(ctx, n, 2, 6))))),
    'policy_mappings': ('2.5.29.33', 'PolicyMappings', lambda ctx, n: seq(ctx, seq(ctx, tlv(ctx, 6, b'\x2a', octet(ctx, n, 2, 6)), oid(ctx, '1.2.3')))),
    'authority_key_identifier': ('2.5.29.35', 'AuthorityKeyIdentifier', lambda ctx, n: seq(ctx, tlv(ctx, 0x80, octet(ctx, n)))),
    'policy_constraints': ('2.5.29.36', 'PolicyConstraints', lambda ctx, n: seq(ctx, tlv(ctx, 0x81, octet(ctx, n, 2, 6)))),
    'extended_key_usage': ('2.5.29.37', 'ExtKeyUsageSyntax', PURPOSES),
    'freshest_crl': ('2.5.29.46', 'CRLDistributionPoints', points),
    'inhibit_any_policy': ('2.5.29.54', 'Integer', NUMBER),
    'authority_information_access': ('1.3.6.1.5.5.7.1.1', 'AuthorityInfoAccessSyntax', access),
    'subject_information_access': ('1.3.6.1.5.5.7.1.11', 'SubjectInfoAccessSyntax', access),
    'tls_feature': ('1.3.6.1.5.5.7.1.24', 'Features', lambda ctx, n: seq(ctx, NUMBER(ctx, n))),
    'ocsp_no_check': ('1.3.6.1.5.5.7.48.1.5', 'Null', NULL),
}
# known identifiers no accessor exists for
CERTIFICATE_OTHERS = {
    'netscape_certificate_type': ('2.16.840.1.113730.1.1', None, lambda ctx, n: tlv(ctx, 3, b'\1', ctx.byte_str([ctx.int(n, 0, 1) * 4 + 2]))),
    'signed_certificate_timestamp_list': ('1.3.6.1.4.1.11129.2.4.2', None, OCTETS),
    'microsoft_enroll_certtype': ('1.3.6.1.4.1.311.20.2', None, lambda ctx, n: tlv(ctx, 0x1e, b'\0', octet(ctx, n, 65, 90))),
}
ENTRY = {
    'crl_reason': ('2.5.29.21', 'CRLReason', lambda ctx, n: tlv(ctx, 10, octet(ctx, n, 0, 6))),
    'invalidity_date': ('2.5.29.24', 'GeneralizedTime', TIME),
    'certificate_issuer': ('2.5.29.29', 'GeneralNames', NAMES),
}
ENTRY_OTHERS = {'hold_instruction_code': ('2.5.29.23', None, lambda ctx, n: tlv(ctx, 6, b'\x2a', octet(ctx, n, 2, 6)))}
LIST = {
    'issuer_alt_name': CERTIFICATE['issuer_alt_name'],
    'crl_number': ('2.5.29.20', 'Integer', NUMBER),
    'delta_crl_indicator': ('2.5.29.27', 'Integer', NUMBER),
    'issuing_distribution_point': ('2.5.29.28', 'IssuingDistributionPoint', lambda ctx, n: seq(ctx, tlv(ctx, 0xa0, tlv(ctx, 0xa0, dns(ctx, n))))),
    'authority_key_identifier': CERTIFICATE['authority_key_identifier'],
    'freshest_crl': CERTIFICATE['freshest_crl'],
    'authority_information_access': CERTIFICATE['authority_information_access'],
}
REQUEST = {'service_locator': ('1.3.6.1.5.5.7.48.1.7', 'ServiceLocator', lambda ctx, n: seq(ctx, rdns('i'), access(ctx, n)))}
OCSP_REQUEST = {
    'nonce': ('1.3.6.1.5.5.7.48.1.2', 'OctetString', OCTETS),
    'acceptable_responses': ('1.3.6.1.5.5.7.48.1.4', 'AcceptableResponses', PURPOSES),
    'preferred_signature_algorithms': ('1.3.6.1.5.5.7.48.1.8', 'PreferredSignatureAlgorithms', lambda ctx, n: seq(ctx, seq(ctx, seq(ctx, tlv(ctx, 6, b'\x2a\x86\x48\x86\xf7\x0d\x01\x01', octet(ctx, n, 11, 13)), b'\5\0')))),
}
SINGLE = dict(ENTRY)
SINGLE['crl'] = ('1.3.6.1.5.5.7.48.1.3', 'CrlId', lambda ctx, n: seq(ctx, tlv(ctx, 0xa1, NUMBER(ctx, n))))
SINGLE['archive_cutoff'] = ('1.3.6.1.5.5.7.48.1.6', 'GeneralizedTime', TIME)
SINGLE_OTHERS = {'signed_certificate_timestamp_list': ('1.3.6.1.4.1.11129.2.4.5', None, OCTETS)}
RESPONSE = {'nonce': OCSP_REQUEST['nonce'], 'extended_revoke': ('1.3.6.1.5.5.7.48.1.9', 'Null', NULL)}
UNKNOWN = {
    '1.2.3.4': ('1.2.3.4', None, OCTETS),
    '2.5.29.99': ('2.5.29.99', None, lambda ctx, n: octet(ctx, n)),
    '1.3.6.1.5.5.7.48.1.99': ('1.3.6.1.5.5.7.48.1.99', None, NULL),
}

SHA256_RSA = b'\x30\x0d\x06\x09\x2a\x86\x48\x86\xf7\x0d\x01\x01\x0b\x05\0'
SHA1 = b'\x30\x07\x06\x05\x2b\x0e\x03\x02\x1a'
NOW = b'\x18\x0f20200101000000Z'
BITS = b'\3\2\0\1'


def certificate(ctx, exts, subject='s', issuer='i', serial=b'\1'):
    key = seq(ctx, seq(ctx, oid(ctx, '1.2.840.113549.1.1.1'), b'\5\0'), tlv(ctx, 3, b'\0', seq(ctx, b'\2\1\x21', b'\2\1\3')))
    return seq(ctx, seq(ctx, tlv(ctx, 0xa0, b'\2\1\2'), tlv(ctx, 2, serial), SHA256_RSA, rdns(issuer), seq(ctx, NOW, NOW), rdns(subject), key,
                        b'' if exts is None else tlv(ctx, 0xa3, exts)), SHA256_RSA, BITS)


def revoked(ctx, exts):
    return seq(ctx, b'\2\1\5', NOW, b'' if exts is None else exts)


def crl(ctx, exts):
    return seq(ctx, seq(ctx, b'\2\1\1', SHA256_RSA, rdns('i'), NOW, NOW, seq(ctx, revoked(ctx, None)), b'' if exts is None else tlv(ctx, 0xa0, exts)), SHA256_RSA, BITS)


def certid(ctx):
    return seq(ctx, SHA1, b'\4\1a', b'\4\1b', b'\2\1\7')


def request(ctx, exts):
    return seq(ctx, certid(ctx), b'' if exts is None else tlv(ctx, 0xa0, exts))


def ocsp_request(ctx, exts):
    return seq(ctx, seq(ctx, seq(ctx, request(ctx, None)), b'' if exts is None else tlv(ctx, 0xa2, exts)))


def single(ctx, exts):
    return seq(ctx, certid(ctx), b'\x80\0', NOW, b'' if exts is None else tlv(ctx, 0xa1, exts))


def response(ctx, exts):
    data = seq(ctx, tlv(ctx, 0xa2, b'\4\1k'), NOW, seq(ctx, single(ctx, None)), b'' if exts is None else tlv(ctx, 0xa1, exts))
    basic = seq(ctx, data, SHA256_RSA, BITS)
    return seq(ctx, b'\x0a\1\0', tlv(ctx, 0xa0, seq(ctx, oid(ctx, '1.3.6.1.5.5.7.48.1.1'), octs(ctx, basic))))


HOSTS = {
    'certificate': ('x509', 'Certificate', certificate, CERTIFICATE, CERTIFICATE_OTHERS),
    'revoked': ('crl', 'RevokedCertificate', revoked, ENTRY, ENTRY_OTHERS),
    'crl': ('crl', 'CertificateList', crl, LIST, {}),
    'request': ('ocsp', 'Request', request, REQUEST, {}),
    'ocsp_request': ('ocsp', 'OCSPRequest', ocsp_request, OCSP_REQUEST, {}),
    'single': ('ocsp', 'SingleResponse', single, SINGLE, SINGLE_OTHERS),
    'response': ('ocsp', 'OCSPResponse', response, RESPONSE, {}),
}


def kinds(host):
    out = dict(HOSTS[host][3])
    out.update(HOSTS[host][4])
    out.update(UNKNOWN)
    return out


def critical(ctx, i, mode):
    """the encoding of the flag, and whether it is set"""
    if mode == 'absent':
        return b'', False
    if mode == 'true':
        return b'\1\1\xff', True
    b = ctx.int('critical%d' % i, 0, 255)
    return tlv(ctx, 1, ctx.byte_str([b])), b != 0


def load(ctx, host, enc, built):
    mod, cls = HOSTS[host][:2]
    v = getattr(getattr(ctx.lib, mod), cls).load(enc)
    if built == 'copy':
        v = v.copy()
    elif built == 'force':
        v.dump(force=True)
    elif built == 'native':
        list(v.native)
    elif built == 'built':
        v = type(v)(dict((k, v[k]) for k in v if not isinstance(v[k], ctx.lib.core.Void)))
    return v


def read_all(ctx, v, host, order):
    names = sorted(HOSTS[host][3])
    if order == 'backwards':
        names.reverse()
    got = dict()
    if order != 'critical last':
        got[None] = v.critical_extensions
    for n in names:
        got[n] = getattr(v, n + '_value')
    if order == 'critical last':
        got[None] = v.critical_extensions
    return got


def accessors(ctx, host, present, modes, built, order):
    table = kinds(host)
    parts, want, crit = [], {}, {}
    for i, kind in enumerate(present if present != 'absent' else ()):
        dotted, cls, make = table[kind]
        flag, is_set = critical(ctx, i, modes[i % len(modes)])
        value = make(ctx, 'value%d' % i)
        parts.append(seq(ctx, oid(ctx, dotted), flag, octs(ctx, value)))
        crit[kind] = is_set
        if cls:
            want[kind] = (cls, value)
    enc = HOSTS[host][2](ctx, seq(ctx, *parts) if present != 'absent' else None)
    v = load(ctx, host, enc, built)
    got = read_all(ctx, v, host, order)
    if order == 'twice':
        again = read_all(ctx, v, host, 'backwards')
        for n in got:
            ctx.check(again[n] is got[n] or ctx.eq(again[n], got[n]), 'a second read returns something else')
    for n in HOSTS[host][3]:
        if n in want:
            cls, value = want[n]
            ctx.check(got[n] is not None, 'an extension that is present is not returned (%s)' % n)
            ctx.check(type(got[n]).__name__ == cls, 'the value of %s has another type' % n)
            ctx.check(ctx.eq(got[n].dump(), value), 'the value of %s is not the one in the extension' % n)
        else:
            ctx.check(got[n] is None, 'something is returned for an extension that is not there (%s)' % n)
    ctx.check(len(got[None]) <= len(crit), 'more critical extensions than extensions')
    for n in crit:
        ctx.check(ctx.eq(n in got[None], crit[n]), 'the critical extensions are not those marked critical (%s)' % n)
    ctx.reach('accessors')


def accessor_rows(tier):
    rows = []
    builts = ('loaded', 'copy', 'force', 'native', 'built')
    orders = ('critical first', 'critical last', 'backwards', 'twice')
    k = 0
    for host in sorted(HOSTS):
        names = sorted(kinds(host))
        rows += [[host, 'absent', ['absent'], b, 'twice'] for b in builts]
        rows += [[host, [], ['absent'], b, 'twice'] for b in builts[:2]]
        for a in names:
            rows.append([host, [a], ['symbolic'], builts[k % 5], orders[k % 4]])
            rows.append([host, [a], ['absent'], builts[(k + 1) % 5], orders[(k + 1) % 4]])
            k += 3
            for b in names:
                if a != b:
                    rows.append([host, [a, b], (['symbolic', 'absent'], ['symbolic', 'true'], ['absent', 'symbolic'], ['symbolic', 'symbolic'])[k % 4], builts[k % 5], orders[(k // 5) % 4]])
                    k += 1
        # everything, in several orders
        known = sorted(HOSTS[host][3])
        for shift in range(0, len(names), 1 if tier == 'thorough' else 4):
            rot = names[shift:] + names[:shift]
            if len(names) > 12:
                rot = rot[:12 if tier == 'quick' else 18]
            rows.append([host, rot, ['true', 'absent', 'absent'], builts[shift % 5], orders[shift % 4]])
            rows.append([host, rot[::-1], ['absent', 'true'], builts[(shift + 1) % 5], orders[(shift + 1) % 4]])
        if tier == 'thorough':
            for a in names:
                for b in names:
                    for c in names:
                        k += 1
                        if len(set((a, b, c))) == 3 and (len(names) < 9 or k % 17 == 0):
                            rows.append([host, [a, b, c], (['symbolic', 'absent', 'true'], ['absent', 'symbolic', 'symbolic'])[k % 2], builts[k % 5], orders[k % 4]])
    return rows


# --- an identifier next to the known ones ---------------------------------

def family(ctx, host, prefix, lo, hi):
    """every last arc: the accessor of the extension it names, and no other one, returns the value"""
    last = ctx.int('last', lo, hi)
    content = ctx.join(b'', [octet_oid(prefix + '.0')[:-1], ctx.byte_str([last])])
    value = octet(ctx, 'value')
    ext = seq(ctx, tlv(ctx, 6, content), b'\1\1\xff', octs(ctx, value))
    v = load(ctx, host, HOSTS[host][2](ctx, seq(ctx, ext)), 'loaded')
    named_ = [n for n in sorted(kinds(host)) if n not in UNKNOWN and kinds(host)[n][0].rpartition('.')[0] == prefix]
    for n in named_:
        ctx.assume(last != int(kinds(host)[n][0].rpartition('.')[2]))
    got = read_all(ctx, v, host, 'critical first')
    for n in HOSTS[host][3]:
        ctx.check(got[n] is None, 'something is returned for an extension that is not there (%s)' % n)
    ctx.check(len(got[None]) == 1, 'an unknown critical extension is not reported')
    for n in got[None]:
        ctx.check(ctx.any(ctx.eq(n, prefix + '.' + ctx.str(last)), n[:1] not in '0123456789'), 'an unknown critical extension is reported under another name')
    ctx.reach('family')


# --- what is derived from them --------------------------------------------

def ext(ctx, dotted, value, crit=b''):
    return seq(ctx, oid(ctx, dotted), crit, octs(ctx, value))


def load_certificate(ctx, exts, built, **kw):
    return load(ctx, 'certificate', certificate(ctx, seq(ctx, *exts), **kw), built)


def constraints(ctx, flag, length, other, built):
    """RFC 5280 section 4.2.1.9"""
    parts, ca, want = [], False, None
    if flag == 'octet':
        b = ctx.int('ca', 0, 255)
        ca = b != 0
        parts.append(tlv(ctx, 1, ctx.byte_str([b])))
    if length:
        n = ctx.int('length', 0, 2 ** (8 * length - 1) - 1)
        parts.append(tlv(ctx, 2, ctx.itob(n, length)))
        want = n
    exts = [] if flag is None else [ext(ctx, '2.5.29.19', seq(ctx, *parts))]
    if other:
        exts.insert(0 if other == 'before' else len(exts), ext(ctx, '2.5.29.14', OCTETS(ctx, 'other')))
    c = load_certificate(ctx, exts, built)
    ctx.check(ctx.eq(bool(c.ca), ca), 'ca does not say whether the certificate is marked as a CA')
    if ctx.all(ca):
        ctx.check(ctx.eq(c.max_path_length, want), 'max_path_length is not the path length constraint')
    else:
        ctx.check(c.max_path_length is None, 'max_path_length of a certificate that is not a CA')
    ctx.reach('constraints')


def identifiers(ctx, own, authority, same_name, n, built):
    """key_identifier, authority_key_identifier, self_issued and self_signed"""
    exts = []
    ski, aki = ctx.bytes('ski', n), ctx.bytes('aki', n)
    if own:
        exts.append(ext(ctx, '2.5.29.14', octs(ctx, ski)))
    if authority:
        exts.append(ext(ctx, '2.5.29.35', seq(ctx, tlv(ctx, 0x80, aki) if authority == 'identifier' else b'', tlv(ctx, 0xa1, tlv(ctx, 0xa4, rdns('i'))) + tlv(ctx, 0x82, b'\1') if authority == 'serial' else b'')))
    c = load_certificate(ctx, exts, built, subject='i' if same_name else 's')
    ctx.check(ctx.eq(c.key_identifier, ski if own else None), 'key_identifier is not the one in the extension')
    has = authority == 'identifier'
    ctx.check(ctx.eq(c.authority_key_identifier, aki if has else None), 'authority_key_identifier is not the one in the extension')
    ctx.check(c.self_issued == bool(same_name), 'self_issued does not say whether subject and issuer are the same')
    if not same_name:
        want = 'no'
    elif own and has:
        want = 'maybe' if ctx.all(ctx.eq(ski, aki)) else 'no'
    else:
        want = 'maybe'
    ctx.check(c.self_signed == want, 'self_signed is not what the names and key identifiers say')
    ctx.reach('identifiers')


def issuer_serial(ctx, serials, built):
    s = ctx.int('serial', -128 if serials == 1 else -32768, 127 if serials == 1 else 32767)
    if serials == 2:
        ctx.assume(ctx.any(s > 127, s < -128))
        ctx.assume(ctx.any(ctx.all(s >= 1000, s < 1003), ctx.all(s < -2000, s > -2003), s == 255, s == 256))
    enc = ctx.itob(ctx.ite(s < 0, s + 256 ** serials, s), serials)
    c = load_certificate(ctx, [], built, serial=enc)
    want = ctx.join(b'', [c.issuer.sha256, b':', ctx.str(s).encode('ascii')])
    ctx.check(ctx.eq(c.serial_number, s), 'serial_number is not the serial number')
    ctx.check(ctx.eq(c.issuer_serial, want), 'issuer_serial is not the hash of the issuer and the serial number')
    ctx.reach('issuer serial')


def authority_serial(ctx, names, serial, built):
    parts = [b'']
    if names is not None:
        parts.append(tlv(ctx, 0xa1, *[{'dns': b'\x82\1d', 'uri': uri('http://u/'), 'a': tlv(ctx, 0xa4, rdns('a')), 'b': tlv(ctx, 0xa4, rdns('b'))}[n] for n in names]))
    if serial:
        s = ctx.int('serial', 0, 127)
        parts.append(tlv(ctx, 0x82, ctx.byte_str([s])))
    c = load_certificate(ctx, [ext(ctx, '2.5.29.35', seq(ctx, *parts))], built)
    directory = [n for n in names or () if len(n) == 1]
    if directory and serial:
        want = ctx.join(b'', [ctx.lib.x509.Name.load(rdns(directory[0])).sha256, b':', ctx.str(s).encode('ascii')])
    else:
        want = None
    ctx.check(ctx.eq(c.authority_issuer_serial, want), 'authority_issuer_serial is not the hash of the issuer named and the serial number')
    ctx.reach('authority serial')


POINTS = {
    'uri': lambda ctx, n: [True, tlv(ctx, 0xa0, tlv(ctx, 0xa0, uri('http://%d/' % n)))],
    'two': lambda ctx, n: [True, tlv(ctx, 0xa0, tlv(ctx, 0xa0, uri('http://%d/' % n), uri('http://x%d/' % n)))],
    'later': lambda ctx, n: [True, tlv(ctx, 0xa0, tlv(ctx, 0xa0, tlv(ctx, 0xa4, rdns('a')), uri('http://%d/' % n)))],
    'directory': lambda ctx, n: [False, tlv(ctx, 0xa0, tlv(ctx, 0xa0, tlv(ctx, 0xa4, rdns('a'))))],
    'relative': lambda ctx, n: [False, tlv(ctx, 0xa0, tlv(ctx, 0xa1, seq(ctx, oid(ctx, '2.5.4.3'), b'\x0c\1r')))],
    'absent': lambda ctx, n: [False, tlv(ctx, 0xa2, tlv(ctx, 0xa4, rdns('a')))],
}


def distribution_points(ctx, host, which, ids, built):
    """the points reached at a URI, each once and in order"""
    made = [POINTS[k](ctx, i) for i, k in enumerate(ids)]
    encoded = [seq(ctx, m[1], tlv(ctx, 0x81, b'\1', octet(ctx, 'reasons', 0, 127))) if i == 0 and ids[0] != 'absent' else seq(ctx, m[1]) for i, m in enumerate(made)]
    want = [e for m, e in zip(made, encoded) if m[0]]
    exts = seq(ctx, ext(ctx, {'crl': '2.5.29.31', 'delta': '2.5.29.46'}[which], seq(ctx, *encoded)))
    v = load(ctx, host, HOSTS[host][2](ctx, exts), built)
    names = ['delta_crl_distribution_points'] if host == 'crl' else ['crl_distribution_points', 'delta_crl_distribution_points']
    for n in names:
        got = getattr(v, n)
        mine = want if n == {'crl': 'crl_distribution_points', 'delta': 'delta_crl_distribution_points'}[which] else []
        ctx.check(len(got) == len(mine), '%s are not the points with a URI' % n)
        for g, w in zip(got, mine):
            ctx.check(ctx.eq(g.dump(), w), '%s are not the points with a URI' % n)
    ctx.reach('points')


METHODS = {'ocsp': '1.3.6.1.5.5.7.48.1', 'issuers': '1.3.6.1.5.5.7.48.2', 'stamping': '1.3.6.1.5.5.7.48.3', 'unknown': '1.2.3'}


def access_urls(ctx, host, ids, built):
    """the URLs of the responders (certificate) or issuers (CRL), in order"""
    want, parts = [], []
    for i, (method, location) in enumerate(ids):
        if location == 'dns':
            loc = b'\x82\1d'
        else:
            loc = uri('%s://h%d/' % (location, i))
            if host == 'crl':
                hit = method == 'issuers' and location.lower() == 'http'
            else:
                hit = method == 'ocsp' and location.lower() in ('http', 'https', 'ldap', 'ldaps')
            if hit:
                want.append('%s://h%d/' % (location.lower(), i))
        parts.append(seq(ctx, oid(ctx, METHODS[method]), loc))
    other = {'certificate': '1.3.6.1.5.5.7.1.11', 'crl': '2.5.29.18'}[host]
    exts = [ext(ctx, '1.3.6.1.5.5.7.1.1', seq(ctx, *parts))] if ids else []
    exts.append(ext(ctx, other, access(ctx, 'other') if host == 'certificate' else NAMES(ctx, 'other'), tlv(ctx, 1, octet(ctx, 'critical'))))
    v = load(ctx, host, HOSTS[host][2](ctx, seq(ctx, *exts)), built)
    got = v.ocsp_urls if host == 'certificate' else v.issuer_cert_urls
    ctx.check([u.lower() for u in got] == want, 'the URLs are not those of the access descriptions')
    ctx.reach('urls')


def entry_issuer(ctx, names, built):
    parts = [{'dns': b'\x82\1d', 'a': tlv(ctx, 0xa4, rdns('a')), 'b': tlv(ctx, 0xa4, rdns('b'))}[n] for n in names or ()]
    exts = [ext(ctx, '2.5.29.21', ENTRY['crl_reason'][2](ctx, 'reason'))]
    if names is not None:
        exts.append(ext(ctx, '2.5.29.29', seq(ctx, *parts), b'\1\1\xff'))
    v = load(ctx, 'revoked', revoked(ctx, seq(ctx, *exts)), built)
    directory = [n for n in names or () if len(n) == 1]
    got = v.issuer_name
    if directory:
        ctx.check(got is not None and got.native == {'common_name': directory[0]}, 'issuer_name is not the directory name of the certificate issuer')
    else:
        ctx.check(got is None, 'issuer_name without a directory name')
    ctx.reach('entry issuer')


def status(ctx, code):
    """an OCSP response without a body has no extensions"""
    c = ctx.int('status', 1, 6)
    ctx.assume(c != 4)
    v = ctx.lib.ocsp.OCSPResponse.load(tlv(ctx, 0x30, tlv(ctx, 10, ctx.byte_str([c]))))
    got = read_all(ctx, v, 'response', code)
    ctx.check(got['nonce'] is None and got['extended_revoke'] is None and len(got[None]) == 0, 'extensions of a response without a body')
    ctx.reach('status')


BUILTS = ('loaded', 'copy', 'built')


def rows_of(tier):
    out = {}
    b3 = lambda rows: [r + [b] for r in rows for b in BUILTS]
    out['constraints'] = b3([[f, l, o] for f in (None, 'absent', 'octet') for l in ((0, 1, 2) if f else (0,)) for o in (None, 'before', 'after')])
    out['identifiers'] = b3([[o, a, s, n] for o in (False, True) for a in (None, 'identifier', 'serial', 'empty') for s in (False, True) for n in ((1, 2) if tier == 'quick' else (0, 1, 2, 4))])
    out['serial'] = b3([[1], [2]])
    combos = [None, ['a'], ['dns'], ['dns', 'a'], ['a', 'b'], ['uri', 'dns', 'b', 'a'], ['a', 'dns']]
    out['authority'] = b3([[c, s] for c in combos for s in (True, False)])
    ks = sorted(POINTS)
    lists = [[a] for a in ks] + [[a, b] for a in ks for b in ks]
    if tier == 'thorough':
        lists += [[a, b, c] for a in ks for b in ks for c in ks]
    out['points'] = [[h, w, l, BUILTS[(i + j) % 3]] for j, (h, w) in enumerate((('certificate', 'crl'), ('certificate', 'delta'), ('crl', 'delta'))) for i, l in enumerate(lists)]
    entries = [(m, l) for m in sorted(METHODS) for l in ('dns', 'http', 'HTTP', 'https', 'ldap', 'ftp')]
    ids = [[]] + [[e] for e in entries] + [[entries[i], entries[(i * 7 + s) % len(entries)]] for i in range(len(entries)) for s in ((3, 7) if tier == 'quick' else range(1, 24, 2))]
    out['urls'] = [[h, l, BUILTS[(i + j) % 3]] for j, h in enumerate(('certificate', 'crl')) for i, l in enumerate(ids)]
    out['entry'] = b3([[c] for c in (None, ['a'], ['dns'], ['dns', 'a'], ['b', 'a'], ['a', 'dns', 'b'])])
    return out


def rows(k):
    return lambda tier: rows_of(tier)[k]


HARNESSES = [
    Harness('accessors', accessors, named('host present modes built order', accessor_rows), reach=['accessors'],
            bounds='every ordered pair of the extensions each structure knows (and three unknown ones), alone, none, an empty list, and up to all of them in several orders; flag absent or any octet; one symbolic octet in each value; received, copied, re-encoded, built'),
    Harness('family', family, named('host prefix lo hi', [[h, p, lo, hi] for h in sorted(HOSTS) for p, lo, hi in (('2.5.29', 60, 99), ('1.3.6.1.5.5.7.1', 30, 60), ('1.3.6.1.5.5.7.48.1', 10, 40))]), reach=['family'],
            bounds='identifiers next to the known ones'),
    Harness('constraints', constraints, named('flag length other built', rows('constraints')), reach=['constraints'], bounds='any flag octet, path lengths of up to 2 octets'),
    Harness('identifiers', identifiers, named('own authority same_name n built', rows('identifiers')), reach=['identifiers'], bounds='key identifiers of up to 2 (thorough 4) octets'),
    Harness('issuer serial', issuer_serial, named('serials built', rows('serial')), reach=['issuer serial'], bounds='serial numbers of one octet, some of two; a fixed issuer'),
    Harness('authority serial', authority_serial, named('names serial built', rows('authority')), reach=['authority serial'], bounds='up to four names, serial numbers of one octet'),
    Harness('points', distribution_points, named('host which ids built', rows('points')), reach=['points'], bounds='up to two (thorough three) points of six kinds'),
    Harness('urls', access_urls, named('host ids built', rows('urls')), reach=['urls'], bounds='up to two access descriptions'),
    Harness('entry issuer', entry_issuer, named('names built', rows('entry')), reach=['entry issuer'], bounds='up to three names'),
    Harness('status', status, named('code', [['critical first'], ['critical last'], ['backwards']]), reach=['status'], bounds='the five failure codes'),
]
ASSUMPTIONS = ['An extension occurs at most once in a list (RFC 5280 section 4.2).',
               'The accessors are snapshots taken when first read; what is changed afterwards is not seen.',
               'Hashes of names are compared with the hash the library gives the same name loaded on its own.']
