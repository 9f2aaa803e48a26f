from pysym.harness import Harness
from hlib import named
from C21 import canonical, decimal

MODULES = ('core', 'parser', 'util', 'x509', '_inet')


def chars(s):
    return [ord(c) for c in s]


def low(ctx, cs):
    return [ctx.ite(ctx.all(c >= 65, c <= 90), c + 32, c) for c in cs]


def certificate(ctx, names=None, subject=(), extra=(), received=False):
    """a certificate with the given subject alternative names (None: without the extension) and common names"""
    x = ctx.lib.x509
    exts = [{'extn_id': 'basic_constraints', 'extn_value': {'ca': False}}]
    if names is not None:
        exts.append({'extn_id': 'subject_alt_name', 'critical': False, 'extn_value': [x.GeneralName(name=k, value=v) for k, v in names]})
    rdns = [x.RelativeDistinguishedName([x.NameTypeAndValue({'type': t, 'value': x.DirectoryString(name='utf8_string', value=v)})]) for t, v in subject]
    tbs = x.TbsCertificate({
        'version': 'v3', 'serial_number': 1, 'signature': {'algorithm': 'sha256_rsa'},
        'issuer': x.Name.build({'common_name': 'ca.example'}),
        'validity': {'not_before': x.Time(name='utc_time', value=ctx.lib.core.UTCTime('200101000000Z')),
                     'not_after': x.Time(name='utc_time', value=ctx.lib.core.UTCTime('300101000000Z'))},
        'subject': x.Name(name='', value=x.RDNSequence(rdns)),
        'subject_public_key_info': {'algorithm': {'algorithm': 'rsa'}, 'public_key': {'modulus': 187, 'public_exponent': 3}},
        'extensions': exts,
    })
    c = x.Certificate({'tbs_certificate': tbs, 'signature_algorithm': {'algorithm': 'sha256_rsa'}, 'signature_value': b'\0'})
    if received:
        c = x.Certificate.load(c.dump())
    return c


def labels(ctx, cs):
    out = [[]]
    for c in cs:
        if ctx.all(c == 46):
            out.append([])
        else:
            out[-1].append(c)
    return out


def valid_labels(ls):
    """only the last label may be empty"""
    return all(l for l in ls[:-1]) if ls != [[]] else True


def same(ctx, a, b):
    return len(a) == len(b) and ctx.all(True, *[x == y for x, y in zip(a, b)])


def same_all(ctx, a, b):
    return len(a) == len(b) and ctx.all(True, *[same(ctx, x, y) for x, y in zip(a, b)])


def matches(ctx, pattern, query):
    """RFC 6125 section 6.4"""
    p, q = labels(ctx, low(ctx, pattern)), labels(ctx, low(ctx, query))
    if not valid_labels(p):
        return False
    if len(p) != len(q):
        return False
    exact = same_all(ctx, p, q)
    stars = [i for i, c in enumerate(p[0]) if ctx.all(c == 42)]
    if len(stars) != 1 or any(ctx.all(c == 42) for l in p[1:] for c in l):
        return exact
    if len(p[0]) >= 4 and ctx.all(*[p[0][i] == ord('xn--'[i]) for i in range(4)]):
        return exact
    before, after = p[0][:stars[0]], p[0][stars[0] + 1:]
    if len(q[0]) < len(before) + len(after):
        return exact
    wild = ctx.all(same_all(ctx, p[1:], q[1:]), same(ctx, before, q[0][:len(before)]), same(ctx, after, q[0][len(q[0]) - len(after):]))
    return ctx.any(exact, wild)


def ask(ctx, c, query, want, msg):
    ctx.check(ctx.eq(c.is_valid_domain_ip(query), want), msg)
    ctx.check(ctx.eq(c.is_valid_domain_ip(query), want), msg + ', asked again')


PAT = [(42, 42), (45, 46), (65, 65), (97, 98)]
QRY = [(45, 46), (65, 65), (97, 98)]


def is_ip(ctx, ls):
    return len(ls) == 4


def dns(ctx, pre, n, post, qpre, m, qpost):
    p = pre + ctx.text('p', n, PAT) + post
    q = qpre + ctx.text('q', m, QRY) + qpost
    c = certificate(ctx, [('dns_name', p)])if valid(ctx, p) else None
    if c is None:
        return
    ls = labels(ctx, chars(q))
    if not valid_labels(ls):
        st, e = ctx.attempt(c.is_valid_domain_ip, q)
        ctx.check(st == 'err' and isinstance(e, ValueError), 'not a name')
        ctx.reach('refused')
        return
    want = matches(ctx, chars(p), chars(q))
    ask(ctx, c, q, want, 'valid exactly when the name matches')
    ctx.reach('asked')


def valid(ctx, p):
    """can be encoded"""
    ls = labels(ctx, chars(p))
    if ls and ls[0] == [] and len(ls) > 1:
        return valid_labels(ls[1:])
    return valid_labels(ls)


def any_char(ctx, pattern, qpre, qpost):
    """letters, digits and the rest of the characters of host names are only equal to themselves"""
    q = qpre + ctx.text('q', 1, [(45, 45), (48, 57), (65, 90), (95, 95), (97, 122)]) + qpost
    c = certificate(ctx, [('dns_name', pattern)])
    ask(ctx, c, q, matches(ctx, chars(pattern), chars(q)), 'valid exactly when the name matches')
    ctx.reach('asked')


def both_any(ctx, pre, post):
    r = [(45, 45), (48, 57), (65, 90), (95, 95), (97, 122)]
    p, q = pre + ctx.text('p', 1, r) + post, pre + ctx.text('q', 1, r) + post
    c = certificate(ctx, [('dns_name', p)], received=True)
    ask(ctx, c, q, matches(ctx, chars(p), chars(q)), 'valid exactly when the name matches')
    ctx.reach('asked')


IDN = [('b\u00fccher.example', 'xn--bcher-kva.example', 'B\u00dcCHER.Example'), ('w.stra\u00dfe.example', 'w.strasse.example', 'W.STRASSE.example'),
       ('\u65e5\u672c.jp', 'xn--wgv71a.jp', 'XN--WGV71A.jp')]


def idn(ctx, i, received):
    """international names, however written"""
    t = ctx.text('t', 1, [(97, 122)])
    u = ctx.text('u', 1, [(65, 90)])
    for p in IDN[i]:
        c = certificate(ctx, [('dns_name', p + t)], received=received)
        for q in IDN[i]:
            ask(ctx, c, q + u, ord(t) == ord(u) + 32, 'valid exactly when the name matches')
        ask(ctx, c, 'x' + IDN[i][0] + u, False, 'another name')
    w = certificate(ctx, [('dns_name', 'xn--*.' + t)])
    ask(ctx, w, IDN[0][0].split('.')[0] + '.' + u, False, 'no wildcard within an A-label')
    ctx.reach('asked')


# ---------------------------------------------------------------- IP addresses

def text4(ctx, d):
    return ctx.byte_str([c for i in range(4) for c in ([46] if i else []) + decimal(ctx, d[i])]).decode('ascii')


def text6(ctx, d):
    return ctx.byte_str(canonical(ctx, d)).decode('ascii')


def hexdigit(v):
    return '0123456789ABCDEF'[v]


FIX = {4: bytes([10, 1, 254, 99]), 16: bytes(bytearray.fromhex('20010db8' + '0000' * 3 + '0102' + '0304' + '0001')),
       17: bytes(bytearray.fromhex('0000' * 5 + 'ffff' + '01020304'))}


def ip(ctx, kind, asked, at):
    """only equal addresses match"""
    x = ctx.lib.x509
    base = FIX[kind]
    have = base[:at] + ctx.bytes('have', 1) + base[at + 1:]
    want = base[:at] + ctx.bytes('want', 1) + base[at + 1:]
    v = x.IPAddress.load(ctx.byte_str([4, len(have)]) + have)
    c = certificate(ctx, [('dns_name', 'h.example'), ('ip_address', v)])
    if asked == 'canonical':
        q = text4(ctx, want) if kind == 4 else text6(ctx, want)
    elif asked == 'long':
        t = [ord(y) for y in '0123456789ABCDEF']
        q = ctx.byte_str([y for i in range(16) for y in ([58] if i and i % 2 == 0 else []) + [ctx.get(t, want[i] >> 4), ctx.get(t, want[i] & 15)]]).decode('ascii')
    elif asked == 'mixed':
        t = [ord(y) for y in '0123456789abcdef']
        q = ctx.byte_str([y for i in range(12) for y in ([58] if i and i % 2 == 0 else []) + [ctx.get(t, want[i] >> 4), ctx.get(t, want[i] & 15)]]).decode('ascii')
        q = q + ':' + text4(ctx, want[12:])
    ask(ctx, c, q, ctx.eq(have, want), 'valid exactly when the addresses are equal')
    ctx.reach('asked')


def ip_kinds(ctx, kind):
    """addresses of the other family, networks and values that are no address do not match, and do not hide those that follow"""
    x = ctx.lib.x509
    d = ctx.bytes('d', 2)
    four, six = bytes([10, 1]) + d, bytes([32, 1]) + d + bytes(12)
    mapped = bytes(10) + b'\xff\xff' + four
    val = {'network4': four + b'\xff\xff\xff\xff', 'network6': six + b'\xff' * 16, 'odd': four + b'\0', 'mapped': mapped, 'six': six, 'mask': four + b'\xff\0\xff\0', 'empty': b''}[kind]
    v = x.IPAddress.load(ctx.byte_str([4, len(val)]) + val)
    q4, q6 = text4(ctx, four), text6(ctx, six)
    c = certificate(ctx, [('ip_address', v)])
    ask(ctx, c, q4, False, 'not an equal address')
    ask(ctx, c, q6, kind == 'six', 'not an equal address')
    c = certificate(ctx, [('ip_address', v), ('ip_address', '1.2.3.4'), ('ip_address', x.IPAddress.load(b'\x04\x04' + four))])
    ask(ctx, c, q4, True, 'an equal address follows')
    ctx.reach('asked')


def ip_text(ctx, n):
    """an address is not a name and a name not an address"""
    t = ctx.text('t', n, [(48, 51)])
    c = certificate(ctx, [('dns_name', '1.2.3.' + t)], subject=[('common_name', '1.2.3.' + t)])
    st, r = ctx.attempt(c.is_valid_domain_ip, '1.2.3.' + t)
    ctx.check(st == 'err' and isinstance(r, ValueError) or ctx.eq(r, False), 'a name that looks like an address')
    c = certificate(ctx, [('ip_address', '1.2.3.4')])
    st, r = ctx.attempt(c.is_valid_domain_ip, '1.2.3.4' + t)
    ctx.check(st == 'err' and isinstance(r, ValueError) or ctx.eq(r, False), 'another address')
    ask(ctx, c, 'x1.2.3.4', False, 'a name')
    ask(ctx, c, '1.2.3.4.' + t, False, 'a name')
    ctx.reach('asked')


# ---------------------------------------------------------------- which names apply

KINDS = [('rfc822_name', 'u@h.example'), ('uniform_resource_identifier', 'http://h.example/'), ('registered_id', '1.2.3'), ('ip_address', '10.0.0.1'),
         ('dns_name', 'other.example'), ('directory_name', None)]


def position(ctx, n, at, received):
    """wherever the name stands, and whatever stands before it"""
    x = ctx.lib.x509
    t = ctx.text('t', 1, [(97, 122)])
    u = ctx.text('u', 1, [(97, 122)])
    names = []
    for i in range(n):
        k, v = KINDS[(i + at) % len(KINDS)]
        if v is None:
            v = x.Name.build({'common_name': 'h.example'})
        names.append((k, v))
    names.insert(at, ('dns_name', 'h' + t + '.example'))
    c = certificate(ctx, names, subject=[('common_name', 'h.example')], received=received)
    ask(ctx, c, 'h' + u + '.example', t == u, 'valid exactly when a name matches')
    ask(ctx, c, 'h.example', False, 'neither other kinds nor the common name count')
    ask(ctx, c, 'u@h.example', False, 'an e-mail address')
    ctx.check(ctx.eq(c.valid_domains[-1] if at == n else 'h' + t + '.example', 'h' + t + '.example'), 'listed')
    ctx.reach('asked')


def other_only(ctx, i, received):
    """no common name once there are other names"""
    x = ctx.lib.x509
    t = ctx.text('t', 1, [(97, 122)])
    k, v = KINDS[i]
    if v is None:
        v = x.Name.build({'common_name': 'h' + t + '.example'})
    c = certificate(ctx, [(k, v)], subject=[('common_name', 'h' + t + '.example')], received=received)
    ask(ctx, c, 'h' + t + '.example', False, 'the common name does not count')
    ctx.reach('asked')


COMMON = [(45, 46), (42, 42), (48, 48), (65, 65), (97, 98), (32, 32), (95, 95)]


def looks(ctx, cs):
    """a name of at least two labels, with a top level domain of letters"""
    ls = labels(ctx, cs)
    if len(ls) > 1 and len(ls[0]) == 1 and ctx.all(ls[0][0] == 42):
        ls = ls[1:]
    if len(ls) < 2:
        return False
    for l in ls[:-1]:
        if not l:
            return False
        for i, c in enumerate(l):
            ok = ctx.any(ctx.all(c >= 48, c <= 57), ctx.all(c >= 65, c <= 90), ctx.all(c >= 97, c <= 122), ctx.all(c == 45, 0 < i < len(l) - 1))
            if not ctx.all(ok):
                return False
    return len(ls[-1]) >= 2 and ctx.all(*[ctx.any(ctx.all(c >= 65, c <= 90), ctx.all(c >= 97, c <= 122)) for c in ls[-1]])


def common(ctx, pre, n, post, qpre, qpost, where):
    """the common name, without alternative names"""
    p = pre + ctx.text('p', n, COMMON) + post
    q = qpre + ctx.text('q', 1, [(97, 98), (65, 65), (48, 48)]) + qpost
    subject = [('organization_name', 'o.example'), ('common_name', p)]
    if where == 'first':
        subject.reverse()
    if where == 'second':
        subject.append(('common_name', 'zz.example'))
    c = certificate(ctx, None, subject)
    want = ctx.all(looks(ctx, chars(p)), matches(ctx, chars(p), chars(q)))
    ask(ctx, c, q, want, 'valid exactly when the common name is a matching name')
    ask(ctx, c, 'o.example', ctx.all(looks(ctx, chars(p)), matches(ctx, chars(p), chars('o.example'))), 'no other attribute counts')
    if where == 'second':
        ask(ctx, c, 'ZZ.example', True, 'every common name counts')
    ask(ctx, c, '10.0.0.1', False, 'not an address')
    ctx.reach('asked')


def dns_cases(tier):
    q = tier == 'quick'
    out = [('', 2, '.x', '', 2, '.x'), ('', 3, '.x', '', 2, '.x'), ('', 1, '.x', '', 2, '.x'), ('a', 1, 'b.x', 'a', 1, 'b.x'), ('a', 1, 'b.x', 'a', 2, 'b.x'), ('a', 1, 'b.x', '', 1, 'b.x'),
           ('*.', 2, '', 'a.', 2, ''), ('*.', 2, '', 'a.b', 1, ''), ('*.a', 1, '', '', 2, '.a'), ('*.a.b', 0, '', '', 3, 'b'), ('', 2, '', '', 2, ''), ('xn--', 1, '.a', 'xn--', 2, '.a'), ('xn--', 2, '.a', 'xn--', 2, '.a'), ('XN--', 1, 'b.a', 'xN--a', 1, 'b.a'),
           ('x' * 62, 1, '.a', 'x' * 61, 2, '.a'), ('*.' + 'c.' * 9, 2, '', 'a.' + 'C.' * 9, 2, ''), ('*' + 'x' * 40, 1, '.a', 'b' + 'x' * 40, 1, '.a'), ('w*.x', 1, '', 'W.x', 1, ''),
           ('a.', 2, '.b', 'a.', 2, '.b'), ('*', 1, '.b', '', 2, '.b'), ('xn-', 2, '.a', 'xn--', 1, '.a'), ('*.*', 1, 'b', 'a.', 2, 'b')]
    if not q:
        out += [('', 3, '.x', '', 3, '.x'), ('', 3, '', '', 3, ''), ('*.', 3, '', '', 4, ''), ('', 4, '', '', 3, '')]
    return out


HARNESSES = [
    Harness('dns', dns, named('pre n post qpre m qpost', dns_cases), ['asked', 'refused'],
            bounds='names with up to 3 (4) characters out of letters of either case, dots, hyphens and stars, asked about with names of up to 3 (4) such characters, within the listed frames'),
    Harness('any_char', any_char, named('pattern qpre qpost', [('*.h.x', '', '.h.x'), ('*.h.x', 'w', '.h.x'), ('w*.h.x', '', '.h.x'), ('w*.h.x', 'w', '.h.x'), ('w*w.h.x', 'w', 'w.h.x'),
                                                                ('*w.h.x', '', 'w.h.x'), ('.h.x', '', 'h.x'), ('h.x', '', '.x'), ('a*.h.x', 'a.h.', ''), ('*', '', '')]), ['asked'],
            bounds='any character of host names'),
    Harness('both_any', both_any, named('pre post', [('', '.h.x'), ('h.', '.x'), ('h.x', ''), ('*.', '')]), ['asked'], bounds='any character of host names on either side'),
    Harness('idn', idn, named('i received', [(i, r) for i in range(len(IDN)) for r in (False, True)]), ['asked'], bounds='the listed names, followed by any letter'),
    Harness('ip', ip, named('kind asked at', [(4, 'canonical', i) for i in (0, 1, 2, 3)] + [(k, a, i) for k in (16, 17) for a in ('canonical', 'long', 'mixed') for i in (0, 1, 10, 13)]), ['asked'],
            bounds='one octet of each address being anything'),
    Harness('ip_kinds', ip_kinds, named('kind', [(k,) for k in ('network4', 'network6', 'odd', 'mapped', 'six', 'mask', 'empty')]), ['asked'], bounds='two octets being anything'),
    Harness('ip_text', ip_text, named('n', [(1,), (2,), (3,)]), ['asked'], bounds='up to 3 digits'),
    Harness('position', position, named('n at received', [(n, at, (n + at) % 2 == 0) for n in (0, 1, 2, 5) for at in range(n + 1)]), ['asked'], bounds='up to 6 names of every kind'),
    Harness('other_only', other_only, named('i received', [(i, r) for i in range(len(KINDS)) for r in (False, True)]), ['asked'], bounds='any letter'),
    Harness('common', common, named('pre n post qpre qpost where', lambda tier: [
        ('', 1, '.example', '', '.example', w) for w in ('first', 'last', 'second')] + [
        ('', 2, '.example', '', '.example', 'last'), ('*', 1, 'h.example', '', '.h.example', 'last'), ('h.exampl', 1, '', 'h.exampl', '', 'last'), ('', 2, '', '', '', 'last'),
        ('h.', 2, '', 'h.a', '', 'last'), ('h.example', 1, '', 'h.exampl', '', 'last'), ('', 1, 'h.ab', 'h.a', '', 'first'), ('h', 1, 'h.example', 'h', 'h.example', 'last')] + (
        [] if tier == 'quick' else [('', 3, '.ab', '', '.ab', 'last'), ('h.', 3, '', 'h.a', '', 'last')])), ['asked'],
        bounds='common names with up to 2 (3) characters out of letters, digits, dots, hyphens, stars, spaces and underscores'),
]
