from pysym.harness import Harness
from hlib import named, ref4, ref6, ref_tlv
from C21 import canonical, decimal

MODULES = ('core', 'parser', 'util', 'x509', '_iri', '_inet')

LOWER = [(97, 122)]
HOST = [(45, 45), (48, 57), (65, 90), (95, 95), (97, 122)]
ATEXT = [(33, 33), (35, 39), (42, 43), (45, 45), (47, 57), (61, 61), (63, 63), (64, 64), (65, 90), (94, 126)]
#: U-labels and the A-labels they stand for, with other ways to write them
IDN = [('b\u00fccher', b'xn--bcher-kva', ['B\u00dcCHER', 'bu\u0308cher', 'xn--bcher-kva', 'XN--BCHER-KVA']),
       ('\u65e5\u672c', b'xn--wgv71a', ['xn--WGV71A']),
       ('strasse', b'strasse', ['stra\u00dfe', 'STRASSE', 'STRA\u00dfE', '\uff53trasse']),
       ('\u0440\u0444', b'xn--p1ai', ['\u0420\u0424', '\u0440\u0424'])]


def chars(s):
    return [ord(c) for c in s]


def low(ctx, s):
    return ctx.byte_str([ctx.ite(ctx.all(c >= 65, c <= 90), c + 32, c) for c in s])


def types(ctx, kind):
    x = ctx.lib.x509
    return {'dns': x.DNSName, 'email': x.EmailAddress, 'uri': x.URI, 'ip': x.IPAddress}[kind]


TAG = {'dns': 22, 'email': 22, 'uri': 22, 'ip': 4}
FORMS = {'own': None, 'implicit': 2}


def check_value(ctx, kind, text, octets, form='own', shown=None):
    """built, dumped, loaded and read"""
    t = types(ctx, kind)
    if form == 'own':
        v = t(text)
        tag = bytes([TAG[kind]])
    else:
        v = t(text, implicit=2)
        tag = b'\x82'
    ctx.check(ctx.eq(v.native, text), 'reads as it was set')
    der = v.dump()
    want = tag + ctx.byte_str([len(octets)]) + octets
    ctx.check(ctx.eq(der, want), 'the encoding')
    ctx.check(ctx.eq(v.dump(True), want), 'the encoding, forced')
    w = t.load(der) if form == 'own' else t.load(der, implicit=2)
    ctx.check(ctx.eq(w.native, text if shown is None else shown), 'and back')
    ctx.check(w.native == w.native, 'reads the same again')
    ctx.check(ctx.eq(w.dump(True), want), 'the encoding again')
    ctx.check(v == w and w == v and not v != w, 'equal')
    ctx.check(ctx.eq(ctx.call(hlib_text, w), text if shown is None else shown) if kind != 'ip' else True, 'the text')
    # set on a loaded value, and once more
    w.set(text)
    ctx.check(ctx.eq(w.dump(), want), 'set again')
    ctx.reach('built')
    return v


def hlib_text(v):
    return v.native


def dots(ctx, kind, n):
    """names with empty labels are refused, or read back as they were set; a single leading dot stands for any subdomain"""
    t = types(ctx, kind)
    s = ctx.text('s', n, [(46, 46), (97, 98)] if n > 2 else [(45, 46), (97, 98)] + ([(0xe9, 0xe9), (0x3002, 0x3002)] if n < 2 else []))
    if kind == 'email':
        s = 'm@' + s
    st, v = ctx.attempt(t, s)
    if st == 'err':
        ctx.check(isinstance(v, ValueError), 'ValueError')
        ctx.check(s.find('..') != -1 or s.find('@.') != -1 or s.find('\u3002') != -1 or s.startswith('.') and len(s) == 1 or s.find('-') != -1, 'a legal name')
        ctx.reach('refused')
        return
    w = t.load(v.dump())
    ctx.check(ctx.eq(v.native, s), 'reads as it was set')
    plain = s.replace('\u3002', '.')
    ctx.check(ctx.any(ctx.eq(w.native, s), ctx.eq(w.native, plain)), 'and back')
    ctx.check(v == w, 'equal')
    ctx.reach('built')


def general(ctx, kind, text, octets):
    """as the alternative of a general name"""
    x = ctx.lib.x509
    name, number = {'dns': ('dns_name', 2), 'email': ('rfc822_name', 1), 'uri': ('uniform_resource_identifier', 6), 'ip': ('ip_address', 7)}[kind]
    g = x.GeneralName(name=name, value=text)
    ctx.check(ctx.eq(g.dump(), ctx.byte_str([0x80 | number, len(octets)]) + octets), 'the encoding as a general name')
    h = x.GeneralName.load(g.dump())
    ctx.check(h.name == name, 'the alternative')
    ctx.check(ctx.eq(h.native, text), 'the value')
    ctx.check(h.chosen == g.chosen, 'equal')
    ctx.reach('built')


def no_empty(ctx, h, lead=False):
    for i in range(len(h)):
        if ctx.all(ord(h[i]) == 46):
            ctx.assume(i > 0 or lead)
            if i + 1 < len(h):
                ctx.assume(ord(h[i + 1]) != 46)


def not_ace(ctx, h):
    pass


def dns(ctx, before, n, after, form):
    h = before + ctx.text('h', n, HOST + [(46, 46), (42, 42)]) + after
    no_empty(ctx, h, True)
    o = h.encode('ascii')
    check_value(ctx, 'dns', h, o, form)
    if form == 'own':
        general(ctx, 'dns', h, o)


def dns_idn(ctx, i, before, after):
    u, a, others = IDN[i]
    c = ctx.text('c', 1, LOWER)
    x = ctx.lib.x509
    want = before.encode('ascii') + a + ('.' + c).encode('ascii') + after.encode('ascii')
    v = check_value(ctx, 'dns', before + u + '.' + c + after, want)
    for o in others:
        w = check_value(ctx, 'dns', before + o + '.' + c + after, want if o.lower() != o or True and not o.startswith('x') else want, 'own', before + u + '.' + c + after) \
            if not o.lower().startswith('xn') and o != 'STRASSE' else x.DNSName(before + o + '.' + c + after)
        ctx.check(v == w and w == v, 'equal however written')
        l = x.DNSName.load(w.dump())
        ctx.check(l == v and l == w and w == l, 'equal when loaded')
    e = x.EmailAddress('Me@' + u + '.' + c)
    ctx.check(ctx.eq(e.dump()[2:], b'Me@' + a + ('.' + c).encode('ascii')), 'the host of an address')
    for o in others:
        f = x.EmailAddress('Me@' + o + '.' + c)
        ctx.check(e == f and x.EmailAddress.load(f.dump()) == e, 'equal however written')
    ctx.check(ctx.eq(x.EmailAddress.load(e.dump()).native, 'Me@' + u + '.' + c), 'read again')
    ctx.reach('built')


def email(ctx, n, k, form):
    m = ctx.text('m', n, ATEXT)
    h = ctx.text('h', k, HOST + [(46, 46)])
    no_empty(ctx, h, False)
    s = m + '@' + h
    check_value(ctx, 'email', s, s.encode('ascii'), form)
    if form == 'own' and n == 1 and k == 1:
        general(ctx, 'email', s, s.encode('ascii'))


def bare(ctx, n):
    """without a host, as in a name constraint"""
    s = ctx.text('s', n, ATEXT + [(46, 46)])
    for c in chars(s):
        ctx.assume(c != 64)
    check_value(ctx, 'email', s, s.encode('ascii'))


def pair_host(ctx, kind, n, m):
    """equal exactly when the same but for case in the host"""
    t = types(ctx, kind)
    a = ctx.text('a', n, HOST)
    b = ctx.text('b', m, HOST)
    x, y = [], []
    if kind == 'dns':
        x, y = t(a + '.x'), t.load(t(b + '.x').dump())
        want = n == m and ctx.eq(low(ctx, chars(a)), low(ctx, chars(b)))
    elif kind == 'email':
        x, y = t('u@' + a), t.load(t('u@' + b).dump())
        want = n == m and ctx.eq(low(ctx, chars(a)), low(ctx, chars(b)))
    else:
        x, y = t('http://' + a + '/'), t.load(t('http://' + b + '/').dump())
        want = n == m and ctx.eq(low(ctx, chars(a)), low(ctx, chars(b)))
    ctx.check(ctx.eq(x == y, want), 'equal exactly when the same but for case')
    ctx.check(ctx.eq(y == x, want), 'either way')
    ctx.check(ctx.eq(x != y, ctx.not_(want)), 'unlike')
    ctx.check(x == x and y == y, 'equal to itself')
    ctx.reach('compared')


def pair_box(ctx, n, m, pad):
    """the mailbox is compared exactly"""
    t = ctx.lib.x509.EmailAddress
    a, b = ctx.text('a', n, ATEXT), ctx.text('b', m, ATEXT)
    if pad:
        a, b = 'q' * pad + a, 'q' * pad + b
    x, y = t(a + '@h.x'), t(b + '@H.X')
    want = n == m and ctx.eq(a, b)
    ctx.check(ctx.eq(x == y, want), 'equal exactly when the same')
    ctx.check(ctx.eq(x != y, ctx.not_(want)), 'unlike')
    z = t.load(y.dump())
    ctx.check(ctx.eq(x == z, want), 'equal exactly when the same')
    ctx.check(ctx.eq(z == x, want), 'either way')
    # reading or comparing leaves the encoding alone
    ctx.check(ctx.eq(z.dump(), y.dump()), 'not changed')
    for s in (a, b):
        for c in chars(s):
            ctx.assume(c != 64)
    p, q = t('h' + a), t('h' + b)
    ctx.check(ctx.eq(p == q, want), 'names without a host')
    ctx.check(not p == x and not x == p, 'a host is not nothing')
    ctx.reach('compared')


URIS = [('http://h.x/', ''), ('http://h.x/?', ''), ('http://h.x/#', ''), ('ldap:///', '?cn')]


def pair_uri(ctx, i):
    """letters of paths and queries are compared exactly, escapes by what they stand for"""
    t = ctx.lib.x509.URI
    before, after = URIS[i]
    a, b = ctx.text('a', 1, [(48, 57), (65, 90), (95, 95), (97, 122)]), ctx.text('b', 1, [(48, 57), (65, 90), (95, 95), (97, 122)])
    x, y = t(before + a + after), t.load(t(before + b + after).dump())
    want = ctx.eq(a, b)
    ctx.check(ctx.eq(x == y, want), 'equal exactly when the same')
    ctx.check(ctx.eq(y == x, want), 'either way')
    ctx.check(ctx.eq(x != y, ctx.not_(want)), 'unlike')
    o = ord(b)
    hx = [ord(c) for c in '0123456789abcdef']
    z = t(before + '%' + ctx.byte_str([ctx.get(hx, o >> 4), ctx.get(hx, o & 15)]).decode('ascii') + after)
    ctx.check(ctx.eq(x == z, want), 'or quoted')
    ctx.check(not (t(before + 'a%2f') == t(before + 'a/')), 'a quoted delimiter is another thing')
    ctx.reach('compared')


SAME_URI = [['http://h.x', 'HTTP://H.X/', 'http://h.x:80', 'http://h.x:80/', 'http://h.x:080/'],
            ['https://h.x/p', 'https://h.x:443/p', 'https://h.x/%70'],
            ['https://h.x:80/p', 'HTTPS://H.x:80/p'],
            ['http://u@h.x/', 'http://u@h.x:80'],
            ['http://U@h.x/'],
            ['http://h.x/a%2Fb', 'http://h.x/a%2fb'],
            ['http://h.x/a/b'],
            ['http://b\u00fccher.x/\u00e9', 'http://xn--bcher-kva.x/%C3%A9', 'http://b\u00fccher.x/%c3%a9'],
            ['http://h.x/a?b'], ['http://h.x/a%3Fb', 'http://h.x/a%3fb'], ['http://h.x/a%253Fb'],
            ['http://[::1]/'], ['http://[::1]:8080/'], ['ldap:///a'], ['ldap:/a'], ['urn:a'], ['urn:A']]


def uri_classes(ctx, k):
    t = ctx.lib.x509.URI
    i = ctx.choice('i', list(range(len(SAME_URI))))
    for u in SAME_URI[k]:
        x = t(u)
        w = t.load(x.dump())
        ctx.check(x == w and w == x, 'the same when loaded')
        for v in SAME_URI[i]:
            y = t(v)
            z = t.load(y.dump())
            ctx.check((x == y) == (i == k), 'equal exactly within a class')
            ctx.check((w == z) == (i == k) and (z == w) == (i == k) and (w == y) == (i == k), 'equal exactly within a class, when loaded')
    ctx.reach('compared')


def uri(ctx, before, after, n, form):
    s = before + ctx.text('s', n, [(45, 46), (48, 57), (65, 90), (95, 95), (97, 122)]) + after
    check_value(ctx, 'uri', s, s.encode('ascii'), form)
    if form == 'own':
        general(ctx, 'uri', s, s.encode('ascii'))


# ---------------------------------------------------------------- IP addresses

def ip4(ctx, first, n, k):
    """any address, with any prefix length"""
    d = bytes([10, 1, 254, 99])
    d = d[:first] + ctx.bytes('d', n) + d[first + n:]
    text = ctx.byte_str([c for i in range(4) for c in ([46] if i else []) + decimal(ctx, d[i])]).decode('ascii')
    if k is None:
        check_value(ctx, 'ip', text, d)
        general(ctx, 'ip', text, d)
    else:
        mask = ((1 << k) - 1) << (32 - k)
        m = bytes([(mask >> s) & 255 for s in (24, 16, 8, 0)])
        check_value(ctx, 'ip', text + '/%d' % k, d + m)


def ip6(ctx, base, first, n, k):
    d = bytes(bytearray.fromhex(base))
    d = d[:first] + ctx.bytes('d', n) + d[first + n:]
    text = ctx.byte_str(canonical(ctx, d)).decode('ascii')
    if k is None:
        check_value(ctx, 'ip', text, d)
        general(ctx, 'ip', text, d)
    else:
        mask = ((1 << k) - 1) << (128 - k)
        m = bytes([(mask >> (8 * s)) & 255 for s in range(15, -1, -1)])
        check_value(ctx, 'ip', text + '/%d' % k, d + m)


def ip_text(ctx, before, n, after, which):
    """any text: read as the address it denotes, or refused"""
    rng = {'few': [(46, 47), (48, 57)], 'six': [(47, 47), (49, 50), (58, 58), (97, 97)], 'any': [(0, 0xd7ff), (0xe000, 0x10ffff)]}[which]
    s = before + ctx.text('s', n, rng) + after
    cs = chars(s)
    addr, mask = cs, None
    for i in range(len(cs)):
        if ctx.all(cs[i] == 47):
            addr, mask = cs[:i], cs[i + 1:]
            break
    six = False
    for c in addr:
        if ctx.all(c == 58):
            six = True
            break
    ref = ref6 if six else ref4
    want = ref(ctx, addr)
    if want is not None and mask is not None:
        m = ref(ctx, mask)
        if m is None:
            v = 0
            ok = len(mask) > 0
            for c in mask:
                if not ctx.all(c >= 48, c <= 57):
                    ok = False
                    break
                v = v * 10 + (c - 48)
            bits = 128 if six else 32
            if not ok or not ctx.all(v <= bits):
                want = None
            else:
                for k in range(bits + 1):
                    if ctx.all(v == k):
                        w = ((1 << k) - 1) << (bits - k)
                        m = [(w >> (8 * j)) & 255 for j in range(bits // 8 - 1, -1, -1)]
                        break
        if want is not None:
            want = want + m
    t = ctx.lib.x509.IPAddress
    st, r = ctx.attempt(t, s)
    if st == 'err':
        ctx.check(isinstance(r, ValueError), 'ValueError')
        # a signed zero
        ctx.check(want is None or ctx.any(*[c == 45 for c in cs]), 'legal text is read')
        ctx.reach('refused')
        return
    if want is None:
        ctx.check(ctx.any(*[c == 45 for c in cs]), 'illegal text is refused')
        return
    ctx.check(ctx.eq(r.dump(), ctx.byte_str([4, len(want)] + want)), 'the encoding')
    ctx.check(ctx.eq(r.native, s), 'reads as set')
    w = t.load(r.dump())
    ctx.check(ctx.eq(t(w.native).dump(), w.dump()), 'printed and read again')
    ctx.reach('built')


def ip_mask(ctx, n, first, k, fill):
    """any mask is shown as a prefix length exactly when it is one"""
    t = ctx.lib.x509.IPAddress
    a = bytes([10, 0, 0, 0]) if n == 4 else bytes([32, 1] + [0] * 14)
    m = bytes([255] * first) + ctx.bytes('m', k) + bytes([fill] * (n - first - k))
    v = t.load(ctx.byte_str([4, 2 * n]) + a + m)
    s = v.native
    addr = '10.0.0.0' if n == 4 else '2001::'
    ctx.check(ctx.eq(s[:len(addr)], addr) and s[len(addr)] == '/', 'the address')
    shown = s[len(addr) + 1:]
    whole = 0
    for o in m:
        whole = whole * 256 + o
    prefix = False
    for j in range(8 * n + 1):
        if ctx.all(whole == ((1 << j) - 1) << (8 * n - j)):
            ctx.check(ctx.eq(shown, str(j)), 'the prefix length')
            prefix = True
            break
    if not prefix:
        if n == 4:
            txt = [c for i in range(4) for c in ([46] if i else []) + decimal(ctx, m[i])]
        else:
            txt = canonical(ctx, m)
        ctx.check(ctx.eq(shown.encode('ascii'), ctx.byte_str(txt)), 'the mask')
        ctx.reach('mask')
    else:
        ctx.reach('prefix')
    ctx.check(ctx.eq(t(s).dump(), v.dump()), 'set again')
    ctx.check(ctx.eq(v.dump(True), v.dump()), 'forced')
    ctx.check(t(s) == v and v == t(s), 'equal')


def ip_equal(ctx, n, m):
    """equal exactly when the octets are"""
    t = ctx.lib.x509.IPAddress
    a, b = ctx.bytes('a', n), ctx.bytes('b', m)
    x, y = t.load(ctx.byte_str([4, n]) + a), t.load(ctx.byte_str([4, m]) + b)
    want = n == m and ctx.eq(a, b)
    ctx.check(ctx.eq(x == y, want), 'equal exactly when the same')
    ctx.check(ctx.eq(y == x, want), 'either way')
    ctx.check(ctx.eq(x != y, ctx.not_(want)), 'unlike')
    ctx.check(x == x, 'to itself')
    chunked = t.load(ctx.byte_str([0x24, 0x80, 4, n]) + a + b'\0\0')
    ctx.check(chunked == x and x == chunked, 'received in chunks')
    ctx.check(ctx.eq(chunked == y, want), 'received in chunks')
    ctx.reach('compared')


def others(ctx, kind):
    """never equal to a value of another type; chunked values equal whole ones"""
    t = types(ctx, kind)
    d = ctx.bytes_in('d', 2, [(97, 122)])
    if kind == 'ip':
        d = bytes([1, 2]) + d
    body = {'dns': d, 'email': d + b'@x', 'uri': b'urn:' + d, 'ip': d}[kind]
    v = t.load(ctx.byte_str([TAG[kind], len(body)]) + body)
    for k in ('dns', 'email', 'uri', 'ip'):
        if k != kind:
            o = types(ctx, k).load(ctx.byte_str([TAG[k], len(d)]) + d)
            ctx.check(not v == o and v != o, 'not equal to another kind')
    ctx.check(not v == 5 and v != None, 'not equal to anything else')  # noqa: E711
    c = t.load(ctx.byte_str([32 | TAG[kind], 128, TAG[kind], 2]) + body[:2] + ctx.byte_str([TAG[kind], len(body) - 2]) + body[2:] + b'\0\0')
    ctx.check(c == v and v == c and not c != v, 'equal when received in chunks')
    ctx.check(ctx.eq(c.native, v.native), 'reads the same')
    ctx.check(ctx.eq(c.dump(True), v.dump()), 'the same encoding')
    c.set(v.native)
    ctx.check(ctx.eq(c.dump(), v.dump()), 'set')
    empty = t()
    if kind != 'uri':
        ctx.check(not empty == v and not v == empty, 'not equal to an empty value')
    for bad in (5, None, b'x'):
        st, e = ctx.attempt(v.set, bad)
        ctx.check(st == 'err' and isinstance(e, TypeError), 'TypeError')
    ctx.reach('compared')


BASES = ['20010db8' + '0000' * 5 + '0001', '0000' * 8, '0001000200030004000500060007abcd']


def text_cases(tier):
    q = tier == 'quick'
    out = [('', n, '', 'any') for n in (0, 1, 2)]
    for n in (1, 2, 3):
        out += [('1.2.3.4', n, '', 'few'), ('1.2.3.4/', n, '', 'few'), ('1.', n, '.4', 'few'), ('::1/', n, '', 'few'), ('::1', n, '', 'six')]
    out += [('1.2.3.4/', 1, '', 'any'), ('1.2.3.4', 1, '', 'any'), ('1.2.3.', 1, '', 'any'), ('::', 1, '', 'any'), ('::/', 1, '', 'any'), ('::/1', 1, '8', 'any'),
            ('', 1, '1.2.3.4/8', 'any'), ('1.2.3.4/8', 1, '', 'any'), ('1.2.3.4/255.', 1, '.0.0', 'few'), ('::1/ffff:', 2, '', 'six'), ('', 3, '/8', 'six')]
    if not q:
        for n in (4, 5):
            out += [('1.2.3.4', n, '', 'few'), ('1.2.3.4/', n, '', 'few'), ('1.', n, '.4', 'few'), ('::1/', n, '', 'few'), ('::1', n, '', 'six'), ('', n, '', 'six')]
        out += [('1.2.3.4/', 2, '', 'any'), ('::/', 2, '', 'any'), ('', 3, '', 'any')]
    return out


def ace(ctx, kind, pre, post):
    """labels that look like the encoded form of an international one, and may not be"""
    t = types(ctx, kind)
    d = b'xn--' + pre.encode('ascii') + ctx.bytes_in('d', 1, HOST + [(42, 42)]) + post.encode('ascii')
    body = {'dns': d, 'email': b'u@' + d, 'uri': b'urn://' + d + b'/'}[kind]
    v = t.load(ctx.byte_str([22, len(body)]) + body)
    s = v.native
    w = t(s)
    ctx.check(v == w and w == v, 'set again')
    ctx.check(ctx.eq(ctx.byte_str(low(ctx, w.dump())), ctx.byte_str(low(ctx, v.dump()))), 'the same encoding but for case')
    ctx.check(ctx.eq(v.dump(), ctx.byte_str([22, len(body)]) + body), 'not changed by reading')
    ctx.reach('read')


HARNESSES = [
    Harness('dns', dns, named('before n after form', lambda tier: [(b, n, a, f) for n in ((0, 1, 2) if tier == 'quick' else (0, 1, 2, 3))
                                                                  for b, a in (('', ''), ('w.', '.x'), ('.', ''), ('*.', ''))
                                                                  for f in ('own', 'implicit') if (f == 'own' or b == 'w.') and (n or b != '*.') and (n or b != 'w.')]), ['built'],
            bounds='names with up to 2 (3) characters of the host alphabet, at the start, within or after a dot'),
    Harness('dots', dots, named('kind n', lambda tier: [(k, n) for k in ('dns', 'email') for n in ((1, 2, 3) if tier == 'quick' else (1, 2, 3, 4))]), ['built', 'refused'],
            bounds='up to 3 (4) characters out of dots and letters'),
    Harness('dns_idn', dns_idn, named('i before after', [(i, b, a) for i in range(len(IDN)) for b, a in (('', ''), ('www.', '.example'), ('.', ''))]), ['built'],
            bounds='the listed international labels, in every way to write them'),
    Harness('email', email, named('n k form', lambda tier: [(1, 1, 'own'), (1, 1, 'implicit'), (2, 1, 'own'), (1, 2, 'own')] + ([] if tier == 'quick' else [(3, 1, 'own'), (2, 3, 'own')])),
            ['built'], bounds='addresses of up to 2+2 (3+3) characters'),
    Harness('bare', bare, named('n', [(1,), (2,), (3,)]), ['built'], bounds='names of up to 3 characters'),
    Harness('uri', uri, named('before after n form', [('http://h.x/', '', 1, 'own'), ('http://h.x/', '?q', 2, 'own'), ('ldap:///', '', 2, 'implicit'), ('http://h.x/?', '', 2, 'own'),
                                                     ('http://h.x/#', '', 2, 'own'), ('urn:a:', '', 2, 'own'), ('http://[::1]/', '', 1, 'own')]), ['built'], bounds='1-2 unreserved characters'),
    Harness('pair_host', pair_host, named('kind n m', lambda tier: [(k, n, m) for k in ('dns', 'email', 'uri') for n, m in ((1, 1), (2, 1), (2, 2) if k != 'uri' or tier != 'quick' else (1, 2))]),
            ['compared'], bounds='hosts of up to 2 characters'),
    Harness('pair_box', pair_box, named('n m pad', [(1, 1, 0), (2, 1, 0), (2, 2, 0), (1, 1, 30), (1, 1, 63), (1, 1, 64), (1, 1, 250)]), ['compared'], bounds='mailboxes of up to 2 characters, and of up to 251 with one being any'),
    Harness('pair_uri', pair_uri, named('i', [(i,) for i in range(len(URIS))]), ['compared'], bounds='one unreserved character each'),
    Harness('uri_classes', uri_classes, named('k', [(i,) for i in range(len(SAME_URI))]), ['compared'], bounds='all pairs of the listed URIs'),
    Harness('ip4', ip4, named('first n k', lambda tier: [(i, 1, None) for i in range(4)] + [(3, 1, k) for k in range(33)] + ([] if tier == 'quick' else [(0, 2, None), (2, 2, None)])),
            ['built'], bounds='one (two) octets being anything, with every prefix length'),
    Harness('ip6', ip6, named('base first n k', lambda tier: [(b, i, 1, None) for b in BASES for i in ((0, 1, 7, 15) if tier == 'quick' else range(16))]
                              + [(BASES[0], 15, 1, k) for k in (range(0, 129, 5) if tier == 'quick' else range(129))]), ['built'],
            bounds='one octet being anything, with every 5th (every) prefix length'),
    Harness('ip_text', ip_text, named('before n after which', text_cases), ['built', 'refused'], bounds='any 1-2 characters, or 1-3 (5) out of digits and separators, within addresses and networks'),
    Harness('ip_mask', ip_mask, named('n first k fill', lambda tier: [(4, i, 1, f) for i in range(4) for f in (0, 255)] + [(16, i, 1, f) for i in (0, 7, 15) for f in (0, 255)]
                                      + [(4, i, 2, 0) for i in range(3)][:0 if tier == 'quick' else 3]), ['mask', 'prefix'], bounds='masks with any one (two) octets'),
    Harness('ip_equal', ip_equal, named('n m', [(4, 4), (8, 8), (16, 16), (32, 32), (4, 8), (4, 16), (16, 32), (8, 16)]), ['compared'], bounds='every pair of addresses or networks'),
    Harness('ace', ace, named('kind pre post', [(k, a, b) for k in ('dns', 'email', 'uri') for a, b in (('', ''), ('', '.x'), ('bcher-kv', ''), ('wgv7', 'a.x'))]), ['read'],
            bounds='any character in the listed labels'),
    Harness('others', others, named('kind', [('dns',), ('email',), ('uri',), ('ip',)]), ['compared']),
]
