from pysym.harness import Harness
from hlib import named

MODULES = ('core', 'parser', 'util', 'x509', '_iri')

SUB = "!$&'()*+,;="
SAFE = {'user': SUB, 'path': SUB + '/@:', 'query': SUB + '/?@:', 'fragment': SUB + '/?@:'}
WRAP = {
    'user': ('http://', '@h.example/p'),
    'password': ('http://u:', '@h.example/p'),
    'path': ('http://h.example/', ''),
    'query': ('http://h.example/p?', ''),
    'fragment': ('http://h.example/p?q#', ''),
    'opaque': ('urn:', ''),
    'inside': ('ldap:///a', 'z?cn#f'),
    'querymid': ('https://u@h.example:8443/p?', '#f'),
    'pathmid': ('ftp://h.example/a/', '/b?q'),
    'fragmid': ('urn:a#', ''),
    'usermid': ('ldap://', ':p@[::1]:389/p?q#f'),
    'passmid': ('ldap://u:', '@[::1]/p?q#f'),
    'rel': ('/', ''),
}
KIND = {'password': 'user', 'opaque': 'path', 'inside': 'path', 'querymid': 'query', 'pathmid': 'path', 'fragmid': 'fragment', 'usermid': 'user',
        'passmid': 'user', 'rel': 'path'}
EXTRA = ('querymid', 'pathmid', 'fragmid', 'usermid', 'passmid', 'rel')
#: what ends a component, as characters that may not be in it unquoted
ENDS = {'user': ':@/?#[]', 'password': '@/?#[]', 'path': '?#', 'query': '#', 'fragment': '', 'opaque': '?#/', 'inside': '?#',
        'querymid': '#', 'pathmid': '?#', 'fragmid': '', 'usermid': ':@/?#[]', 'passmid': '@/?#[]', 'rel': '?#/'}


def is_in(ctx, c, chars):
    return ctx.any(*[c == ord(x) for x in chars])


def hexval(ctx, c):
    if ctx.all(c >= 48, c <= 57):
        return c - 48
    if ctx.all(c >= 97, c <= 102):
        return c - 87
    if ctx.all(c >= 65, c <= 70):
        return c - 55
    return None


def unreserved(ctx, c):
    return ctx.any(ctx.all(c >= 48, c <= 57), ctx.all(c >= 65, c <= 90), ctx.all(c >= 97, c <= 122), is_in(ctx, c, '-._~'))


def octets(ctx, c):
    """UTF-8"""
    if ctx.all(c < 0x80):
        return [c]
    if ctx.all(c < 0x800):
        return [0xc0 | (c >> 6), 0x80 | (c & 63)]
    if ctx.all(c < 0x10000):
        return [0xe0 | (c >> 12), 0x80 | ((c >> 6) & 63), 0x80 | (c & 63)]
    return [0xf0 | (c >> 18), 0x80 | ((c >> 12) & 63), 0x80 | ((c >> 6) & 63), 0x80 | (c & 63)]


def meaning(ctx, cs, safe):
    """what a component stands for: octets, each either a character of its own or data"""
    out = []
    i = 0
    while i < len(cs):
        c = cs[i]
        i += 1
        if ctx.all(c == 37):
            h = hexval(ctx, cs[i]) if i + 1 < len(cs) else None
            l = None if h is None else hexval(ctx, cs[i + 1])
            if l is None:
                out.append((37, True))
                continue
            i += 2
            o = h * 16 + l
            out.append((o, ctx.not_(unreserved(ctx, o))))
        elif ctx.all(c < 128):
            out.append((c, ctx.not_(ctx.any(unreserved(ctx, c), is_in(ctx, c, safe)))))
        else:
            for o in octets(ctx, c):
                out.append((o, True))
    return out


def same(ctx, a, b, msg):
    ctx.check(len(a) == len(b), msg)
    for x, y in zip(a, b):
        ctx.check(x[0] == y[0], msg)
        ctx.check(ctx.ite(x[1], 1, 0) == ctx.ite(y[1], 1, 0), msg)


def chars(s):
    return [ord(c) for c in s]


def middle(ctx, t, before, after, msg):
    """the component in the converted text"""
    ctx.check(len(t) >= len(before) + len(after), msg)
    ctx.check(ctx.eq(t[:len(before)], before), msg)
    end = len(t) - len(after)
    ctx.check(ctx.eq(t[end:], after), msg)
    return t[len(before):end]


def legal(ctx, cs, safe, msg):
    for i, c in enumerate(cs):
        ctx.check(ctx.any(unreserved(ctx, c), is_in(ctx, c, safe), c == 37), msg)


def iri_ok(ctx, cs, msg):
    """no control characters, which could not be set again"""
    for c in cs:
        ctx.check(ctx.all(c >= 32, c != 127), msg)


def symbols(ctx, n, ranges, where, kind):
    """text that may stand in the component"""
    s = ctx.text('s', n, ranges)
    for i, c in enumerate(chars(s)):
        ctx.assume(ctx.not_(is_in(ctx, c, ENDS[where])))
        # removed by urlsplit()
        ctx.assume(ctx.not_(is_in(ctx, c, '\t\r\n')))
    return s


ANY = [(0, 0xd7ff), (0xe000, 0x10ffff)]
ASCII = [(0, 127)]
SETS = {'any': ANY, 'ascii': ASCII, 'few': [(37, 37), (50, 53), (47, 47), (102, 102), (233, 233)], 'few7': [(37, 37), (50, 53), (47, 47), (102, 102)], 'hex': [(48, 57), (65, 70), (97, 102)]}
NETLOC = [(0, 127), (0xe9, 0xe9), (0x20ac, 0x20ac), (0x1f600, 0x1f600)]


def ranges_of(where, which):
    if which == 'any' and where in ('user', 'password'):
        # the authority is put into normal form in order to look for delimiters
        return NETLOC
    return SETS[which]


def forth(ctx, where, pre, n, post, which):
    iri = ctx.lib._iri
    kind = KIND.get(where, where)
    safe = SAFE[kind]
    before, after = WRAP[where]
    body = pre + symbols(ctx, n, ranges_of(where, which), where, kind) + post
    u = iri.iri_to_uri(before + body + after)
    ctx.check(isinstance(u, bytes), 'bytes')
    m = middle(ctx, u.decode('latin1'), before, after, 'the rest is unchanged')
    got = chars(m)
    legal(ctx, got, safe, 'only legal characters')
    want = meaning(ctx, chars(body), safe)
    same(ctx, meaning(ctx, got, safe), want, 'the URI means the same')
    back = iri.uri_to_iri(u)
    b = middle(ctx, back, before, after, 'the rest is unchanged')
    iri_ok(ctx, chars(b), 'no control characters')
    same(ctx, meaning(ctx, chars(b), safe), want, 'the IRI means the same')
    ctx.check(ctx.eq(iri.iri_to_uri(back), u), 'converting again changes nothing')
    ctx.reach('converted')


def back(ctx, where, pre, n, post, which):
    """URIs"""
    iri = ctx.lib._iri
    kind = KIND.get(where, where)
    safe = SAFE[kind]
    before, after = WRAP[where]
    body = pre + symbols(ctx, n, SETS[which], where, kind) + post
    # control characters are not allowed in a URI
    iri_chars = [c for c in chars(body)]
    for c in iri_chars:
        ctx.assume(ctx.all(c >= 32, c != 127))
    want = meaning(ctx, chars(body), safe)
    i = iri.uri_to_iri((before + body + after).encode('ascii'))
    b = middle(ctx, i, before, after, 'the rest is unchanged')
    iri_ok(ctx, chars(b), 'no control characters')
    same(ctx, meaning(ctx, chars(b), safe), want, 'the IRI means the same')
    u = iri.iri_to_uri(i)
    m = middle(ctx, u.decode('latin1'), before, after, 'the rest is unchanged')
    same(ctx, meaning(ctx, chars(m), safe), want, 'and back')
    ctx.check(ctx.eq(iri.iri_to_uri(iri.uri_to_iri(u)), u), 'converting again changes nothing')
    ctx.reach('converted')


def octet(ctx, where, tail):
    """quoted octets, valid UTF-8 or not: unreserved text is shown as such"""
    iri = ctx.lib._iri
    safe = SAFE[KIND.get(where, where)]
    before, after = WRAP[where]
    d = ctx.bytes('d', 1)
    up = ctx.bool('up')
    digits = '0123456789ABCDEF' if up else '0123456789abcdef'
    q = b'%' + ctx.byte_str([ctx.get([ord(x) for x in digits], d[0] >> 4), ctx.get([ord(x) for x in digits], d[0] & 15)])
    body = q.decode('ascii') + tail
    i = iri.uri_to_iri((before + body + after).encode('ascii'))
    b = middle(ctx, i, before, after, 'the rest is unchanged')
    iri_ok(ctx, chars(b), 'no control characters')
    same(ctx, meaning(ctx, chars(b), safe), meaning(ctx, chars(body), safe), 'the IRI means the same')
    if ctx.all(unreserved(ctx, d[0])):
        ctx.check(ctx.eq(b[0].encode('latin1'), d), 'unreserved characters are not quoted')
    x, y = iri.iri_to_uri(before + body + after), iri.iri_to_uri(i)
    ctx.check(ctx.eq(x, y), 'as when quoted')
    ctx.reach('converted')


def utf8(ctx, k, kind):
    """text beyond ASCII is shown as it is"""
    iri = ctx.lib._iri
    c = {2: [(0x80, 0x7ff)], 3: [(0x800, 0xd7ff), (0xe000, 0xffff)], 4: [(0x10000, 0x10ffff)]}[k]
    s = ctx.text('s', 1, c)
    before, after = WRAP[kind]
    u = iri.iri_to_uri(before + s + after)
    ctx.check(len(u) == len(before) + len(after) + 3 * k, 'every octet quoted')
    ctx.check(ctx.eq(iri.uri_to_iri(u), before + s + after), 'shown again')
    ctx.reach('converted')


#: IRI, URI, normalised URI, IRI again
FIXED = [
    ('http://H.Example/p', b'http://h.example/p', b'http://h.example/p', 'http://h.example/p'),
    ('http://h.example/', b'http://h.example/', b'http://h.example', 'http://h.example/'),
    ('http://h.example', b'http://h.example', b'http://h.example', 'http://h.example'),
    ('HTTP://h.example/a', b'http://h.example/a', b'http://h.example/a', 'http://h.example/a'),
    ('http://b\u00fccher.example/', b'http://xn--bcher-kva.example/', b'http://xn--bcher-kva.example', 'http://b\u00fccher.example/'),
    ('http://[2001:DB8::1]/', b'http://[2001:db8::1]/', b'http://[2001:db8::1]', 'http://[2001:db8::1]/'),
    ('http://[::1]:8080/', b'http://[::1]:8080/', b'http://[::1]:8080', 'http://[::1]:8080/'),
    ('http://u@[::1]/', b'http://u@[::1]/', b'http://u@[::1]', 'http://u@[::1]/'),
    ('ldap:///CN=Root', b'ldap:///CN=Root', b'ldap:///CN=Root', 'ldap:///CN=Root'),
    ('ldap:///CN=A b,O=C?x?y?(z=1)', b'ldap:///CN=A%20b,O=C?x?y?(z=1)', b'ldap:///CN=A%20b,O=C?x?y?(z=1)', 'ldap:///CN=A b,O=C?x?y?(z=1)'),
    ('file:///etc', b'file:///etc', b'file:///etc', 'file:///etc'),
    ('urn:isbn:1', b'urn:isbn:1', b'urn:isbn:1', 'urn:isbn:1'),
    ('mailto:a@b.example', b'mailto:a@b.example', b'mailto:a@b.example', 'mailto:a@b.example'),
    ('http://u:p@h.example/', b'http://u:p@h.example/', b'http://u:p@h.example', 'http://u:p@h.example/'),
    ('http://:p@h.example/', b'http://:p@h.example/', b'http://:p@h.example', 'http://:p@h.example/'),
    ('http://h.example//a//', b'http://h.example//a//', b'http://h.example//a//', 'http://h.example//a//'),
    ('http:////a', b'http:////a', b'http:////a', 'http:////a'),
    ('http://h.example/?q', b'http://h.example/?q', b'http://h.example/?q', 'http://h.example/?q'),
    ('http://h.example/#f', b'http://h.example/#f', b'http://h.example/#f', 'http://h.example/#f'),
    ('http://h.example?q', b'http://h.example?q', b'http://h.example?q', 'http://h.example?q'),
    ('a/b', b'a/b', b'a/b', 'a/b'),
    ('//h.example/a', b'//h.example/a', b'//h.example/a', '//h.example/a'),
    ('', b'', b'', ''),
]


def scheme(ctx, i):
    """the parts besides the quoted ones, followed by a character that means something to none of them"""
    iri = ctx.lib._iri
    text, uri, normal, again = FIXED[i]
    t = ''
    if text and text[-1] not in '/e1]':
        t = ctx.text('t', 1, [(48, 57), (97, 122), (0x100, 0xd7ff)])
    tail = t
    q = b''.join(ctx.byte_str([37, ctx.get(HEX, o >> 4), ctx.get(HEX, o & 15)]) if ctx.all(o >= 128) else ctx.byte_str([o])
                 for c in tail for o in octets(ctx, ord(c)))
    ctx.check(ctx.eq(iri.iri_to_uri(text + tail), uri + q), 'the URI')
    ctx.check(ctx.eq(iri.iri_to_uri(text + tail, True), normal + q), 'the normalised URI')
    ctx.check(ctx.eq(iri.uri_to_iri(uri + q), again + tail), 'the IRI')
    ctx.reach('converted')


HEX = [ord(x) for x in '0123456789ABCDEF']


def port(ctx, s, n):
    """ports, and their defaults"""
    iri = ctx.lib._iri
    p = ctx.text('p', n, [(48, 57)])
    v = 0
    for c in chars(p):
        v = v * 10 + (c - 48)
    st, u = ctx.attempt(iri.iri_to_uri, s + '://h.example:' + p + '/x')
    if st == 'err':
        ctx.check(isinstance(u, ValueError), 'ValueError')
        ctx.check(v > 65535, 'only a port out of range')
        ctx.reach('refused')
        return
    ctx.check(v <= 65535, 'a port out of range')
    ctx.check(ctx.eq(u, (s.lower() + '://h.example:').encode('ascii') + ctx.str(v).encode('ascii') + b'/x'), 'the port')
    w = iri.iri_to_uri(s + '://h.example:' + p + '/x', True)
    s = s.lower()
    default = {'http': 80, 'https': 443}.get(s)
    if default is not None and ctx.all(v == default):
        ctx.check(ctx.eq(w, (s + '://h.example/x').encode('ascii')), 'the default port is left out')
        ctx.reach('default')
    else:
        ctx.check(ctx.eq(w, u), 'any other port is not')
    ctx.check(ctx.eq(iri.uri_to_iri(u).encode('ascii'), u), 'and back')
    ctx.reach('converted')


def host(ctx, n):
    iri = ctx.lib._iri
    h = ctx.text('h', n, [(45, 46), (48, 57), (65, 90), (95, 95), (97, 122), (126, 126)])
    for a, b in zip('.' + h, h + '.'):
        ctx.assume(ctx.not_(ctx.all(ord(a) == 46, ord(b) == 46)))
    u = iri.iri_to_uri('ldap://u@' + h + ':389/p')
    low = ctx.byte_str([ctx.ite(ctx.all(c >= 65, c <= 90), c + 32, c) for c in chars(h)])
    ctx.check(ctx.eq(u, b'ldap://u@' + low + b':389/p'), 'the host in lower case')
    ctx.check(ctx.eq(iri.uri_to_iri(u).encode('ascii'), u), 'and back')
    ctx.reach('converted')


def wrong(ctx, what):
    iri = ctx.lib._iri
    f, v = {'bytes': (iri.iri_to_uri, b'http://a'), 'text': (iri.uri_to_iri, 'http://a'), 'none': (iri.iri_to_uri, None), 'int': (iri.uri_to_iri, 5)}[what]
    ctx.check(isinstance(ctx.attempt(f, v)[1], TypeError), 'TypeError')
    d = ctx.bytes('d', 1)
    ctx.assume(d[0] >= 128)
    st, e = ctx.attempt(iri.uri_to_iri, b'http://a/' + d)
    ctx.check(st == 'err' and isinstance(e, ValueError), 'not a URI')
    ctx.reach('refused')


def forth_cases(tier):
    q = tier == 'quick'
    out = []
    for w in WRAP:
        if w in EXTRA:
            out.append((w, '', 1, '', 'ascii'))
            if q:
                continue
        out.append((w, '', 1, '', 'any'))
        if w == 'path' or w not in ('user', 'password') and not q:
            out.append((w, '', 2, '', 'any' if not q else 'ascii'))
        out.append((w, '%', 1, '1', 'any'))
        out.append((w, '%4', 1, '', 'any'))
        out.append((w, '%', 2, '', 'hex'))
        if w in ('path',) or not q:
            out.append((w, '%25', 2, '', 'few'))
            out.append((w, '%c3', 3, '', 'few'))
            out.append((w, '%', 2, '%A9', 'hex'))
            out.append((w, '', 3, '', 'few'))
    if not q:
        for w in ('path', 'query'):
            out.append((w, '', 4, '', 'few'))
            out.append((w, '%', 4, '', 'few'))
            out.append((w, '', 3, '', 'ascii'))
    return out


def back_cases(tier):
    q = tier == 'quick'
    out = []
    for w in WRAP:
        out.append((w, '', 1, '', 'ascii'))
        if w in EXTRA and q:
            continue
        out.append((w, '%', 2, '', 'hex'))
        if w in ('path', 'inside') or not q:
            out.append((w, '%', 2, '%a9', 'hex'))
            out.append((w, '%C3%', 2, '', 'hex'))
            out.append((w, '%e2%82%', 2, '', 'hex'))
        if w in ('inside',) or not q:
            out.append((w, '%25', 2, '', 'ascii' if not q else 'few7'))
            out.append((w, '', 2, '', 'ascii'))
    return out


HARNESSES = [
    Harness('forth', forth, named('where pre n post which', forth_cases), ['converted'],
            bounds='any 1-2 (3) characters, or 3 (4) out of delimiters, digits and percent signs, in each component, alone and next to percent escapes'),
    Harness('back', back, named('where pre n post which', back_cases), ['converted'],
            bounds='any 1-2 ASCII characters, or any escape, in each component, alone and next to other escapes'),
    Harness('octet', octet, named('where tail', lambda tier: [(w, t) for w in WRAP for t in ('', '%a9', 'x') if w not in ('user', 'password') + EXTRA or tier != 'quick' or (w, t) == ('user', '')]), ['converted'], bounds='every escaped octet'),
    Harness('utf8', utf8, named('k kind', [(k, w) for k in (2, 3, 4) for w in ('path', 'query', 'fragment', 'opaque')]), ['converted'], bounds='every character'),
    Harness('scheme', scheme, named('i', [(i,) for i in range(len(FIXED))]), ['converted'], bounds='the listed IRIs, followed by any character'),
    Harness('port', port, named('s n', [(s, n) for s in ('http', 'https', 'ldap') for n in (1, 2, 3, 5)] + [('httpsx', 3), ('httpx', 2), ('ws', 2), ('shttp', 2), ('Https', 3)] + [('http', 6)]), ['converted', 'default', 'refused'],
            bounds='ports of up to 6 digits'),
    Harness('host', host, named('n', lambda tier: [(n,) for n in ((1, 2) if tier == 'quick' else (1, 2, 3))]), ['converted'], bounds='up to 2 (3) characters'),
    Harness('wrong', wrong, named('what', [('bytes',), ('text',), ('none',), ('int',)]), ['refused']),
]
