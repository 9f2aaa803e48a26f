from pysym.harness import Harness
from hlib import named

MODULES = ('core', 'parser', 'util', 'pem')

ALPHABET = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
LABEL = [(65, 90), (97, 122), (48, 57), (32, 32)]


def ref_base64(ctx, d):
    """RFC 4648, three octets at a time"""
    out = []
    table = [ord(c) for c in ALPHABET]
    for i in range(0, len(d), 3):
        g = [d[i + j] if i + j < len(d) else 0 for j in range(3)]
        n = g[0] * 65536 + g[1] * 256 + g[2]
        q = [ctx.get(table, (n >> s) & 63) for s in (18, 12, 6, 0)]
        k = min(3, len(d) - i)
        out.extend(q[:k + 1] + [61] * (3 - k))
    return ctx.byte_str(out)


def ref_armor(ctx, label, d, headers=()):
    out = [b'-----BEGIN ', label, b'-----\n']
    for k, v in headers:
        out.extend([k, b': ', v, b'\n'])
    if headers:
        out.append(b'\n')
    b = ref_base64(ctx, d)
    for i in range(0, len(b), 64):
        out.extend([b[i:i + 64], b'\n'])
    out.extend([b'-----END ', label, b'-----\n'])
    return b''.join(out)


def content(ctx, n, sym=None):
    """n octets, the last few (or all) being anything"""
    k = n if sym is None else min(n, sym)
    fixed = bytes([(7 * i + 3) & 255 for i in range(n - k)])
    return fixed + ctx.bytes('d', k)



def one(ctx, label, n, sym, headers):
    """armor is exactly the textual encoding of RFC 7468, and is undone by unarmor"""
    pem = ctx.lib.pem
    lab = ctx.text('label', label, LABEL) if type(label) is int else label
    d = content(ctx, n, sym)
    hs = {}
    ref = []
    for i, (a, b) in enumerate(headers):
        k = 'H%d' % i + ctx.text('k%d' % i, a, [(33, 57), (59, 126)])
        v = ctx.text('v%d' % i, b, [(33, 126)])
        if b > 1:
            v = v[:1] + ' ' + v[1:]
        hs[k] = v
        ref.append((k.encode('ascii'), v.encode('ascii')))
    out = pem.armor(lab, d, hs or None)
    ctx.check(ctx.eq(out, ref_armor(ctx, lab.upper().encode('ascii'), d, ref)), 'the textual encoding')
    ctx.check(pem.detect(out), 'detected')
    t, h, b = pem.unarmor(out)
    ctx.check(ctx.eq(t, lab.upper()), 'the label')
    ctx.check(ctx.eq(b, d), 'the bytes')
    ctx.check(len(h) == len(ref), 'the headers')
    for k in hs:
        ctx.check(ctx.eq(ctx.get(h, k), hs[k]), 'the headers')
    many = list(pem.unarmor(out, multiple=True))
    ctx.check(len(many) == 1, 'one block')
    ctx.check(ctx.eq(many[0][2], d), 'the bytes')
    ctx.reach('armored')


NEWLINES = {'lf': b'\n', 'crlf': b'\r\n', 'cr': b'\r'}


def several(ctx, n, newline, before, ssh):
    """blocks come back in order, whatever stands between them"""
    pem = ctx.lib.pem
    nl = NEWLINES[newline]
    out = []
    want = []
    for i in range(n):
        d = ctx.bytes('d%d' % i, 2) + bytes(range(i * 40))
        label = ('CERTIFICATE', 'X509 CRL', 'A')[i]
        if before:
            out.append(ctx.bytes('t%d' % i, before) + nl)
        hs = {'Proc-Type': '4,ENCRYPTED', 'DEK-Info': 'x: y'} if i == 1 else {}
        p = pem.armor(label, d, hs)
        if ssh:
            p = p.replace(b'-----BEGIN ', b'---- BEGIN ').replace(b'-----END ', b'---- END ').replace(b'-----\n', b' ----\n')
        out.append(p.replace(b'\n', nl))
        if i % 2 == 0:
            out.append(nl)
        want.append((label, hs, d))
    out.append(ctx.bytes('after', before))
    text = b''.join(out)
    ctx.check(pem.detect(text), 'detected')
    got = list(pem.unarmor(text, multiple=True))
    ctx.check(len(got) == n, 'as many blocks')
    for g, w in zip(got, want):
        ctx.check(ctx.all(g[0] == w[0], ctx.eq(g[1], w[1]), ctx.eq(g[2], w[2])), 'the blocks in order')
    t, h, b = pem.unarmor(text)
    ctx.check(ctx.all(t == want[0][0], ctx.eq(b, want[0][2])), 'the first block')
    ctx.reach('several')


def read(ctx, text, multiple):
    """the blocks of a text, or None when it is refused"""
    pem = ctx.lib.pem
    if multiple:
        st, r = ctx.attempt(lambda: list(pem.unarmor(text, multiple=True)))
    else:
        st, r = ctx.attempt(lambda: [pem.unarmor(text)])
    if st == 'err':
        ctx.check(isinstance(r, ValueError), 'refused with ValueError, not %s' % type(r).__name__)
        return None
    ctx.check(pem.detect(text), 'whatever can be unarmored is detected')
    return r


def cut(ctx, blocks, headers, multiple):
    """an armored text that ends anywhere before its end is refused (or, by a single read, its first block is read)"""
    pem = ctx.lib.pem
    ds = [ctx.bytes('d%d' % i, 3) + b'\x55' * 46 for i in range(blocks)]
    ps = [pem.armor('KEY %d' % i, d, {'A': 'b'} if headers else None) for i, d in enumerate(ds)]
    full = b''.join(ps)
    k = ctx.choice('k', list(range(len(full) - 1)))
    got = read(ctx, full[:k], multiple)
    first = len(ps[0]) - 1
    if got is None:
        if not multiple:
            ctx.check(k < first, 'a complete block is read')
        else:
            ctx.check(k < len(full) - 1, 'complete blocks are read')
        ctx.reach('refused')
        return
    ctx.check(k >= first, 'refused when cut off')
    ctx.check(ctx.eq(got[0][2], ds[0]), 'the first block')
    ctx.check(len(got) == 1, 'and no other')
    if multiple and blocks == 2:
        # the rest is empty or does not begin a block
        ctx.check(k < len(ps[0]) + len('-----BEGIN KEY 1-----'), 'refused when the second is cut off')
    ctx.reach('read')


def missing(ctx, what, multiple, text):
    """armor with a part taken away, or with something else in its place"""
    d = ctx.bytes('d', 3)
    body = ref_base64(ctx, d)
    x = ctx.bytes('x', text)
    ctx.assume(ctx.all(*[ctx.all(c != 10, c != 13) for c in x]))
    ctx.assume(x[:1] != b'-')
    begin, end = b'-----BEGIN KEY-----\n', b'-----END KEY-----\n'
    if what == 'begin':
        t = x + b'\n' + body + b'\n' + end
    elif what == 'end':
        t = begin + body + b'\n'
    elif what == 'both':
        t = x + b'\n' + body + b'\n'
    elif what == 'order':
        t = end + body + b'\n' + begin
    elif what == 'nested':
        t = begin + body + b'\n' + begin + body + b'\n' + end
    elif what == 'indented':
        t = b' ' + begin + body + b'\n' + end
    elif what == 'dashes':
        t = begin + body + b'\n-----\n'
    elif what == 'lower':
        t = begin + body + b'\n-----end KEY-----\n'
    elif what == 'empty':
        t = x
    else:
        # one digit short
        t = begin + body[:-1] + b'\n' + end
    got = read(ctx, t, multiple)
    ctx.check(got is None, 'refused')
    ctx.reach('refused')


def body(ctx, n, extra):
    """anything between the lines: decoded by RFC 4648, ignoring what is not in the alphabet"""
    d = ctx.bytes('b', n)
    ctx.assume(ctx.all(*[ctx.all(c != 45, c != 58) for c in d]))
    got = read(ctx, b'-----BEGIN KEY-----\n' + d + extra + b'\n-----END KEY-----\n', True)
    digits = []
    pads = 0
    order = False
    for c in [d[i] for i in range(n)] + [c for c in extra]:
        if ctx.all(c == 61):
            pads += 1
        elif ctx.any(ctx.all(c >= 65, c <= 90), ctx.all(c >= 97, c <= 122), ctx.all(c >= 48, c <= 57), c == 43, c == 47):
            if pads:
                order = True
            v = c - 65 if c <= 90 and c >= 65 else c - 71 if c >= 97 else c + 4 if c >= 48 else 62 if c == 43 else 63
            digits.append(v)
    k = len(digits)
    if order or pads > 2:
        # padding within the digits: either way
        return
    if pads == 0 and k % 4:
        ctx.check(got is None, 'refused without its padding')
        ctx.reach('refused')
        return
    if k % 4 == 1 or k % 4 == 2 and pads < 2:
        ctx.check(got is None, 'refused with wrong padding')
        ctx.reach('refused')
        return
    if pads > (4 - k % 4) % 4:
        # more padding than needed: either way
        return
    want = []
    for i in range(0, k, 4):
        g = digits[i:i + 4]
        v = 0
        for j in range(4):
            v = v * 64 + (g[j] if j < len(g) else 0)
        want.extend([(v >> 16) & 255, (v >> 8) & 255, v & 255][:len(g) - 1])
    ctx.check(got is not None and len(got) == 1, 'read')
    if got:
        ctx.check(ctx.eq(got[0][2], ctx.byte_str(want)), 'the bytes')
    ctx.reach('read')


def begin(ctx, where, n):
    """anything in the first line"""
    pem = ctx.lib.pem
    x = ctx.bytes('x', n)
    line = b'-----BEGIN KEY-----'
    if where == 'label':
        t = b'-----BEGIN ' + x + b'-----'
    elif where == 'prefix':
        t = x + line
    elif where == 'suffix':
        t = line + x
    elif where == 'start':
        t = x + line[n:]
    else:
        t = line[:-n] + x
    text = t + b'\nQUJD\n-----END KEY-----\n'
    got = read(ctx, text, True)
    if got is None:
        ctx.reach('refused')
        return
    ctx.reach('read')
    ctx.check(len(got) == 1, 'one block')
    name = got[0][0]
    ctx.check(len(name) > 0, 'a label')
    for c in name:
        ctx.check(ctx.any(ctx.all(ord(c) >= 65, ord(c) <= 90), ctx.all(ord(c) >= 48, ord(c) <= 57), c == ' '), 'a label')
    if where == 'label':
        for c in x:
            ok = ctx.any(ctx.all(c >= 65, c <= 90), ctx.all(c >= 48, c <= 57), c == 32)
            if ctx.not_(ok):
                # what follows the label is further dashes
                return
        ctx.check(ctx.eq(name, x.decode('ascii')), 'the label')
        ctx.check(ctx.eq(got[0][2], b'ABC'), 'the bytes')


def types(ctx, f):
    pem = ctx.lib.pem
    bad = {'detect': lambda: pem.detect('text'), 'armor': lambda: pem.armor('X', 'text'), 'label': lambda: pem.armor(b'X', b'x'), 'unarmor': lambda: pem.unarmor('text')}
    st, e = ctx.attempt(bad[f])
    ctx.check(st == 'err' and isinstance(e, TypeError), 'a TypeError')
    ctx.reach('typed')


HARNESSES = [
    Harness('one', one, named('label n sym headers', lambda tier: [(l, n, None, ()) for l in ((1, 2) if tier == 'quick' else (1, 2, 3)) for n in (0, 1, 2)] + [
        ('CERTIFICATE', n, s, ()) for n, s in (((3, None), (4, None), (47, 3), (48, 3), (49, 3), (96, 2), (97, 2), (200, 2)) if tier == 'quick' else
                                               [(n, 8) for n in range(3, 100)])] + [
        ('A B', 3, None, h) for h in (((0, 1),), ((1, 0),), ((2, 2),), ((1, 1), (0, 2)), ((0, 3), (0, 1)))]), ['armored'],
        bounds='labels of letters, digits and spaces; content up to 200 octets, the last 2-4 (8) being anything; up to two headers'),
    Harness('several', several, named('n newline before ssh', lambda tier: [(n, nl, b, s) for n in (1, 2, 3) for nl in NEWLINES for b in (
        (0, 1, 2) if tier == 'quick' else (0, 1, 2, 3, 4)) for s in (False, True)][::(3 if tier == 'quick' else 1)]), ['several'],
        bounds='one to three blocks, any two octets in each, any text up to 2 (4) octets before each and after the last; three newline conventions'),
    Harness('cut', cut, named('blocks headers multiple', [(b, h, m) for b in (1, 2) for h in (False, True) for m in (False, True)]), ['refused', 'read'],
            bounds='every position'),
    Harness('missing', missing, named('what multiple text', [(w, m, t) for w in ('begin', 'end', 'both', 'order', 'nested', 'indented', 'dashes', 'lower', 'empty', 'short')
                                                             for m in (False, True) for t in (0, 2)]), ['refused']),
    Harness('body', body, named('n extra', lambda tier: [(n, e) for n in ((0, 1, 2, 3) if tier == 'quick' else (0, 1, 2, 3, 4, 5)) for e in (b'', b'QUI', b'Q==')]),
            ['refused', 'read'], bounds='up to 3 (5) octets of anything but hyphens and colons'),
    Harness('begin', begin, named('where n', lambda tier: [(w, n) for w in ('label', 'prefix', 'suffix', 'start', 'end') for n in ((1, 2) if tier == 'quick' else (1, 2, 3))]),
            ['refused', 'read'], bounds='1-2 (3) octets of anything in the BEGIN line'),
    Harness('types', types, named('f', [('detect',), ('armor',), ('label',), ('unarmor',)]), ['typed']),
]
