from pysym.harness import Harness
from hlib import named

MODULES = ('core', 'parser', 'util', 'x509')
BUDGET = {'quick': 300}

#: RFC 4518 section 2.2
NOTHING = [(0x00, 0x08), (0x0e, 0x1f), (0x7f, 0x84), (0x86, 0x9f), (0xad, 0xad), (0x34f, 0x34f), (0x6dd, 0x6dd), (0x70f, 0x70f), (0x1806, 0x1806),
           (0x180b, 0x180e), (0x200b, 0x200f), (0x202a, 0x202e), (0x2060, 0x2063), (0x206a, 0x206f), (0xfe00, 0xfe0f), (0xfeff, 0xfeff),
           (0xfff9, 0xfffc), (0x1d173, 0x1d17a), (0xe0001, 0xe0001), (0xe0020, 0xe007f)]
SPACE = [(0x09, 0x0d), (0x20, 0x20), (0x85, 0x85), (0xa0, 0xa0), (0x1680, 0x1680), (0x2000, 0x200a), (0x2028, 0x2029), (0x202f, 0x202f), (0x205f, 0x205f),
         (0x3000, 0x3000)]
#: always refused: private use, non-characters, surrogates, the replacement character, change display
REFUSED = [(0xe000, 0xf8ff), (0xf0000, 0xffffd), (0x100000, 0x10fffd), (0xfdd0, 0xfdef), (0xfffd, 0xffff), (0x340, 0x341)] + \
    [(p * 0x10000 + 0xfffe, p * 0x10000 + 0xffff) for p in range(1, 17)]


def within(ctx, c, ranges):
    return ctx.any(*[ctx.all(c >= lo, c <= hi) for lo, hi in ranges])


def chars(s):
    return [ord(c) for c in s]


def text_of(cs):
    return cs


def key(ctx, cs):
    """what is compared of text within ASCII"""
    out = []
    for c in cs:
        if ctx.all(within(ctx, c, NOTHING[:3])):
            continue
        if ctx.all(within(ctx, c, SPACE[:2])):
            if out and out[-1] is not None:
                out.append(None)
            continue
        out.append(ctx.ite(ctx.all(c >= 65, c <= 90), c + 32, c))
    if out and out[-1] is None:
        out.pop()
    return out


def same(ctx, a, b):
    """equality of two keys"""
    if len(a) != len(b):
        return False
    cs = []
    for x, y in zip(a, b):
        if x is None or y is None:
            if not (x is None and y is None):
                return False
        else:
            cs.append(x == y)
    return ctx.all(*cs) if cs else True


ALT = {'utf8_string': 'UTF8String', 'printable_string': 'PrintableString', 'universal_string': 'UniversalString', 'bmp_string': 'BMPString',
       'teletex_string': 'NotReallyTeletexString', 'ia5_string': 'IA5String'}


def attribute(ctx, text, typ='common_name', alt='utf8_string'):
    x = ctx.lib.x509
    if typ in ('email_address', 'domain_component', 'tpm_model', 'telephone_number', 'unique_identifier'):
        v = text
    else:
        v = x.DirectoryString(name=alt, value=text)
    return x.NameTypeAndValue({'type': typ, 'value': v})


def name_of(ctx, rdns):
    x = ctx.lib.x509
    return x.Name(name='', value=x.RDNSequence([x.RelativeDistinguishedName(r) for r in rdns]))


def simple(ctx, text, typ='common_name', alt='utf8_string'):
    return name_of(ctx, [[attribute(ctx, text, typ, alt)]])


def compare(ctx, a, b, want, msg):
    ctx.check(ctx.eq(a == b, want), msg)
    ctx.check(ctx.eq(b == a, want), msg + ', either way')
    ctx.check(ctx.eq(a != b, ctx.not_(want)), msg + ', unlike')
    ctx.check(ctx.eq(a.hashable == b.hashable, want), msg + ', hashed')


def again(ctx, n):
    """a copy as received"""
    return ctx.lib.x509.Name.load(n.dump())


def pair(ctx, n, m, rng):
    """equal exactly when the prepared values are"""
    r = {'ascii': [(0, 127)], 'space': [(32, 32), (65, 66), (97, 98)], 'control': [(8, 14), (32, 32), (97, 97)]}[rng]
    a, b = ctx.text('a', n, r), ctx.text('b', m, r)
    x, y = simple(ctx, 'x' + a + 'y'), again(ctx, simple(ctx, 'x' + b + 'y'))
    want = same(ctx, key(ctx, chars('x' + a + 'y')), key(ctx, chars('x' + b + 'y')))
    compare(ctx, x, y, want, 'equal exactly when prepared the same')
    ctx.check(x == x and again(ctx, x) == x, 'equal to itself')
    ctx.reach('compared')


def ends(ctx, n, m):
    """insignificant space"""
    r = [(32, 32), (97, 97), (65, 65)]
    a, b = ctx.text('a', n, r), ctx.text('b', m, r)
    x, y = simple(ctx, a), again(ctx, simple(ctx, b))
    compare(ctx, x, y, same(ctx, key(ctx, chars(a)), key(ctx, chars(b))), 'equal exactly when prepared the same')
    ctx.reach('compared')


def inner(ctx, n, m):
    """space within, of any amount and kind, is as good as any other"""
    a = ctx.text('a', n, [(9, 13), (32, 32), (0xa0, 0xa0), (0x2000, 0x200a)] if n < 3 else [(9, 9), (32, 32)])
    x = simple(ctx, 'x' + a + 'y')
    compare(ctx, x, again(ctx, simple(ctx, 'X' + ' ' * m + 'Y')), m > 0, 'as one space')
    ctx.reach('compared')


def long(ctx, pad, what):
    """however long the values are, every character counts, at the end as at the beginning"""
    a, b = ctx.text('a', 1, [(97, 122)]), ctx.text('b', 1, [(65, 90)])
    want = ord(a) == ord(b) + 32
    p = 'pq' * (pad // 2)
    if what == 'last':
        x, y = simple(ctx, p + a), simple(ctx, p.upper() + b, 'common_name', 'bmp_string')
    elif what == 'first':
        x, y = simple(ctx, a + p), simple(ctx, b + p)
    elif what == 'fold':
        x, y = simple(ctx, '\uff21\u2460' + p + a + '\ufb01'), simple(ctx, 'a1' + p + b + 'FI')
    elif what == 'space':
        x, y = simple(ctx, ' ' + p + '  ' + a + ' ' + p), simple(ctx, p + '\t' + b + '\u3000' + p + '  ')
    elif what == 'octets':
        a, b = ctx.bytes('d', 1), ctx.bytes('e', 1)
        want = ctx.eq(a, b)
        p = p.encode('ascii')
        x, y = simple(ctx, p + a, 'unique_identifier'), simple(ctx, p + b, 'unique_identifier')
    elif what == 'rdn':
        x = name_of(ctx, [[attribute(ctx, p + 'x', 'organization_name'), attribute(ctx, p + a)]])
        y = name_of(ctx, [[attribute(ctx, p + b), attribute(ctx, p + 'X', 'organization_name')]])
    else:
        # many RDNs, one of which differs
        k = max(pad // 8, 1)
        x = name_of(ctx, [[attribute(ctx, 'v%d' % i)] for i in range(k)] + [[attribute(ctx, a)], [attribute(ctx, 'z')]])
        y = name_of(ctx, [[attribute(ctx, 'V%d' % i)] for i in range(k)] + [[attribute(ctx, b)], [attribute(ctx, 'z')]])
    compare(ctx, x, again(ctx, y), want, 'equal exactly when all of it is')
    ctx.reach('compared')


QUICK = [(0, 0x7f), (0x80, 0xff), (0x100, 0x1ff), (0x340, 0x35f), (0x6d8, 0x713), (0x1670, 0x168f), (0x1800, 0x181f), (0x2000, 0x2070), (0x2ffc, 0x3002),
         (0xdff0, 0xf8ff), (0xfdc0, 0xfe1f), (0xfef0, 0xfeff), (0xffe0, 0xffff), (0x1d160, 0x1d18f), (0x1fff0, 0x1ffff), (0xdfff0, 0xe008f), (0xeffff, 0x10ffff)]
WHOLE = [(k, k + 0xff) for k in range(0, 0x3400, 0x100)] + [(0x3400, 0x9fff), (0xa000, 0xabff), (0xac00, 0xd7ff)] + [(k, k + 0xff) for k in range(0xf900, 0x10000, 0x100)] + [
    (k, k + 0x3ff) for k in range(0x10000, 0x11000, 0x400)] + [(0x11000, 0x1cfff)] + [(k, k + 0xff) for k in range(0x1d000, 0x20000, 0x100)] + [
    (0x20000, 0x2f7ff), (0x2f800, 0x2fa1f), (0x2fa20, 0xdffff)] + QUICK[-2:]
BLOCKS = QUICK + WHOLE


def one(ctx, i):
    """every character: ignored, a space, refused or significant"""
    lo, hi = BLOCKS[i]
    rng = [(lo, hi)]
    if lo < 0xe000 <= hi:
        rng = [(0xe000, hi)]
    s = ctx.text('s', 1, rng)
    c = ord(s)
    x = simple(ctx, 'x' + s + 'y')
    st, h = ctx.attempt(lambda: x.hashable)
    if st == 'err':
        ctx.check(isinstance(h, ValueError), 'ValueError')
        ctx.check(ctx.not_(ctx.any(within(ctx, c, NOTHING), within(ctx, c, SPACE), ctx.all(c < 0x220))), 'not refused')
        ctx.reach('refused')
        return
    ctx.check(ctx.not_(ctx.all(within(ctx, c, REFUSED), c != 0x340, c != 0x341)), 'refused')
    compare(ctx, x, simple(ctx, 'xy'), within(ctx, c, NOTHING), 'ignored')
    compare(ctx, x, simple(ctx, 'x Y'), within(ctx, c, SPACE), 'a space')
    if hi < 128:
        o = ctx.byte_str([ctx.ite(ctx.all(c >= 65, c <= 90), c + 32, ctx.ite(ctx.all(c >= 97, c <= 122), c - 32, c))]).decode('ascii')
        compare(ctx, x, simple(ctx, 'X' + o + 'Y'), True, 'any case')
    ctx.check(x == again(ctx, x), 'equal to itself')
    ctx.reach('compared')


FOLD = [('\u00e9', '\u00c9'), ('\u00df', 'SS'), ('e\u0301', '\u00c9'), ('\uff21', 'a'), ('\u03c3', '\u03a3'), ('\u0436', '\u0416'), ('\ufb01', 'FI'),
        ('\u212b', '\u00e5'), ('\u0130', 'i\u0307'), ('\u01c4', 'd\u017e'), ('\u2460', '1'), ('\u00b5', '\u03bc')]


def fold(ctx, i):
    """compatibility forms and case beyond ASCII"""
    a, b = FOLD[i]
    c = ctx.text('c', 1, [(97, 122)])
    d = ctx.text('d', 1, [(65, 90)])
    x, y = simple(ctx, c + a + 'z'), again(ctx, simple(ctx, d + b + 'Z', 'common_name', 'bmp_string'))
    compare(ctx, x, y, ord(c) == ord(d) + 32, 'case and form are ignored')
    compare(ctx, x, simple(ctx, c + 'z'), False, 'significant')
    ctx.reach('compared')


def kinds(ctx, p, q):
    """the string type does not matter"""
    a, b = ctx.text('a', 1, [(48, 57), (65, 90), (97, 122)]), ctx.text('b', 1, [(48, 57), (65, 90), (97, 122)])
    x, y = simple(ctx, 'C ' + a, 'organization_name', p), again(ctx, simple(ctx, 'c ' + b, 'organization_name', q))
    compare(ctx, x, y, same(ctx, key(ctx, chars(a)), key(ctx, chars(b))), 'equal exactly when prepared the same')
    ctx.reach('compared')


TYPES = ['common_name', 'organization_name', 'email_address', 'domain_component', 'tpm_model', 'telephone_number', 'serial_number']


def types(ctx, p, q):
    """the attribute type matters"""
    a, b = ctx.text('a', 1, [(65, 66), (97, 98)]), ctx.text('b', 1, [(65, 66), (97, 98)])
    x, y = simple(ctx, 'c' + a, p), again(ctx, simple(ctx, 'C' + b, q))
    compare(ctx, x, y, same(ctx, key(ctx, chars(a)), key(ctx, chars(b))) if p == q else False, 'equal exactly when of one type and prepared the same')
    ctx.check(ctx.eq(x.chosen[0] == y.chosen[0], x == y), 'as the RDNs are')
    ctx.check(ctx.eq(x.chosen[0][0] == y.chosen[0][0], x == y), 'as the attributes are')
    ctx.check(ctx.eq(x.chosen[0][0] != y.chosen[0][0], x != y), 'as the attributes are')
    ctx.reach('compared')


#: how values are grouped into RDNs, as (type, number of the text)
SHAPES = [
    [[('common_name', 0)], [('organization_name', 1)]],
    [[('organization_name', 1)], [('common_name', 0)]],
    [[('common_name', 0), ('organization_name', 1)]],
    [[('organization_name', 1), ('common_name', 0)]],
    [[('common_name', 0), ('common_name', 1)]],
    [[('common_name', 1), ('common_name', 0)]],
    [[('common_name', 0)], [('common_name', 1)]],
    [[('common_name', 0)]],
    [[('common_name', 0), ('organization_name', 1), ('common_name', 2)]],
    [[('organization_name', 1), ('common_name', 2), ('common_name', 0)]],
    [[('common_name', 0)], [('organization_name', 1), ('common_name', 2)]],
    [[('common_name', 0), ('organization_name', 1)], [('common_name', 2)]],
    [[('common_name', 0), ('common_name', 1), ('common_name', 2)]],
]


def build(ctx, shape, texts):
    return name_of(ctx, [[attribute(ctx, texts[i], t) for t, i in rdn] for rdn in shape])


def rdn_same(ctx, r, s):
    """the same attributes in some order"""
    if len(r) != len(s):
        return False
    if not r:
        return True
    out = []
    for i in range(len(s)):
        if s[i][0] == r[0][0]:
            rest = rdn_same(ctx, r[1:], s[:i] + s[i + 1:])
            if rest is not False:
                out.append(ctx.all(r[0][1] == s[i][1], rest))
    return ctx.any(*out) if out else False


def shapes(ctx, p, q):
    """the order of RDNs matters, the order within does not"""
    a = [ctx.text('a%d' % i, 1, [(97, 122)]) for i in range(3)]
    b = [ctx.text('b%d' % i, 1, [(65, 90)]) for i in range(3)]
    x, y = build(ctx, SHAPES[p], a), again(ctx, build(ctx, SHAPES[q], b))
    ka = [[(t, ord(a[i])) for t, i in r] for r in SHAPES[p]]
    kb = [[(t, ord(b[i]) + 32) for t, i in r] for r in SHAPES[q]]
    want = len(ka) == len(kb)
    if want:
        cs = [rdn_same(ctx, r, s) for r, s in zip(ka, kb)]
        want = False if False in cs else ctx.all(*cs)
    compare(ctx, x, y, want, 'equal exactly when the RDNs are')
    # the order in which they are encoded is of no interest
    raw = build(ctx, SHAPES[q], b)
    compare(ctx, raw, y, True, 'equal to itself')
    ctx.reach('compared')


def octets(ctx, n, m):
    """values that are not text"""
    a, b = ctx.bytes('a', n), ctx.bytes('b', m)
    x, y = simple(ctx, a, 'unique_identifier'), again(ctx, simple(ctx, b, 'unique_identifier'))
    compare(ctx, x, y, n == m and ctx.eq(a, b), 'equal exactly when the octets are')
    ctx.reach('compared')


def separators(ctx, i):
    """octets that look like the separators of the hashable form do not make one name look like another"""
    d = ctx.bytes('d', 3)
    one = lambda o: attribute(ctx, o, 'unique_identifier')  # noqa: E731
    a = b'q' + d + b'unique_identifier: r'
    x = name_of(ctx, [[one(a)]])
    y = name_of(ctx, [[[one(b'q'), one(b'r')]], [[one(b'q')], [one(b'r')]], [[one(b'q' + d[:1]), one(d[1:] + b'r')]], [[one(a), one(a)]],
                      [[one(a)], [one(a)]]][i])
    compare(ctx, x, y, False, 'not equal')
    ctx.reach('compared')


def lengths(ctx, n, m):
    """names of different lengths"""
    a = [ctx.text('a%d' % i, 1, [(97, 98)]) for i in range(n)]
    x = name_of(ctx, [[attribute(ctx, t)] for t in a])
    y = name_of(ctx, [[attribute(ctx, t)] for t in (a + ['c', 'd', 'e'])[:m]])
    compare(ctx, x, y, n == m, 'as long')
    ctx.reach('compared')


def build_order(ctx):
    """names built from a dict compare as others do"""
    a, b = ctx.text('a', 1, [(97, 122)]), ctx.text('b', 1, [(97, 122)])
    x = ctx.lib.x509
    for p in (False, True):
        n = x.Name.build({'organization_name': 'O' + a, 'common_name': 'C' + b, 'country_name': 'DE'}, use_printable=p)
        ctx.check(len(n) == 3, 'three RDNs')
        m = name_of(ctx, [[attribute(ctx, 'de', 'country_name')], [attribute(ctx, 'o' + a, 'organization_name', 'bmp_string')], [attribute(ctx, 'c' + b)]])
        compare(ctx, n, m, True, 'equal')
        st, nat = ctx.attempt(lambda: n.native)
        ctx.check(ctx.eq(nat['common_name'], 'C' + b) and ctx.eq(nat['organization_name'], 'O' + a) and nat['country_name'] == 'DE', 'the values')
    ctx.check(not n == n.chosen and not n == 5 and n != None, 'not equal to anything else')  # noqa: E711
    ctx.reach('compared')


HARNESSES = [
    Harness('pair', pair, named('n m rng', lambda tier: [(1, 1, 'ascii'), (1, 0, 'ascii'), (2, 1, 'space'), (2, 2, 'space'), (2, 1, 'control')]
                                + ([] if tier == 'quick' else [(2, 1, 'ascii'), (3, 2, 'space'), (3, 3, 'space'), (2, 2, 'control')])), ['compared'],
            bounds='any one (two) characters of ASCII against any one, or up to 2 (3) out of spaces and letters against each other'),
    Harness('ends', ends, named('n m', lambda tier: [(2, 1), (3, 1)] + ([(2, 2)] if tier == 'quick' else [(2, 2), (3, 2), (3, 3)])), ['compared'], bounds='up to 3 spaces and letters'),
    Harness('inner', inner, named('n m', lambda tier: [(1, 2), (2, 1), (3, 1), (1, 5)] + ([] if tier == 'quick' else [(4, 2), (2, 4)])), ['compared'],
            bounds='up to 3 (4) characters that are spaces'),
    Harness('long', long, named('pad what', lambda tier: [(p, w) for i, p in enumerate((16, 34, 70, 130, 260)) for j, w in enumerate(('last', 'first', 'fold', 'space', 'octets', 'rdn', 'many'))
                                                          if tier != 'quick' or p == 70 or (i + j) % 3 == 0]), ['compared'],
            bounds='values of up to 260 characters (repeated twice), of which one is any letter; up to 34 RDNs'),
    Harness('one', one, named('i', lambda tier: [(i,) for i in range(len(QUICK) if tier == 'quick' else len(BLOCKS))]), ['compared', 'refused'], conc_limit=20000,
            bounds='every Unicode character of the ranges that are treated specially, and of Latin (every Unicode character)'),
    Harness('fold', fold, named('i', [(i,) for i in range(len(FOLD))]), ['compared'], bounds='the listed pairs'),
    Harness('kinds', kinds, named('p q', lambda tier: [(p, q) for p in sorted(ALT) for q in sorted(ALT) if p < q or tier != 'quick' and p == q]), ['compared'],
            bounds='every pair of string types'),
    Harness('types', types, named('p q', lambda tier: [(p, q) for p in TYPES for q in TYPES if tier != 'quick' or p == q or p == 'common_name' or q == 'email_address']), ['compared'],
            bounds='pairs of attribute types'),
    Harness('shapes', shapes, named('p q', lambda tier: [(p, q) for p in range(len(SHAPES)) for q in range(len(SHAPES)) if (p <= q and p + q < 22) or tier != 'quick']), ['compared'],
            bounds='up to three values grouped into RDNs in every way, each any letter'),
    Harness('octets', octets, named('n m', [(0, 1), (1, 1), (2, 2), (2, 1)]), ['compared'], bounds='up to 2 octets'),
    Harness('separators', separators, named('i', [(i,) for i in range(5)]), ['compared'], bounds='any 3 octets'),
    Harness('lengths', lengths, named('n m', [(n, m) for n in range(1, 4) for m in range(1, 5)]), ['compared'], bounds='up to 4 RDNs'),
    Harness('build_order', build_order, [{}], ['compared']),
]
