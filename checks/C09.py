from pysym.harness import Harness
from hlib import encode, ref_tlv, zoo

MODULES = ('core', 'parser', 'util', 'x509', 'cms', 'algos', 'keys', 'ocsp', 'csr', 'crl', 'tsp', 'pkcs12', 'pdf')


def groups(ctx, v):
    """base-128 groups of one subidentifier, shortest form"""
    out = [v & 127]
    v = v >> 7
    while v > 0:
        out.insert(0, (v & 127) | 128)
        v = v >> 7
    return out


def ref_encode(ctx, arcs, merge=True):
    out = []
    subs = ([arcs[0] * 40 + arcs[1]] + list(arcs[2:])) if merge else list(arcs)
    for s in subs:
        out.extend(groups(ctx, s))
    return ctx.byte_str(out)


def ref_decode(ctx, c, merge=True):
    """arcs of legal contents, or None when they end inside an arc"""
    arcs = []
    part = 0
    open_ = True
    for i in range(len(c)):
        part = part * 128 + (c[i] & 127)
        open_ = True
        if c[i] < 128:
            open_ = False
            if not arcs and merge:
                first = ctx.ite(part >= 80, 2, ctx.ite(part >= 40, 1, 0))
                arcs = [first, part - first * 40]
            else:
                arcs.append(part)
            part = 0
    return None if open_ else arcs


def dotted(ctx, arcs):
    return ctx.join('.', [ctx.str(a) for a in arcs])


def from_text(ctx, cls, tops, first=None):
    """a dotted identifier with arbitrary arcs"""
    core = ctx.lib.core
    t = getattr(core, cls)
    merge = cls == 'ObjectIdentifier'
    arcs = []
    for i, top in enumerate(tops):
        if i == 0 and merge:
            arcs.append(first)
        else:
            arcs.append(ctx.int('a%d' % i, top[0], top[1]))
    text = dotted(ctx, arcs)
    st, o = ctx.attempt(t, text)
    legal = True
    if merge:
        legal = ctx.all(len(arcs) > 1, first <= 2, ctx.any(first == 2, arcs[1] < 40) if len(arcs) > 1 else False)
    if st == 'err':
        ctx.check(isinstance(o, ValueError), 'refused with ValueError')
        ctx.check(ctx.not_(legal), 'a valid identifier is encoded')
        ctx.reach('refused')
        return
    ctx.check(legal, 'arcs outside the ranges X.660 allows are refused')
    ctx.check(ctx.eq(o.contents, ref_encode(ctx, arcs, merge)), 'base-128 encoding of the arcs')
    ctx.check(ctx.all(ctx.eq(o.native, text), ctx.eq(o.dotted, text)), 'built value reads back')
    d = o.dump()
    ctx.check(ctx.eq(d, ref_tlv(ctx, t.tag, o.contents)), 'encoding')
    w = t.load(d, strict=True)
    ctx.check(ctx.all(ctx.eq(w.native, text), ctx.eq(w.dotted, text)), 'decodes to the same text')
    ctx.check(ctx.eq(w.dump(force=True), d), 'forced re-encoding changes nothing')
    w.set('2.5.29')
    ctx.check(ctx.all(w.native == '2.5.29', w.dotted == '2.5.29', w.dump()[2:] == (b'\x55\x1d' if merge else b'\x02\x05\x1d')), 'a new value replaces the old one')
    ctx.reach('encoded')
    ctx.observe('d', d)


def from_contents(ctx, cls, n):
    """arbitrary contents"""
    core = ctx.lib.core
    t = getattr(core, cls)
    merge = cls == 'ObjectIdentifier'
    c = ctx.bytes('c', n)
    o = t.load(encode((t.tag, c)))
    how = ctx.choice('how', ['native', 'dotted', 'str'])
    st, v = ctx.attempt(lambda: o.native if how == 'native' else o.dotted if how == 'dotted' else ctx.call(str, o))
    arcs = ref_decode(ctx, c, merge)
    if st == 'err':
        ctx.check(isinstance(v, ValueError), 'refused with ValueError')
        ctx.check(arcs is None, 'complete encodings are read')
        ctx.reach('refused')
        return
    ctx.check(arcs is not None, 'an encoding that ends inside an arc is refused')
    if arcs is None:
        return
    ctx.check(ctx.eq(v, dotted(ctx, arcs)), 'the arcs the contents denote')
    w = t(v)
    ctx.check(ctx.eq(w.contents, ref_encode(ctx, arcs, merge)), 'the text encodes to the same arcs')
    ctx.check(ctx.eq(t.load(o.dump(force=True)).native, v), 'forced re-encoding keeps the identifier')
    ctx.reach('decoded')
    ctx.observe('v', v)


def is_dotted(ctx, s, merge):
    """grammar: decimal arcs separated by single dots"""
    n = len(s)
    ok = True
    digit = []
    for i in range(n):
        digit.append(ctx.all(s[i] >= '0', s[i] <= '9'))
    dots = [ctx.eq(s[i], '.') for i in range(n)]
    ok = ctx.all(n > 0, *[ctx.any(digit[i], dots[i]) for i in range(n)])
    for i in range(n):
        if i == 0 or i == n - 1:
            ok = ctx.all(ok, digit[i])
        else:
            ok = ctx.all(ok, ctx.any(digit[i], ctx.all(digit[i - 1], digit[i + 1])))
    if merge:
        ok = ctx.all(ok, ctx.any(False, *dots))
    return ok


def free_text(ctx, cls, n, ranges):
    """arbitrary text: only dotted identifiers are encoded"""
    core = ctx.lib.core
    z = zoo(ctx)
    t = {'ObjectIdentifier': core.ObjectIdentifier, 'RelativeOid': core.RelativeOid, 'OidT': z.OidT}[cls]
    merge = cls != 'RelativeOid'
    s = ctx.text('s', n, ranges)
    st, o = ctx.attempt(t, s)
    grammar = is_dotted(ctx, s, merge)
    named = ctx.any(False, *[ctx.eq(s, x) for x in t._map.values()]) if t._map else False
    if st == 'ok':
        ctx.check(ctx.any(grammar, named), 'text that is not a dotted identifier is refused')
        w = t.load(o.dump())
        ctx.check(ctx.eq(t(w.dotted).contents, o.contents), 'what is accepted decodes to an identifier with the same encoding')
        ctx.reach('accepted')
    else:
        ctx.check(isinstance(o, ValueError), 'refused with ValueError')
        ctx.check(ctx.not_(named), 'names are accepted')
        if not merge:
            ctx.check(ctx.not_(grammar), 'dotted text is accepted')
        ctx.reach('refused')
    if t._map:
        st2, u = ctx.attempt(t.unmap, s)
        plain = is_dotted(ctx, s, False)
        ctx.check(ctx.any(ctx.not_(st2 == 'ok'), plain, named), 'unmap only gives dotted identifiers')
        ctx.check(ctx.any(st2 == 'ok', ctx.not_(ctx.any(plain, named))), 'unmap passes dotted identifiers through')
        if st2 == 'ok':
            ctx.check(ctx.any(named, ctx.eq(u, s)), 'unmap passes dotted identifiers through unchanged')
        else:
            ctx.check(isinstance(u, ValueError), 'refused with ValueError')


def mapped(ctx, kind):
    mod, cls = kind.split('.')
    t = getattr(getattr(ctx.lib, mod), cls)
    pairs = sorted(t._map.items())
    i = ctx.int('i', 0, len(pairs) - 1)
    oid, name = ctx.get(pairs, i)
    # several identifiers may share a name; the name then stands for one of them
    same = [p[0] for p in pairs if p[1] == name]
    o = t(oid)
    ctx.check(o.dotted == oid, 'dotted form of an identifier')
    ctx.check(o.native == name, 'an identifier reads as its name')
    ctx.check(t.load(o.dump()).native == name, 'also when decoded')
    ctx.check(t.load(o.dump()).dotted == oid, 'dotted form when decoded')
    arcs = [int(x) for x in oid.split('.')]
    ctx.check(o.contents == ref_encode(ctx, arcs), 'base-128 encoding of the arcs')
    ctx.check(t.map(oid) == name, 'map gives the name')
    u = t.unmap(name)
    ctx.check(u in same, 'unmap gives an identifier of the name')
    b = t(name)
    ctx.check(b.native == name and b.dotted in same, 'a name encodes as its identifier')
    ctx.check(t.load(b.dump()).native == name, 'and decodes to the name')
    ctx.check(t.unmap(oid) == oid, 'unmap keeps a dotted identifier')
    ctx.reach('pair')


def kinds(tier):
    from pysym import instrument as I
    from pysym.harness import REPO
    lib = I.real_lib(REPO)
    out = []
    for m in MODULES[3:]:
        mod = getattr(lib, m)
        for k, v in sorted(vars(mod).items()):
            if isinstance(v, type) and issubclass(v, lib.core.ObjectIdentifier) and v._map and v.__module__.endswith('.' + m):
                out.append(dict(kind=m + '.' + k))
    return out


def text_cases(tier):
    out = []
    small = (0, 20000)
    for f in (0, 1, 2, 3):
        out.append(dict(cls='ObjectIdentifier', tops=[None, (0, 300)], first=f))
        out.append(dict(cls='ObjectIdentifier', tops=[None, (0, 50), (0, 300)], first=f))
    out.append(dict(cls='ObjectIdentifier', tops=[None], first=1))
    for lo in ((1 << 14) - 85, (1 << 21) - 85, (1 << 32) - 3, (1 << 64) - 3, (1 << 63) - 3) + (() if tier == 'quick' else ((1 << 28) - 85, (1 << 35) - 3, (1 << 128) - 3, (1 << 256) - 2)):
        out.append(dict(cls='ObjectIdentifier', tops=[None, (lo, lo + 90)], first=2))
        out.append(dict(cls='ObjectIdentifier', tops=[None, (5, 6), (lo, lo + 90)], first=2))
        out.append(dict(cls='RelativeOid', tops=[(lo, lo + 90)]))
    out.append(dict(cls='ObjectIdentifier', tops=[None, (0, 200), (0, 200), (0, 200)], first=2))
    out.append(dict(cls='RelativeOid', tops=[(0, 20000), (0, 200)]))
    if tier != 'quick':
        for f in (0, 1, 2):
            out.append(dict(cls='ObjectIdentifier', tops=[None, (0, 1 << 22), (0, 1 << 22), (0, 200)], first=f))
    return out


HARNESSES = [
    Harness('from_text', from_text, text_cases, ['encoded', 'refused'], bounds='up to 4 arcs, up to 2^64 (2^256)'),
    Harness('from_contents', from_contents, lambda tier: [dict(cls=c, n=n) for c in ('ObjectIdentifier', 'RelativeOid') for n in (
        (0, 1, 2, 3, 4) if tier == 'quick' else (0, 1, 2, 3, 4, 5, 6))] , ['decoded', 'refused'], bounds='contents up to 4 (6) octets'),
    Harness('free_text', free_text, lambda tier: [dict(cls=c, n=n, ranges=r) for c in ('ObjectIdentifier', 'RelativeOid', 'OidT') for n, r in (
        [(0, ((32, 126),)), (1, ((0, 0x10ffff),)), (2, ((0, 0x10ffff),)), (3, ((0, 0x10ffff),)), (4, ((45, 58),)), (5, ((46, 51),))] + (
            [] if tier == 'quick' else [(4, ((0, 0x10ffff),)), (5, ((9, 126),)), (6, ((46, 57),))]))], ['accepted', 'refused'],
            bounds='any text up to 3 (4) characters, digits and dots up to 5 (6)'),
    Harness('mapped', mapped, kinds, ['pair'], bounds='every entry of every identifier table'),
]
