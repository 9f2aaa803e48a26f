from pysym.harness import Harness
from hlib import encode, zoo

MODULES = ('core', 'parser', 'util', 'x509', '_iri', '_types', '_inet', 'algos', 'keys')


def types(ctx):
    c = ctx.lib.core
    if not hasattr(zoo(ctx), 'Doc'):
        z = zoo(ctx)

        class Doc(c.Sequence):
            _fields = [
                ('id', c.Integer),
                ('in', z.Inner, {'implicit': 0, 'default': {'x': 1}}),
                ('list', z.Ints, {'implicit': 1, 'optional': True}),
                ('subs', z.Inners, {'explicit': 2, 'optional': True}),
                ('alt', z.Alt, {'optional': True}),
                ('set', z.IntSet, {'implicit': 3, 'optional': True}),
                ('wrap', c.ParsableOctetString, {'implicit': 4, 'optional': True}),
                ('open', z.OpenTag, {'implicit': 5, 'optional': True}),
                ('bits', c.ParsableOctetBitString, {'implicit': 6, 'optional': True}),
                ('aset', z.ASet, {'implicit': 7, 'optional': True}),
            ]
        z.Doc = Doc
    return zoo(ctx)


# ---------------------------------------------------------------- the model: plain Python values

def inner(x, y=False):
    return {'x': x, 'y': y}


def start():
    return {'id': 3, 'in': inner(4), 'list': [1, 2, 1], 'subs': [inner(1, True), inner(2)], 'alt': ('seq', inner(6)), 'set': [3, 5],
            'wrap': inner(8), 'open': inner(9, True), 'bits': inner(10), 'aset': {'i': 1, 'o': b'q', 'b': True, 't': None}}


def bare():
    return {'id': 3, 'in': inner(1), 'list': None, 'subs': None, 'alt': None, 'set': None, 'wrap': None, 'open': None, 'bits': None, 'aset': None}


def num(ctx, n):
    """contents of an integer from -128 to 127"""
    return ctx.byte_str([n & 255])


def e_inner(ctx, d, tag=0x30):
    return (tag, [(2, num(ctx, d['x']))] + ([(1, b'\xff')] if d['y'] else []))


def nodes(ctx, m):
    """the structure the model has to be encoded as"""
    out = [(2, num(ctx, m['id']))]
    if ctx.any(m['in']['x'] != 1, m['in']['y']):
        out.append(e_inner(ctx, m['in'], 0xa0))
    if m['list'] is not None:
        out.append((0xa1, [(2, num(ctx, n)) for n in m['list']]))
    if m['subs'] is not None:
        out.append((0xa2, [(0x30, [e_inner(ctx, d) for d in m['subs']])]))
    if m['alt'] is not None:
        k, v = m['alt']
        out.append({'num': lambda: (2, num(ctx, v)), 'exp': lambda: (0xa1, [(2, num(ctx, v))]), 'seq': lambda: e_inner(ctx, v),
                    'lst': lambda: (0xa2, [(2, num(ctx, n)) for n in v]), 'oct': lambda: (0x80, v)}[k]())
    if m['set'] is not None:
        s = list(m['set'])
        if len(s) == 2 and (s[1] & 255) < (s[0] & 255):
            s.reverse()
        assert len(s) < 4
        if len(s) == 3:
            s = sorted([n & 255 for n in s])
        out.append((0xa3, [(2, num(ctx, n)) for n in s]))
    if m['wrap'] is not None:
        out.append((0x84, encode(e_inner(ctx, m['wrap']))))
    if m['open'] is not None:
        out.append((0xa5, [(6, b'\x2a\x04'), (0xa0, [e_inner(ctx, m['open'])])]))
    if m['bits'] is not None:
        out.append((0x86, b'\x00' + encode(e_inner(ctx, m['bits']))))
    if m['aset'] is not None:
        a = m['aset']
        ps = [(1, b'\xff')] if a['b'] else []
        ps.append((2, num(ctx, a['i'])))
        if a['t'] is not None:
            ps.append((0xa0, [(12, a['t'].encode('utf-8'))]))
        ps.append((0x81, a['o']))
        out.append((0xa7, ps))
    return (0x30, out)


def native(m):
    out = dict(m)
    if m['alt'] is not None:
        out['alt'] = m['alt'][1]
    if m['open'] is not None:
        out['open'] = {'t': 'seq', 'v': m['open']}
    return out


def plain(x):
    if isinstance(x, dict):
        return dict((k, plain(v)) for k, v in x.items())
    if isinstance(x, list):
        return [plain(v) for v in x]
    return x


# ---------------------------------------------------------------- changes: (name, needs, function(ctx, doc, model, value))

def op_id(d, m, n):
    d['id'] = n
    m['id'] = n


def op_in_set(d, m, n):
    d['in'] = {'x': n, 'y': True}
    m['in'] = inner(n, True)


def op_in_x(d, m, n):
    d['in']['x'] = n
    m['in']['x'] = n


def op_in_y(d, m, n):
    d['in']['y'] = True
    m['in']['y'] = True


def op_in_ydel(d, m, n):
    del d['in']['y']
    m['in']['y'] = False


def op_in_del(d, m, n):
    del d['in']
    m['in'] = inner(1)


def op_list_new(d, m, n):
    d['list'] = [n]
    m['list'] = [n]


def op_list_empty(d, m, n):
    d['list'] = []
    m['list'] = []


def op_list_append(d, m, n):
    d['list'].append(n)
    m['list'].append(n)


def op_list_0(d, m, n):
    d['list'][0] = n
    m['list'][0] = n


def op_list_end(d, m, n):
    d['list'][len(m['list'])] = n
    m['list'].append(n)


def op_list_del(d, m, n):
    del d['list'][0]
    del m['list'][0]


def op_list_pop(d, m, n):
    del d['list'][len(m['list']) - 1]
    del m['list'][-1]


def op_subs_pop(d, m, n):
    del d['subs'][-1]
    del m['subs'][-1]


def op_list_none(d, m, n):
    del d['list']
    m['list'] = None


def op_subs_append(d, m, n):
    d['subs'].append({'x': n})
    m['subs'].append(inner(n))


def op_subs_x(d, m, n):
    d['subs'][0]['x'] = n
    m['subs'][0]['x'] = n


def op_subs_y(d, m, n):
    d['subs'][-1]['y'] = False
    m['subs'][-1]['y'] = False


def op_subs_del(d, m, n):
    del d['subs'][0]
    del m['subs'][0]


def op_subs_swap(d, m, n):
    a, b = d['subs'][0], d['subs'][1]
    d['subs'][0] = b
    d['subs'][1] = a
    m['subs'][0], m['subs'][1] = m['subs'][1], m['subs'][0]


def op_subs_new(d, m, n):
    d['subs'] = [{'x': n, 'y': True}]
    m['subs'] = [inner(n, True)]


def op_alt_num(d, m, n):
    d['alt'] = {'num': n}
    m['alt'] = ('num', n)


def op_alt_exp(d, m, n):
    d['alt'] = ('exp', n)
    m['alt'] = ('exp', n)


def op_alt_seq(d, m, n):
    d['alt'] = ('seq', {'x': n, 'y': True})
    m['alt'] = ('seq', inner(n, True))


def op_alt_lst(d, m, n):
    d['alt'] = ('lst', [n])
    m['alt'] = ('lst', [n])


def op_alt_inside(d, m, n):
    k, v = m['alt']
    if k == 'seq':
        d['alt'].chosen['x'] = n
        v['x'] = n
    elif k == 'lst':
        d['alt'].chosen.append(n)
        v.append(n)


def op_alt_none(d, m, n):
    d['alt'] = None
    m['alt'] = None


def op_set_append(d, m, n):
    d['set'].append(n)
    m['set'].append(n)


def op_set_0(d, m, n):
    d['set'][0] = n
    m['set'][0] = n


def op_set_del(d, m, n):
    del d['set'][0]
    del m['set'][0]


def op_set_new(d, m, n):
    d['set'] = [n, 1]
    m['set'] = [n, 1]


def op_wrap_x(d, m, n):
    d['wrap'].parsed['x'] = n
    m['wrap']['x'] = n


def op_bits_x(d, m, n):
    d['bits'].parsed['x'] = n
    m['bits']['x'] = n


def op_open_x(d, m, n):
    d['open']['v']['x'] = n
    m['open']['x'] = n


def op_open_v(d, m, n):
    d['open']['v'] = {'x': n}
    m['open'] = inner(n)


def op_open_none(d, m, n):
    d['open'] = None
    m['open'] = None


def op_aset_i(d, m, n):
    d['aset']['i'] = n
    m['aset']['i'] = n


def op_aset_t(d, m, n):
    d['aset']['t'] = 'x'
    m['aset']['t'] = 'x'


def op_aset_b(d, m, n):
    del d['aset']['b']
    m['aset']['b'] = False


def op_bad_id(d, m, n):
    try:
        d['id'] = 'text'
    except (TypeError, ValueError):
        return
    raise AssertionError('accepted')


def op_bad_list(d, m, n):
    try:
        d['list'].append('text')
    except (TypeError, ValueError):
        return
    raise AssertionError('accepted')


def op_bad_in(d, m, n):
    try:
        d['in'] = {'z': n}
    except ValueError:
        return
    raise AssertionError('accepted')


def op_bad_del(d, m, n):
    try:
        del d['id']
    except ValueError:
        return
    raise AssertionError('accepted')


def read_none(d):
    pass


def read_native(d):
    d.native


def read_dump(d):
    d.dump()


def read_force(d):
    d.dump(force=True)


def read_parts(d):
    """each part on its own"""
    for k in d:
        d[k].contents
        d[k].native
    len(d)


def read_inner(d):
    """encoded from the inside out, so that outer structures must notice later"""
    for k in ('in', 'list', 'subs', 'set', 'open', 'aset'):
        if d[k].native is not None:
            d[k].dump()
    if d['subs'].native:
        d['subs'][0].dump()
    if d['wrap'].native is not None:
        d['wrap'].parsed.dump()
    if d['alt'].native is not None:
        d['alt'].chosen.dump()


READS = {'none': read_none, 'native': read_native, 'dump': read_dump, 'force': read_force, 'parts': read_parts, 'inner': read_inner}
NEEDS = {'list_append': 'list', 'list_0': 'list', 'list_end': 'list', 'list_del': 'list', 'list_pop': 'list', 'subs_pop': 'subs', 'subs_append': 'subs', 'subs_x': 'subs', 'subs_y': 'subs',
         'subs_del': 'subs', 'subs_swap': 'subs', 'alt_inside': 'alt', 'set_append': 'set', 'set_0': 'set', 'set_del': 'set', 'wrap_x': 'wrap', 'bits_x': 'bits',
         'open_x': 'open', 'open_v': 'open', 'aset_i': 'aset', 'aset_t': 'aset', 'aset_b': 'aset', 'bad_list': 'list'}
OPS = dict((k[3:], v) for k, v in globals().items() if k.startswith('op_'))


def usable(name, m):
    f = NEEDS.get(name)
    if f is None:
        return True
    if m[f] is None:
        return False
    if name == 'subs_swap':
        return len(m[f]) > 1
    if name == 'subs_append':
        return len(m[f]) < 3
    if name == 'set_append':
        return len(m[f]) < 3
    if name.endswith(('_del', '_pop')) or name in ('list_0', 'subs_x', 'subs_y', 'set_0'):
        return len(m[f]) > 0
    if name == 'alt_inside':
        return m[f][0] in ('seq', 'lst')
    return True


def build(d, m, k):
    if k == 'alt':
        return m[k]
    if k == 'open':
        return {'t': 'seq', 'v': m[k]}
    return m[k]


def begin(ctx, how, m):
    z = types(ctx)
    if how == 'built':
        vals = {}
        for k in m:
            if m[k] is None:
                continue
            if k in ('wrap', 'bits'):
                w = z.Inner(m[k])
                vals[k] = getattr(ctx.lib.core, 'ParsableOctetString' if k == 'wrap' else 'ParsableOctetBitString')(parsed=w)
            elif k == 'alt':
                vals[k] = z.Alt(*m[k])
            elif k == 'open':
                vals[k] = {'t': 'seq', 'v': m[k]}
            elif k == 'aset':
                vals[k] = dict((a, b) for a, b in m[k].items() if b is not None)
            else:
                vals[k] = m[k]
        return z.Doc(vals)
    d = z.Doc.load(encode(nodes(ctx, m), 'indefs' if how == 'indef' else 'min'))
    for k in ('wrap', 'bits'):
        if m[k] is not None:
            d[k].parse(z.Inner)
    return d


def check_all(ctx, d, m, first, how):
    want = encode(nodes(ctx, m))
    loose = how == 'indef'
    wn = native(m)

    def by_native():
        got = plain(d.native)
        if m['set'] is not None:
            # no order
            ctx.check(ctx.eq(sorted(got['set']), sorted(m['set'])), 'the native value of the set')
            got['set'] = wn['set'] = None
        ctx.check(ctx.eq(got, wn), 'the native value')

    def by_dump():
        out = d.dump()
        if loose:
            # what was not changed may still be in the form it was received in
            e = types(ctx).Doc.load(out, strict=True)
            out = e.dump(force=True)
        ctx.check(ctx.eq(out, want), 'the encoding')

    def by_parts():
        for k in ('id', 'in', 'list', 'subs', 'alt', 'wrap', 'open', 'bits', 'aset'):
            ctx.check(ctx.eq(plain(d[k].native), wn[k]), 'the field ' + k)
        for k in ('list', 'subs', 'set'):
            if m[k] is not None:
                ctx.check(len(d[k]) == len(m[k]), 'the length of ' + k)
        if m['list']:
            ctx.check(ctx.eq([i.native for i in d['list']], m['list']), 'the items')
        if m['subs']:
            ctx.check(ctx.eq(d['subs'][-1]['x'].native, m['subs'][-1]['x']), 'the last item')

    def by_contents():
        if loose:
            return
        ctx.check(ctx.eq(d.contents, want[len(want) - len(d.contents):]), 'the contents')
        ctx.check(len(want) - len(d.contents) < 4 , 'all of the contents')

    def by_force():
        nonlocal loose
        ctx.check(ctx.eq(d.dump(force=True), want), 'the forced encoding')
        loose = False

    order = [by_native, by_dump, by_parts, by_contents, by_force]
    k = {'native': 0, 'dump': 1, 'parts': 2, 'contents': 3, 'force': 4}[first]
    for f in order[k:] + order[:k]:
        f()
    by_dump()
    # and whoever receives it reads the same
    e = types(ctx).Doc.load(want)
    for k in ('wrap', 'bits'):
        if m[k] is not None:
            e[k].parse(types(ctx).Inner)
    ctx.check(ctx.eq(plain(e['in'].native), m['in']), 'decodes to the same')


def history(ctx, how, reads, ops, first, n, part=None):
    """a sequence of changes with reads in between; ops names the first changes, the others are any"""
    m = start() if how != 'bare' else bare()
    d = begin(ctx, 'loaded' if how == 'bare' else how, m)
    for i in range(n):
        READS[reads[i % len(reads)]](d)
        if i < len(ops):
            name = ops[i]
        else:
            name = ctx.choice('op%d' % i, [x for x in sorted(OPS) if part is None or x.startswith(part)])
        if not usable(name, m):
            return
        v = ctx.int('n%d' % i, -128, 127) if n == 1 else ctx.int('n%d' % i, 1, 127)
        OPS[name](d, m, v)
    check_all(ctx, d, m, first, how)
    ctx.reach('changed')


def shared(ctx, how, reads):
    """one value that is part of two structures, and of one that is part of another"""
    z = types(ctx)
    part = z.Inner({'x': 1})
    if how == 'loaded':
        part = z.Inner.load(encode(e_inner(ctx, inner(1))))
    a = z.Nest({'s': {'a': 1, 'f': part}, 'l': [1], 'n': [part]})
    b = z.Inners([part, {'x': 5}])
    alt = z.Alt('seq', part)
    o = z.Opt({'a': 2})
    READS['dump' if reads == 'dump' else 'none'](a)
    if reads == 'native':
        a.native, b.native, alt.native
    n = ctx.int('n', -128, 127)
    own = a['n'][0]
    if ctx.bool('second'):
        b[0]['x'] = n
    else:
        part['x'] = n
    if reads == 'part':
        part.dump()
    e = encode(e_inner(ctx, inner(n)))
    first = ctx.choice('first', ['a', 'b', 'alt'])
    if first == 'alt':
        ctx.check(ctx.eq(alt.dump(), e), 'the choice')
    if first == 'b':
        ctx.check(ctx.eq(b.dump(), encode((0x30, [e_inner(ctx, inner(n)), e_inner(ctx, inner(5))]))), 'the second structure')
    if own is part:
        ctx.check(ctx.eq(a['n'].dump(), encode((0x30, [e_inner(ctx, inner(n))]))), 'the list in the first structure')
        ctx.check(ctx.eq(a['n'].native[0]['x'], n), 'natively')
    ctx.check(ctx.eq(b.dump(), encode((0x30, [e_inner(ctx, inner(n)), e_inner(ctx, inner(5))]))), 'the second structure')
    ctx.check(ctx.eq(b.native[0]['x'], n), 'natively')
    ctx.check(ctx.eq(alt.dump(), e), 'the choice')
    ctx.check(ctx.eq(alt.native['x'], n), 'natively')
    ctx.reach('changed')


def widths(ctx, how, k):
    """a change that makes the length octets of every enclosing structure longer or shorter"""
    z = types(ctx)
    size = ctx.choice('size', [0, 1, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257])
    old = b'\x07' * k
    fill = ctx.bytes('fill', 1) * size

    def enc(o):
        return encode((0x30, [(0x30, [(2, b'\x01'), (4, o)]), (0x30, [(2, b'\x05')])]))
    if how == 'built':
        d = z.Nest({'s': {'a': 1, 'b': old}, 'l': [5]})
    else:
        d = z.Nest.load(enc(old))
    ctx.check(ctx.eq(d.dump(), enc(old)), 'before')
    d['s']['b'] = fill
    ctx.check(ctx.eq(d.dump(), enc(fill)), 'after')
    ctx.check(ctx.eq(d['s']['b'].native, fill), 'the field')
    ctx.check(ctx.eq(d.native['s']['b'], fill), 'natively')
    ctx.reach('changed')


def name(ctx, how, before, op):
    """distinguished names and what is derived from them"""
    x = ctx.lib.x509
    a = ctx.text('a', 2, [(97, 122), (32, 32)])
    b = ctx.text('b', 2, [(97, 122), (44, 44)])
    c = ctx.text('c', 1, [(65, 90)])
    v = x.Name.build({'country_name': 'US', 'common_name': a, 'title': 'Dr'})
    if how == 'loaded':
        v = x.Name.load(v.dump())
    if before == 'all':
        v.native, v.human_friendly, v.hashable, v == v
    elif before == 'native':
        v.native
    elif before == 'hash':
        v.hashable, v.dump()
    rdns = v.chosen
    k = [i for i in range(3) if rdns[i][0]['type'].native == 'common_name'][0]
    other = {'country_name': 'US', 'common_name': a, 'title': 'Dr'}
    new = x.DirectoryString('utf8_string', ctx.lib.core.UTF8String(b))
    if op == 'value':
        rdns[k][0]['value'] = new
        other['common_name'] = b
    elif op == 'delete':
        del rdns[k]
        del other['common_name']
    elif op == 'append':
        rdns.append(x.RelativeDistinguishedName([x.NameTypeAndValue({'type': 'given_name', 'value': new})]))
        other = None
    else:
        rdns[k] = x.RelativeDistinguishedName([x.NameTypeAndValue({'type': 'common_name', 'value': new})])
        other['common_name'] = b
    w = x.Name.load(v.dump())
    if other is not None:
        ctx.check(ctx.eq(v.dump(), x.Name.build(other).dump()), 'the encoding')
    else:
        ctx.check(ctx.eq(w.chosen[3][0]['value'].native, b), 'the encoding')
    for f in ('native', 'hashable', 'human_friendly'):
        ctx.check(ctx.eq(plain(getattr(v, f)), plain(getattr(w, f))), f + ' as of the name decoded anew')
    ctx.check(ctx.all(v == w, w == v), 'equal to the name decoded anew')
    ctx.check(len(v) == len(w), 'the same length')
    ctx.reach('changed')


def cases(tier):
    out = []
    firsts = ['native', 'dump', 'parts', 'contents', 'force']
    rs = sorted(READS)
    hows = ['built', 'loaded', 'indef', 'bare']
    names = sorted(OPS)
    k = 0
    # every single change after every kind of reading
    for how in hows:
        for r in rs:
            for op in names:
                if how == 'bare' and op in NEEDS:
                    continue
                for f in (firsts if tier != 'quick' else [firsts[k % 5]]):
                    out.append(dict(how=how, reads=(r,), ops=(op,), first=f, n=1))
                k += 1
    # every two changes
    k = 0
    for op in names:
        for j in range(3 if tier == 'quick' else 24):
            if tier == 'quick':
                how, r1, r2 = hows[k % 3], rs[(k * 5 + j) % 6], rs[(k + 2 * j) % 6]
            else:
                how, r1, r2 = hows[j % 4], rs[j // 4], rs[(j + k) % 6]
            k += 1
            if how == 'bare' and op in NEEDS:
                continue
            out.append(dict(how=how, reads=(r1, r2), ops=(op,), first=firsts[k % 5], n=2))
    if tier != 'quick':
        # three changes of one part
        for part in ('in', 'list', 'subs', 'alt', 'set', 'open', 'aset'):
            mine = [x for x in names if x.startswith(part)]
            for a in mine:
                for b in mine:
                    for j in range(3):
                        k += 1
                        out.append(dict(how=hows[k % 3], reads=(rs[k % 6], rs[(k // 6) % 6], rs[(k // 36) % 6]), ops=(a, b), first=firsts[k % 5], n=3, part=part))
    return out


HARNESSES = [
    Harness('history', history, cases, ['changed'],
            bounds='every single change and every two changes (out of %d kinds, with any values) of a structure with defaults, optional fields, lists, sets, choices, '
            'open types and parsed strings; built, loaded from DER or from indefinite lengths; with reads of six kinds before and between' % len(OPS)),
    Harness('shared', shared, [dict(how=h, reads=r) for h in ('built', 'loaded') for r in ('none', 'dump', 'native', 'part')], ['changed'],
            bounds='one value in a field, a list and a choice at once'),
    Harness('widths', widths, [dict(how=h, k=k) for h in ('built', 'loaded') for k in (0, 3, 130)], ['changed'],
            bounds='contents growing and shrinking across the 127/128 and 255/256 octet boundaries of two enclosing lengths'),
    Harness('name', name, [dict(how=h, before=b, op=o) for h in ('built', 'loaded') for b in ('none', 'native', 'hash', 'all') for o in ('value', 'delete', 'append', 'replace')],
            ['changed'], bounds='names of three attributes, texts of two characters'),
]
