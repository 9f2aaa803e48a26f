"""C31: results do not depend on the order in which lazily parsed parts are read"""
import copy

from pysym.harness import Harness
from hlib import named, encode, tree, leaves, nodes_of, at, replace, zoo, templates, template, walk
from C03 import STRUCTS, PRIMS
from C14 import types, start, nodes, plain
from C30 import HOSTS, ext
from C18 import samples, type_of, properties, TEXT

MODULES = ('core', 'parser', 'util', 'x509', 'cms', 'crl', 'csr', 'ocsp', 'keys', 'algos', 'tsp', 'pkcs12', 'pdf', '_iri', '_inet', '_types')


# --- what one read shows --------------------------------------------------

def shown(ctx, r, indef, depth=0):
    """a result, as something that can be compared; parts received in the indefinite form are encoded afresh by dump()"""
    core = ctx.lib.core
    if isinstance(r, (core.Asn1Value, core.Concat)):
        if indef:
            st, d = ctx.attempt(lambda: plain(r.native))
        else:
            st, d = ctx.attempt(r.dump)
        return [type(r).__name__, st, d if st == 'ok' else type(d).__name__]
    if depth < 6 and isinstance(r, (list, tuple)) and type(r) in (list, tuple):
        return [shown(ctx, x, indef, depth + 1) for x in r]
    return plain(r)


def into(ctx, v, path):
    """the part at a path of indices; alternatives and parsed contents are entered"""
    core = ctx.lib.core
    for i in path:
        v = inside(ctx, v)
        v = v[i]
    return v


def inside(ctx, v):
    core = ctx.lib.core
    while True:
        if isinstance(v, core.Choice):
            v = v.chosen
        elif isinstance(v, core.Any) or getattr(v, '_parsed', None) is not None:
            v = v.parsed
        else:
            return v


def fields_of(v):
    return [[k, v[k]] for k in v]


READS = {
    'native': lambda ctx, v: v.native,
    'dump': lambda ctx, v: v.dump(),
    'force': lambda ctx, v: v.dump(force=True),
    'contents': lambda ctx, v: v.contents,
    'len': lambda ctx, v: len(v),
    'fields': lambda ctx, v: fields_of(v),
    'items': lambda ctx, v: [x for x in v],
    'walk': lambda ctx, v: walk(ctx, v),
    'copy': lambda ctx, v: v.copy(),
    'deepcopy': lambda ctx, v: copy.deepcopy(v).native,
    'bytes': lambda ctx, v: ctx.method(v, '__bytes__'),
    'chosen': lambda ctx, v: [v.name, v.chosen],
    'parsed': lambda ctx, v: v.parsed,
    'untag': lambda ctx, v: v.untag(),
    'retag': lambda ctx, v: v.retag({'explicit': 3}),
    'element': lambda ctx, v: [v.class_, v.method, v.tag, len(v.contents)],
}


def look(ctx, v, read, indef=False):
    """('ok', what is shown) or ('err', the kind of exception)"""
    how, path = read[0], read[1] if len(read) > 1 else ()

    def f():
        w = into(ctx, v, path)
        if how == 'native' and isinstance(w, (ctx.lib.core.ParsableOctetString, ctx.lib.core.ParsableOctetBitString)) and getattr(w, '_parsed', None) is None:
            return w.dump()
        return READS[how](ctx, w) if how in READS else getattr(w, how)

    st, r = ctx.attempt(f)
    if st == 'err':
        return ['err', type(r).__name__]
    return ['ok', shown(ctx, r, indef)]


def same(ctx, a, b):
    return a[0] == b[0] and ctx.eq(a[1], b[1])


def through(ctx, fresh, reads, first, indef=False, want=None):
    """the given read, then all the others in order (and in reverse order), then the given one again"""
    base = [look(ctx, fresh(), r, indef) for r in reads]
    n = len(reads)
    for step in (1, -1):
        v = fresh()
        for d in list(range(n)) + [0]:
            k = (first + d * step) % n
            ctx.check(same(ctx, look(ctx, v, reads[k], indef), base[k]), '%s depends on what was read before' % (reads[k],))
        if want is not None:
            ctx.check(ctx.eq(v.dump(), want), 'reading alters what is dumped')
    outcomes(ctx, base)


def outcomes(ctx, base):
    oks = [b[0] for b in base]
    if 'ok' in oks:
        ctx.reach('shown')
    if 'err' in oks:
        ctx.reach('refused')


def orders(ctx, fresh, reads, first, third=True, indef=False, want=None):
    """after any one or two reads (the first one given) another one shows what it shows on a fresh value"""
    base = [look(ctx, fresh(), r, indef) for r in reads]
    for j in range(len(reads)):
        v = fresh()
        r1 = look(ctx, v, reads[first], indef)
        ctx.check(same(ctx, r1, base[first]), '%s differs between two fresh values' % (reads[first],))
        r2 = look(ctx, v, reads[j], indef)
        ctx.check(same(ctx, r2, base[j]), '%s after %s differs from %s alone' % (reads[j], reads[first], reads[j]))
        if not third:
            r3 = look(ctx, v, reads[first], indef)
            ctx.check(same(ctx, r3, base[first]), '%s again after %s differs' % (reads[first], reads[j]))
        for k in range(len(reads)) if third else ():
            if k:
                v = fresh()
                look(ctx, v, reads[first], indef)
                look(ctx, v, reads[j], indef)
            r3 = look(ctx, v, reads[k], indef)
            ctx.check(same(ctx, r3, base[k]), '%s after %s and %s differs from %s alone' % (reads[k], reads[first], reads[j], reads[k]))
        if want is not None:
            ctx.check(ctx.eq(v.dump(), want), 'reading alters what is dumped')
    outcomes(ctx, base)


# --- structures of the library's building blocks --------------------------

DOC = [['native'], ['dump'], ['fields'], ['copy'], ['len'], ['contents'], ['walk'],
       ['native', (1,)], ['items', (2,)], ['native', (3,)], ['dump', (3, 0)], ['native', (3, 1, 0)], ['chosen', (4,)], ['native', (4, 0)],
       ['items', (5,)], ['fields', (7,)], ['native', (7, 1, 0)], ['fields', (9,)], ['copy', (9,)], ['deepcopy']]


def doc(ctx, form, leaf, first, broken=None, few=True):
    """every component of a structure with one of each kind of part, any value in one of them"""
    z = types(ctx)
    n = nodes(ctx, start())
    path = doc_leaves(ctx)[leaf]
    old = at([n], path)
    if broken is None:
        b = ctx.int('leaf', 0, 255)
        new = (old[0], ctx.byte_str([b])) if len(old[1]) == 1 else (old[0], old[1][:-1] + ctx.byte_str([b]))
    elif broken == 'identifier':
        b = ctx.bytes('id', 1)
        ctx.assume(b[0] & 31 != 31)
        if few:
            ctx.assume(b[0] & 0xf0 == (0, 0x80, 0x30, 0xa0)[leaf % 4])
        new = (b, old[1])
    else:
        new = (old[0], ctx.bytes('part', broken))
    data = encode(replace([n], path, new)[0], form)
    indef = form == 'indefs'
    use = [r for r in DOC if not indef or r[0] not in ('contents', 'copy', 'deepcopy') and (r[0] != 'dump' or len(r) == 1)]

    def fresh():
        return z.Doc.load(data)
    if ctx.attempt(fresh)[0] == 'err':
        ctx.reach('refused')
        return
    if broken is None:
        orders(ctx, fresh, use, first % len(use), third=False, indef=indef, want=None if indef else data)
    else:
        through(ctx, fresh, use, first % len(use), indef=indef)


def doc_leaves(ctx):
    n = nodes(ctx, start())
    return leaves([n])


def part_of(path):
    return path[1:2]


def triple(ctx, form, leaf, first):
    z = types(ctx)
    n = nodes(ctx, start())
    path = doc_leaves(ctx)[leaf]
    old = at([n], path)
    data = encode(replace([n], path, (old[0], old[1][:-1] + ctx.bytes('leaf', 1)))[0], form)
    indef = form == 'indefs'
    few = [['native'], ['dump'], ['fields'], ['walk']] + ([['items', (5,)], ['chosen', (4,)], ['len']] if indef else [['copy'], ['contents'], ['dump', part_of(path)]]) + [['native', part_of(path)]]
    orders(ctx, lambda: z.Doc.load(data), few, first, indef=indef, want=None if indef else data)


def structure(ctx, cls, shape, form, first):
    """the small structures of C03, any octets in the parts given as lengths"""
    z = zoo(ctx)
    t = getattr(z, cls)
    parts = b''
    for i, (fo, c, f) in enumerate(shape):
        body = c if type(c) is bytes else ctx.bytes('p%d' % i, c)
        parts = parts + encode((fo, body), 'min')
    core = ctx.lib.core
    if issubclass(t, core.Choice):
        data = parts
    else:
        head = 0x31 if issubclass(t, (core.Set, core.SetOf)) else 0x30
        data = bytes([head, 0x80]) + parts + b'\0\0' if form == 'indef' else bytes([head, len(parts)]) + parts
    reads = [['native'], ['dump'], ['copy'], ['contents'], ['walk']]
    if issubclass(t, core.Choice):
        reads += [['chosen'], ['untag']]
    else:
        reads += [['items'], ['len']]
        reads += [[h, (i,)] for i in range(min(len(shape), 2)) for h in (('native', 'dump') if i else ('native',))]
        if issubclass(t, core.Sequence):
            reads += [['fields']]
    if ctx.attempt(t.load, data)[0] == 'err':
        ctx.reach('refused')
        return
    indef = form == 'indef'
    if indef:
        reads = [r for r in reads if r[0] not in ('contents', 'copy') and (r[0] != 'dump' or len(r) == 1)]
    through(ctx, lambda: t.load(data), reads, first % len(reads), indef=indef)


def primitive(ctx, cls, n, kind):
    """a value that keeps what it worked out"""
    core = ctx.lib.core
    t = getattr(core, cls)
    c = ctx.bytes('contents', n)
    if kind == 'chunks':
        k = n // 2
        bits = cls.endswith('BitString')
        if bits:
            ctx.assume(n >= 2)
        tag = bytes([t.tag])
        data = bytes([t.tag | 0x20, 0x80]) + tag + bytes([k]) + c[:k] + tag + bytes([n - k]) + c[k:] + b'\0\0'
    elif kind == 'explicit':
        data = encode((0xa5, encode((t.tag, c))))
    else:
        data = encode((t.tag, c))
    kw = {'explicit': 5} if kind == 'explicit' else {}
    reads = [['native'], ['dump'], ['copy'], ['untag'], ['retag']]
    if kind != 'chunks':
        reads += [['contents'], ['element']]
    if cls in ('OctetString', 'ParsableOctetString', 'OctetBitString', 'ParsableOctetBitString'):
        reads.append(['bytes'])
    if cls in ('UTCTime', 'GeneralizedTime', 'ObjectIdentifier', 'BitString', 'IntegerBitString', 'OctetBitString'):
        reads += [[p] for p in properties(t)[0] if p in ('dotted', 'unused_bits')]
    if ctx.attempt(lambda: t.load(data, **kw))[0] == 'err':
        ctx.reach('refused')
        return
    for first in range(len(reads)):
        orders(ctx, lambda: t.load(data, **kw), reads, first, third=n < 2)


def untyped(ctx, n, first, deep):
    """bytes read without a type, or as Any"""
    core = ctx.lib.core
    data = ctx.bytes('data', n)
    how = first % 2
    reads = [['native'], ['dump'], ['copy'], ['contents'], ['element']] if how else [['native'], ['dump'], ['copy'], ['parsed'], ['contents']]

    def fresh():
        return core.load(data) if how else core.Any.load(data)
    if ctx.attempt(fresh)[0] == 'err':
        ctx.reach('refused')
        return
    if deep:
        orders(ctx, fresh, reads, first // 2, third=True)
    else:
        through(ctx, fresh, reads, first // 2)


def anyvalue(ctx, kind, contents):
    """contents interpreted as one type after another, as asked for"""
    core, z = ctx.lib.core, zoo(ctx)
    part = ctx.bytes('part', contents)
    inner = b'\x30' + bytes([contents + 2, 2, contents]) + part
    specs = [None, z.Inner, z.Ints, core.Sequence, z.Opt, core.OctetString, z.Inners]
    if kind == 'any':
        class Holder(core.Sequence):
            _fields = [('any', core.Any)]
        fresh = lambda: Holder.load(encode((0x30, inner)))['any']
    elif kind == 'octets':
        fresh = lambda: core.ParsableOctetString.load(encode((4, inner)))
    else:
        fresh = lambda: core.ParsableOctetBitString.load(encode((3, b'\0' + inner)))

    def ask(v, s):
        def f():
            w = v.parse(s) if s is not None else v.parse()
            return [w, w.native]
        st, r = ctx.attempt(f)
        return ['err', type(r).__name__] if st == 'err' else ['ok', shown(ctx, r, False)]
    base = [ask(fresh(), s) for s in specs]
    for i in range(len(specs)):
        for j in range(len(specs)):
            v = fresh()
            old = v.dump()
            ask(v, specs[i])
            ctx.check(same(ctx, ask(v, specs[j]), base[j]), 'contents parsed as one type depend on what they were parsed as before')
            for k in (0, 1, (i + j) % len(specs)):
                ctx.check(same(ctx, ask(v, specs[k]), base[k]), 'contents parsed as one type depend on what they were parsed as before')
            ctx.check(ctx.eq(v.dump(), old), 'parsing alters what is dumped')
            ctx.check(ctx.eq(v.copy().dump(), old), 'parsing alters what is copied')
    ctx.reach('shown')


# --- the structures the library defines -----------------------------------

def sample(ctx, name, label, part, rest, broken=None):
    """every type of the library: its properties, fields and encoding, in pairs"""
    core = ctx.lib.core
    t = type_of(ctx, name)
    data = samples()[name][label]
    if part is not None:
        ns = tree(data)
        fo, c = at(ns, part)
        if broken is None:
            c = c[:-1] + ctx.bytes('part', 1)
        else:
            c = ctx.bytes('part', broken)
        data = encode(replace(ns, part, (fo, c))[0])

    def fresh():
        return t.load(data)
    st, v = ctx.attempt(fresh)
    if st == 'err':
        ctx.reach('refused')
        return
    skip = ('parsed', 'debug', 'children')
    reads = [['native'], ['dump'], ['copy'], ['contents']]
    reads += [[p] for p in properties(t)[0] if p not in skip and p not in ('native', 'contents') and [p] not in reads]
    if isinstance(v, core.Sequence):
        reads += [['fields']]
        reads += [[h, (i,)] for i in range(len(t._fields)) for h in ('native', 'dump')][:8]
    elif isinstance(v, core.SequenceOf):
        reads += [['items'], ['len']]
    elif isinstance(v, core.Choice):
        reads += [['chosen']]
    base = [look(ctx, fresh(), r) for r in reads]
    for i in range(len(reads)):
        # one order for all pairs: i first, then all the others; and i last
        v = fresh()
        n = len(reads)
        seq = [i] + [(i + d * (1 if rest == 'forwards' else -1)) % n for d in range(1, n)] + [i]
        for k in seq:
            r = look(ctx, v, reads[k])
            ctx.check(same(ctx, r, base[k]), '%s of %s depends on what was read before' % (reads[k], name))
    ctx.reach('shown')
    if 'err' in [b[0] for b in base]:
        ctx.reach('refused')


def real(ctx, name, part, reads):
    """real structures: any two parts in any order"""
    t, data = template(ctx, name)
    ns = tree(data)
    fo, c = at(ns, part)
    data = encode(replace(ns, part, (fo, c[:-1] + ctx.bytes('part', 1)))[0])
    if ctx.attempt(t.load, data)[0] == 'err':
        ctx.reach('refused')
        return
    use = [['native'], ['dump'], ['walk'], ['copy'], ['contents']] + [[h, tuple(p)] for p in reads for h in ('native', 'dump')]
    use += [[p] for p in properties(t)[0] if p not in ('native', 'contents', 'parsed', 'debug', 'children')]
    base = [look(ctx, t.load(data), r) for r in use]
    for i in range(len(use)):
        v = t.load(data)
        for k in [i] + [(i * 3 + 7 * d) % len(use) for d in range(6)] + [i]:
            ctx.check(same(ctx, look(ctx, v, use[k]), base[k]), '%s of %s depends on what was read before' % (use[k], name))
    ctx.reach('shown')


# --- a read that fails half way -------------------------------------------

def interrupted(ctx, kind, where, reads):
    """a type chosen by the caller's own function, which fails the first time"""
    core, z = ctx.lib.core, zoo(ctx)
    state = {'fail': True}
    errors = {'key': KeyError, 'value': ValueError, 'type': TypeError, 'attribute': AttributeError, 'runtime': RuntimeError}

    def pick(self):
        if state['fail']:
            raise errors[kind]('not now')
        return core.Integer

    fields = [('a', core.Integer), ('b', core.Any), ('c', core.Integer, {'optional': True})]

    class Picked(core.Sequence if where != 'set' else core.Set):
        _fields = [('a', core.Integer), ('b', core.Any), ('c', core.Boolean, {'optional': True})] if where != 'set' else [('a', core.Integer), ('b', core.Integer, {'implicit': 0})]
        _spec_callbacks = {'b': pick}

    class Outer(core.SequenceOf):
        _child_spec = Picked

    n = ctx.int('n', 0, 255)
    body = (0x30, [(2, b'\1'), (2, ctx.byte_str([n])), (1, b'\xff')]) if where != 'set' else (0x31, [(2, b'\1'), (0x80, ctx.byte_str([n]))])
    data = encode(body if where != 'outer' else (0x30, [body, body]))
    t = Outer if where == 'outer' else Picked
    use = [['native'], ['dump'], ['len'], ['items'], ['copy'], ['contents']] + ([['fields'], ['native', (1,)]] if where != 'outer' else [['native', (1,)]])
    state['fail'] = False
    base = [look(ctx, t.load(data), r) for r in use]
    for i in range(len(use)):
        for j in range(len(use)):
            v = t.load(data)
            state['fail'] = True
            look(ctx, v, use[i])
            state['fail'] = False
            ctx.check(same(ctx, look(ctx, v, use[j]), base[j]), '%s after %s failed differs from %s alone' % (use[j], use[i], use[j]))
            ctx.check(ctx.eq(v.dump(), data), 'reading alters what is dumped')
    ctx.reach('shown')


# --- a part that cannot be read ------------------------------------------

def unreadable(ctx, host, kind, n, direction):
    """structures with one extension of any contents: all properties after all others"""
    dotted, _, make = HOSTS[host][3][kind]
    exts = [ext(ctx, dotted, ctx.bytes('value', n))]
    for k in sorted(HOSTS[host][3]):
        if k != kind and k in ('key_identifier', 'certificate_issuer', 'freshest_crl', 'subject_alt_name', 'authority_information_access'):
            exts.insert(0 if len(exts) % 2 else len(exts), ext(ctx, HOSTS[host][3][k][0], make_value(ctx, host, k)))
    same_name = {'subject': 'i'} if host == 'certificate' else {}
    data = HOSTS[host][2](ctx, ctx.join(b'', [encode((0x30, ctx.join(b'', exts)))]), **same_name)
    t = getattr(getattr(ctx.lib, HOSTS[host][0]), HOSTS[host][1])
    reads = [[p] for p in properties(t)[0] if p not in ('native', 'contents', 'parsed', 'debug', 'children')] + [['native'], ['dump'], ['walk']]
    if direction == 'backwards':
        reads.reverse()
    for first in range(0, len(reads), 5):
        through(ctx, lambda: t.load(data), reads, first)


def make_value(ctx, host, kind):
    # concrete parts
    class Fixed(object):
        def __getattr__(self, name):
            return getattr(ctx, name)

        def int(self, name, lo, hi):
            return lo
    return HOSTS[host][3][kind][2](Fixed(), 'x')


# --- cases ----------------------------------------------------------------

NLEAVES = 18


def doc_rows(tier):
    out = []
    k = 0
    for f in ('min', 'indefs', 2):
        for leaf in range(NLEAVES):
            for first in range(len(DOC)):
                k += 1
                if tier == 'thorough' or k % 11 == 0:
                    out.append([f, leaf, first, None, True])
    for b in ('identifier', 0, 1, 2, 3):
        for leaf in range(NLEAVES):
            for first in range(len(DOC)):
                k += 1
                if tier == 'thorough' and b != 3 or k % 31 == 0:
                    out.append([('min', 'indefs')[k % 2], leaf, first, b, tier == 'quick'])
    return out


def triple_rows(tier):
    return [[f, l, i] for f in ('min', 'indefs') for l in range(0 if tier == 'thorough' else 1, NLEAVES, 1 if tier == 'thorough' else 6) for i in range(8)]


def struct_rows(tier):
    out = []
    for i, (c, s) in enumerate(STRUCTS):
        for first in range(11):
            if tier == 'thorough' or (i + first) % 5 == 0 and sum(c for _, c, _ in s if type(c) is int) < 4 and not (c == 'Prims' and s[0][0] == 3):
                out.append([c, s, ('min', 'indef')[(i + first // 5) % 2], first])
    return out


def kind_of(name, label, p):
    f = at(tree(samples()[name][label]), p)[0]
    return f if type(f) is int else f[0]


def sample_rows(tier):
    out = []
    for i, k in enumerate(sorted(samples())):
        for l in sorted(samples()[k]):
            ls = leaves(tree(samples()[k][l]))
            top = [p for p in ls if at(tree(samples()[k][l]), p)[1]]
            if tier == 'quick':
                if i % 2 and l != 'full' and len(samples()[k]) > 1 and l != 'deep':
                    continue
                p = top[i % len(top)] if top else None
                if p is not None and ('Name' in k or 'RDN' in k or 'Distinguished' in k or kind_of(k, l, p) in TEXT + (6,)):
                    p = None
                out.append([k, l, p, ('forwards', 'backwards')[i % 2], None if i % 4 else 1])
            else:
                for j, p in enumerate(top[:6]):
                    out.append([k, l, p, ('forwards', 'backwards')[j % 2], (None, 0, 1, 2)[j % 4]])
    return out


def real_rows(tier):
    out = []
    for i, n in enumerate(sorted(templates())):
        ns = tree(templates()[n][2])
        ls = [p for p in leaves(ns) if at(ns, p)[1] and (tier == 'thorough' or at(ns, p)[0] not in TEXT + (6, 0x17, 0x18))]
        shallow = []
        for p in nodes_of(ns):
            q = p[1:]
            if q and len(q) < 4 and q not in shallow:
                shallow.append(q)
        step = max(1, len(ls) // (1 if tier == 'quick' else 12))
        for j, p in enumerate(ls[(i % step)::step][:1 if tier == 'quick' else 12]):
            out.append([n, p, shallow[j % 3::max(1, len(shallow) // 5)][:5]])
    return out


BUDGET = {'quick': 240, 'thorough': 3000}

HARNESSES = [
    Harness('doc', doc, named('form leaf first broken few', doc_rows), reach=['shown', 'refused'],
            bounds='a structure with all kinds of components and 18 leaves; 20 reads, every pair (quick: a sample of the first ones); any octet in one leaf, or one leaf with another identifier or 0 to 3 arbitrary octets'),
    Harness('triple', triple, named('form leaf first', triple_rows), reach=['shown'], bounds='the same; every sequence of three of eight reads'),
    Harness('structure', structure, named('cls shape form first', struct_rows), reach=['shown', 'refused'], bounds='the small structures of C03 with up to 5 arbitrary octets; every pair of reads'),
    Harness('primitive', primitive, named('cls n kind', lambda tier: [[c, n, k] for i, c in enumerate(PRIMS) for n in ((1, 2) if tier == 'quick' else (0, 1, 2, 3)) for k in ('plain', 'explicit')] + [
        [c, n, 'chunks'] for c in ('OctetString', 'OctetBitString', 'UTF8String', 'IA5String', 'BitString') for n in ((2,) if tier == 'quick' else (2, 3, 4))]),
        reach=['shown', 'refused'], bounds='every primitive type, contents of up to 2 (3) arbitrary octets; every pair of reads'),
    Harness('untyped', untyped, named('n first deep', lambda tier: [[n, f, tier == 'thorough' and n == 2] for n in ((2, 3) if tier == 'quick' else (2, 3, 4)) for f in (range(10) if tier == 'thorough' else (0, 1, 2, 4, 7) if n < 3 else (0, 3))]), reach=['shown', 'refused'], bounds='every byte string of up to 3 (4) octets; every sequence of three reads'),
    Harness('any value', anyvalue, named('kind contents', [[k, n] for k in ('any', 'octets', 'bits') for n in (1, 2)]), reach=['shown'], bounds='every sequence of two (some of three) of seven types asked for'),
    Harness('sample', sample, named('name label part rest broken', sample_rows), reach=['shown', 'refused'], bounds='every type of the library; all properties, fields and encodings after all others, in one order and the reverse; one arbitrary octet'),
    Harness('real', real, named('name part reads', real_rows), reach=['shown'], bounds='46 real structures with one arbitrary octet'),
    Harness('unreadable', unreadable, named('host kind n direction', lambda tier: [[h, k, n, d] for h in ('certificate', 'crl', 'revoked', 'single', 'response') for i, k in enumerate(sorted(HOSTS[h][3]))
                                                                                  for n in ((0, 1) if tier == 'quick' else (0, 1, 2)) for d in ('forwards', 'backwards') if tier == 'thorough' or (i + n + (d == 'forwards')) % 2]),
            reach=['shown', 'refused'], bounds='certificates, CRLs, entries and OCSP responses with one extension of 0 or 1 (2) arbitrary octets; all properties after all others'),
    Harness('interrupted', interrupted, named('kind where reads', [[k, w, 0] for k in ('key', 'value', 'type', 'attribute', 'runtime') for w in ('sequence', 'outer')]), reach=['shown'],
            bounds='the five kinds of exceptions'),
]
ASSUMPTIONS = ['A ParsableOctetString or ParsableOctetBitString of no known type is read as bytes until the caller asks for .parsed or .parse(), and as what was asked for afterwards; Any likewise after .parse(spec).',
               'Digests and other values worked out once are compared only as far as the encoding is concerned.',
               'A native dict or list handed out is not modified by the caller.',
               'Refusals are compared by the kind of exception, not by message.']
