import itertools
import json
import os
from pysym.harness import Harness
from hlib import encode, zoo, ref_tlv

MODULES = ('core', 'parser', 'util', 'x509', 'cms', 'crl', 'csr', 'ocsp', 'keys', 'algos', 'tsp', 'pkcs12', 'pdf')

# ---------------------------------------------------------------- reference reader of the test types

REQ, OPT = 'required', 'optional'


def integer(ctx, c):
    v = 0
    for i in range(len(c)):
        v = v * 256 + c[i]
    if len(c) == 0:
        return True, 0
    return True, ctx.ite(c[0] >= 128, v - 256 ** len(c), v)


def boolean(ctx, c):
    return True, (ctx.not_(ctx.eq(c[0], 0)) if len(c) == 1 else None)


def octets(ctx, c):
    return True, c


def named(**names):
    def f(ctx, c):
        for n, v in names.items():
            if ctx.eq(integer(ctx, c)[1], v):
                return True, n
        return 'any', None
    return f


# name, how, (wrapping octets), first octet, reader of the contents or the fields of a nested structure
INNER = [('x', REQ, [], 2, integer), ('y', False, [], 1, boolean)]
TYPES = {
    'Inner': (0x30, INNER),
    'Opt': (0x30, [('a', REQ, [], 2, integer), ('b', OPT, [], 4, octets), ('c', False, [], 1, boolean), ('d', OPT, [], 0x80, integer),
                   ('e', OPT, [0xa1], 12, None), ('f', OPT, [0xa2], 0x30, None)]),
    'Defaults': (0x30, [('v', 5, [], 2, integer), ('w', 'a', [], 0x80, None), ('x', 1000, [0xa1], 2, integer), ('y', {'x': 1, 'y': False}, [], 0xa2, None)]),
    'ASet': (0x31, [('i', REQ, [], 2, integer), ('o', REQ, [], 0x81, octets), ('b', False, [], 1, boolean), ('t', OPT, [0xa0], 12, None)]),
}


def match(ctx, fields, comps):
    """which component each field takes, in order; the rest is extra.  None: a required field is missing or has another tag"""
    out = []
    k = 0
    for name, how, wraps, first, rd in fields:
        want = wraps[0] if wraps else first
        if k < len(comps):
            # a component belongs to a field when class and tag number agree
            b = comps[k][0]
            if ctx.eq(b & 0xdf, want & 0xdf):
                out.append(k)
                k += 1
                continue
        if how == REQ:
            return None
        out.append(None)
    return out, k


def sequence(ctx, cls, payloads, form='min'):
    """components with any identifier octets, in any order"""
    t = getattr(zoo(ctx), cls)
    outer, fields = TYPES[cls]
    comps = []
    for i, p in enumerate(payloads):
        b = ctx.int('t%d' % i, 0, 255)
        ctx.assume(ctx.not_(ctx.eq(b & 31, 31)))
        c = ctx.bytes('c%d' % i, p) if type(p) is int else p
        comps.append((b, c))
    data = encode((outer, b''.join([]) if not comps else [(ctx.byte_str([b]), c) for b, c in comps]), form)
    st, v = ctx.attempt(t.load, data)
    ctx.check(st == 'ok', 'the structure itself loads')
    ref = match(ctx, fields, comps)
    extra = ref is not None and ref[1] < len(comps)
    # components beyond the fields have no type to read them with
    st, n = ('extra', None) if extra else ctx.attempt(lambda: v.native)
    if st == 'err':
        ctx.check(isinstance(n, ValueError), 'refused with ValueError')
    if ref is None:
        ctx.check(st == 'err', 'a missing required field or a wrong tag is refused')
        ctx.reach('refused')
        return
    taken, rest = ref
    good = True
    for (name, how, wraps, first, rd), k in zip(fields, taken):
        if k is None:
            # absent: void or the default
            st2, f = ctx.attempt(lambda: t.load(data)[name])
            ctx.check(st2 == 'ok', 'absent fields can be read')
            if how == OPT:
                ctx.check(f.native is None and f.dump() == b'', 'an absent optional field is void')
            else:
                ctx.check(ctx.eq(json_native(f.native), how), 'an absent default field has its default')
            if st == 'ok':
                ctx.check(ctx.eq(json_native(n[name]), None if how == OPT else how), 'natively too')
            ctx.reach('absent')
            continue
        b, c = comps[k]
        st2, f = ctx.attempt(lambda: t.load(data)[name])
        cons = first & 32
        if not wraps:
            ok = ctx.eq(b, first)
            ctx.check(ctx.any(st2 == 'err', ok), 'the wrong method is refused')
            if st2 == 'err':
                good = False
                ctx.check(isinstance(f, ValueError), 'refused with ValueError')
                ctx.check(ctx.any(rd is None, ctx.not_(ok)), 'a component with the identifier octet of the field is taken')
                continue
            ctx.check(ctx.eq(f.contents, c), 'the contents of the field')
            if rd is not None:
                valid, x = rd(ctx, c)
                st3, got = ctx.attempt(lambda: f.native)
                ctx.check(ctx.eq(st3 == 'ok', valid), 'readable when valid')
                if st3 == 'ok' and x is not None:
                    ctx.check(ctx.eq(got, x), 'the value of the field')
                    if st == 'ok':
                        ctx.check(ctx.eq(n[name], x), 'natively too')
                    ctx.reach('value')
        elif st2 == 'ok':
            inner = first
            ctx.check(len(c) >= 2 and ctx.all(ctx.eq(b, wraps[0]), ctx.eq(c[0], inner)), 'explicit tags hold the type of the field')
            if len(c) >= 2 and c[1] < 128 and rd is not None:
                body = c[2:2 + len(f.contents)]
                ctx.check(ctx.all(ctx.eq(len(f.contents), c[1]), ctx.eq(f.contents, body)), 'the contents of the field')
            ctx.reach('explicit')
        else:
            good = False
    if outer == 0x30:
        ctx.check(len(v) == len(fields) + len(comps) - rest, 'one value per field, and the components left over')
        if rest < len(comps):
            ctx.reach('extra')
    if st == 'ok':
        ctx.check(good, 'natively readable when every field is')
        ctx.check(list(n.keys())[:len(fields)] == [f[0] for f in fields], 'fields in order')
    ctx.check(ctx.eq(t.load(data).dump(), data), 'reading does not change it')


def json_native(x):
    return dict(x) if isinstance(x, dict) else x


def set_type(ctx, payloads):
    """SET: components in any order; unknown and repeated ones are refused"""
    t = zoo(ctx).ASet
    outer, fields = TYPES['ASet']
    comps = []
    for i, p in enumerate(payloads):
        b = ctx.int('t%d' % i, 0, 255)
        ctx.assume(ctx.not_(ctx.eq(b & 31, 31)))
        comps.append((b, ctx.bytes('c%d' % i, p) if type(p) is int else p))
    data = encode((outer, [(ctx.byte_str([b]), c) for b, c in comps]))
    st, v = ctx.attempt(t.load, data)
    ctx.check(st == 'ok', 'the structure itself loads')
    st, v = ctx.attempt(lambda: v['i'])
    taken = {}
    bad = False
    for k, (b, c) in enumerate(comps):
        for j, (name, how, wraps, first, rd) in enumerate(fields):
            want = wraps[0] if wraps else first
            if ctx.eq(b & 0xdf, want & 0xdf):
                if j in taken:
                    bad = True
                taken[j] = k
                break
        else:
            bad = True
    if bad or 0 not in taken or 1 not in taken:
        ctx.check(st == 'err' and isinstance(v, ValueError), 'missing, unknown and repeated components are refused')
        ctx.reach('refused')
        return
    for j, (name, how, wraps, first, rd) in enumerate(fields):
        st, f = ctx.attempt(lambda: t.load(data)[name])
        if j not in taken:
            ctx.check(st == 'ok' and f.native is (None if how == OPT else how), 'void or default')
            ctx.reach('absent')
            continue
        b, c = comps[taken[j]]
        if wraps:
            if st == 'ok':
                ctx.check(len(c) >= 2 and ctx.all(ctx.eq(b, wraps[0]), ctx.eq(c[0], first)), 'explicit tags hold the type of the field')
            continue
        if st == 'err':
            ctx.check(isinstance(f, ValueError) and ctx.not_(ctx.eq(b, first)), 'only the wrong method is refused')
            continue
        ctx.check(ctx.all(ctx.eq(b, first), ctx.eq(f.contents, c)), 'each component in its field')
        ctx.reach('value')
    ctx.check(ctx.eq(t.load(data).dump(), data), 'reading does not change it')


# ---------------------------------------------------------------- building

def der_int(ctx, x, lo, hi):
    """contents of an integer, minimal"""
    for n in range(1, 6):
        if ctx.all(x >= -(1 << (8 * n - 1)), x < (1 << (8 * n - 1))):
            return ctx.itob(x, n, True)


def build(ctx, cls, style):
    """fields given as Python values: what is void or the default is left out"""
    t = getattr(zoo(ctx), cls)
    parts = []
    vals = {}
    if cls == 'Opt':
        a = ctx.int('a', -200, 200)
        vals['a'] = a
        parts.append(encode((2, der_int(ctx, a, -200, 200))))
        if ctx.bool('has b'):
            vals['b'] = ctx.bytes('b', 2)
            parts.append(encode((4, vals['b'])))
        if ctx.bool('has c'):
            vals['c'] = ctx.bool('c')
            if vals['c']:
                parts.append(b'\x01\x01\xff')
        if ctx.bool('has d'):
            vals['d'] = ctx.int('d', 0, 300)
            parts.append(encode((0x80, der_int(ctx, vals['d'], 0, 300))))
        if ctx.bool('has e'):
            vals['e'] = ctx.text('e', 1, [(65, 90)])
            parts.append(encode((0xa1, encode((12, vals['e'].encode('utf-8'))))))
        if ctx.bool('has f'):
            x, y = ctx.int('x', 0, 127), ctx.bool('y')
            vals['f'] = {'x': x, 'y': y}
            parts.append(encode((0xa2, encode((0x30, encode((2, ctx.byte_str([x]))) + (b'\x01\x01\xff' if y else b''))))))
        required = ('a',)
    elif cls == 'Defaults':
        if ctx.bool('has v'):
            vals['v'] = ctx.int('v', 0, 9)
            if vals['v'] != 5:
                parts.append(encode((2, ctx.byte_str([vals['v']]))))
        if ctx.bool('has w'):
            vals['w'] = ctx.choice('w', ['a', 'b', 'c'])
            if vals['w'] != 'a':
                parts.append(b'\x80\x01\x01' if vals['w'] == 'b' else b'\x80\x02\x00\xc8')
        if ctx.bool('has x'):
            vals['x'] = ctx.int('x', 990, 1010)
            if vals['x'] != 1000:
                parts.append(encode((0xa1, encode((2, ctx.itob(vals['x'], 2))))))
        if ctx.bool('has y'):
            x, y = ctx.int('yx', 0, 2), ctx.bool('yy')
            vals['y'] = {'x': x, 'y': y}
            if ctx.any(x != 1, y):
                parts.append(encode((0xa2, encode((2, ctx.byte_str([x]))) + (b'\x01\x01\xff' if y else b''))))
        required = ()
    else:
        vals['i'] = ctx.int('i', -3, 3)
        parts.append(encode((2, der_int(ctx, vals['i'], -3, 3))))
        parts.insert(0, b'')
        if ctx.bool('has b'):
            vals['b'] = ctx.bool('b')
            if vals['b']:
                parts[0] = b'\x01\x01\xff'
        if ctx.bool('has t'):
            vals['t'] = ctx.text('t', 1, [(65, 90)])
            parts.append(encode((0xa0, encode((12, vals['t'].encode('utf-8'))))))
        vals['o'] = ctx.bytes('o', 1)
        parts.append(encode((0x81, vals['o'])))
        required = ('i', 'o')
    outer = TYPES[cls][0]
    body = ctx.join(b'', parts)
    want = encode((outer, body))
    if style == 'dict':
        v = t(vals)
    elif style == 'keyword':
        v = t(dict((k, vals[k]) for k in required))
        for k in reversed(list(vals)):
            v[k] = vals[k]
    elif style == 'none':
        # None and deletion both leave a field out
        v = t(dict((f[0], vals.get(f[0])) for f in TYPES[cls][1]))
    else:
        full = {'Opt': dict(a=7, b=b'q', c=True, d=9, e='zz', f={'x': 5}), 'Defaults': dict(v=77, w='c', x=3, y={'x': 99}),
                'ASet': dict(i=55, o=b'zz', b=True, t='zz')}[cls]
        v = t(full)
        v.dump()
        for k in full:
            if k in vals:
                v[k] = vals[k]
            elif k not in required:
                del v[k]
    ctx.check(ctx.eq(v.dump(), want), 'the encoding')
    w = t.load(v.dump(), strict=True)
    defaults = {'Opt': dict(c=False), 'Defaults': dict(v=5, w='a', x=1000, y={'x': 1, 'y': False}), 'ASet': dict(b=False)}[cls]
    for f in TYPES[cls][1]:
        k = f[0]
        expect = vals[k] if k in vals else defaults.get(k)
        ctx.check(ctx.eq(json_native(w[k].native), expect), 'the field decodes to the value given')
        ctx.check(ctx.eq(json_native(v[k].native), expect), 'and reads back before encoding')
        ctx.check(ctx.eq(json_native(w.native[k]), expect), 'natively too')
    ctx.check(ctx.eq(w.dump(force=True), want), 'the same encoding again')
    ctx.reach('built')


def incomplete(ctx, cls):
    """required fields are needed, and only the fields of the type can be set"""
    z = zoo(ctx)
    t = getattr(z, cls)
    vals = {'Opt': dict(b=b'1', c=True), 'ASet': dict(o=b'1'), 'Inner': dict(y=True), 'Nest': dict(l=[1])}[cls]
    st, v = ctx.attempt(t, vals)
    if st == 'ok':
        st, v = ctx.attempt(v.dump)
    ctx.check(st == 'err' and isinstance(v, ValueError), 'a structure without a required field is not encoded')
    name = ctx.text('name', 1, [(97, 122)])
    for f in t._fields:
        ctx.assume(ctx.not_(ctx.eq(f[0], name)))
    st, v = ctx.attempt(t, {name: 1})
    ctx.check(st == 'err' and isinstance(v, (ValueError, KeyError)), 'unknown fields are refused')
    ctx.reach('refused')


# ---------------------------------------------------------------- the structures of the library

_schema = {}


def schema():
    if not _schema:
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'schema.json')) as f:
            _schema.update(json.load(f))
    return _schema


def element(ctx, name, wraps, firsts, alt=0):
    """an element a field accepts, with some arbitrary contents; and what the field's contents are"""
    if firsts == 'any':
        body = b'\x04\x01' + ctx.bytes(name, 1)
        c = None
    elif type(firsts[0]) is list:
        w, f = firsts[alt % len(firsts)]
        return element(ctx, name, wraps + w, f)
    else:
        c = b'' if firsts[0] & 32 else ctx.bytes(name, 1)
        if firsts[0] == 6:
            # an identifier that ends inside an arc is malformed
            ctx.assume(c[0] < 128)
        body = encode((firsts[0], c))
    for w in reversed(wraps):
        body = encode((w, body))
    return body, c


def declared(ctx, name, alt, missing):
    """every structure of the library: each component is read as the field the standard defines"""
    mod, cls = name.split('.')
    t = getattr(getattr(ctx.lib, mod), cls)
    sch = schema()[name]
    body = b''
    got = {}
    for i, (f, how, wraps, firsts, d) in enumerate(sch['fields']):
        if missing is None:
            there = how == 'required' or ctx.bool('has ' + f)
        else:
            there = f != missing and (how == 'required' or i > missing_at(sch, missing))
        if there:
            e, c = element(ctx, f, wraps, firsts, alt)
            if (name, f) in GOVERNING:
                c = encode((6, ctx.bytes_in(f, 1, [(0, 127)])))
                e = encode((48, c))
            got[f] = (e, c)
            body = body + e
    data = encode((0x31 if sch['kind'] == 'set' else 0x30, body))
    v = t.load(data)
    if missing is not None:
        st, x = ctx.attempt(lambda: [v[f[0]].dump() for f in sch['fields']])
        ctx.check(st == 'err' and isinstance(x, ValueError), 'a structure without a required field is refused')
        ctx.reach('missing')
        return
    for f, how, wraps, firsts, d in sch['fields']:
        st, x = ctx.attempt(lambda: v[f])
        if f not in got:
            ctx.check(st == 'ok', 'absent fields can be read')
            ctx.check(ctx.eq(x.dump(), bytes.fromhex(d) if d else b''), 'void or the default')
            continue
        if st == 'err':
            # what the field holds is read when it is looked at
            ctx.check(isinstance(x, ValueError), 'ValueError')
            ctx.check(firsts == 'any', 'a component with the identifier octets of the field is taken')
            ctx.reach('not readable')
            continue
        ctx.check(ctx.eq(x.dump(), got[f][0]), 'the component of the field')
        if got[f][1] is not None and type(firsts[0]) is not list:
            ctx.check(ctx.eq(x.contents, got[f][1]), 'the contents of the field')
        ctx.reach('assigned')
    ctx.check(ctx.eq(v.dump(), data), 'reading does not change it')


# the algorithm of these decides how other fields are read, so that it is itself read with the structure
GOVERNING = (('algos.Pbkdf2Params', 'prf'), ('keys.PublicKeyInfo', 'algorithm'), ('tsp.ESSCertIDv2', 'hash_algorithm'), ('keys.PrivateKeyInfo', 'private_key_algorithm'))


def missing_at(sch, f):
    return [x[0] for x in sch['fields']].index(f)


def of_type(ctx, name, n):
    """SEQUENCE OF and SET OF: every component in order"""
    mod, cls = name.split('.')
    t = getattr(getattr(ctx.lib, mod), cls)
    sch = schema()[name]
    wraps, firsts = sch['child']
    parts = [element(ctx, 'e%d' % i, wraps, firsts, i % 2)[0] for i in range(n)]
    data = encode((0x31 if sch['kind'] == 'set of' else 0x30, b''.join([]) if not parts else ctx.join(b'', parts)))
    v = t.load(data)
    ctx.check(len(v) == n, 'the number of components')
    for i in range(n):
        st, x = ctx.attempt(lambda: v[i])
        ctx.check(st == 'ok', 'component')
        ctx.check(ctx.eq(x.dump(), parts[i]), 'the component at its place')
    ctx.check(ctx.eq(v.dump(), data), 'reading does not change it')
    ctx.reach('assigned')


OUTER = {'x509.CountryName': [0x61], 'x509.AdministrationDomainName': [0x62]}


def choice_type(ctx, name):
    mod, cls = name.split('.')
    t = getattr(getattr(ctx.lib, mod), cls)
    for i, (alt, wraps, firsts) in enumerate(schema()[name]['alts']):
        if firsts == 'any':
            continue
        e, c = element(ctx, 'e%d' % i, OUTER.get(name, []) + wraps, firsts, 0)
        if (name, alt) == ('cms.CertificateChoices', 'v1_attr_cert'):
            # the version in it decides between two alternatives
            e = encode((0xa1, [(0x30, [(2, b'\x00')])]))
        st, v = ctx.attempt(t.load, e)
        ctx.check(st == 'ok', 'every alternative is accepted')
        ctx.check(v.name == alt, 'the alternative the identifier octets select')
        ctx.check(ctx.eq(v.dump(), e), 'and kept')
    ctx.reach('assigned')


def declared_cases(tier):
    out = []
    for n, s in sorted(schema().items()):
        if s['kind'] in ('sequence', 'set'):
            k = sum(1 for f in s['fields'] if f[1] != 'required')
            for alt in range(1 if tier == 'quick' else 4):
                out.append(dict(name=n, alt=alt, missing=None))
            last = [f[0] for f in s['fields'] if f[1] == 'required']
            # only where nothing else could be taken for it
            for f in s['fields'] if tier != 'quick' else s['fields'][-1:]:
                if f[1] == 'required' and all(g[1] == 'required' for g in s['fields'][missing_at(s, f[0]):]) and f == s['fields'][-1]:
                    out.append(dict(name=n, alt=0, missing=f[0]))
    return out


def names(kinds):
    return [n for n, s in sorted(schema().items()) if s['kind'] in kinds]


def seq_cases(tier):
    out = []
    inner = b'\x02\x01\x05'
    for cls, shapes in (('Inner', [(), (1,), (1, 1), (2, 1), (1, 1, 1), (0, 0)]),
                        ('Opt', [(1,), (1, 1), (1, 2, 1), (1, 1, 1), (1, b'\x0c\x01a'), (1, inner), (1, 3), (1, 1, b'\x0c\x01a')]),
                        ('Defaults', [(), (1,), (1, 1), (inner,), (1, inner), (3,), (1, 1, inner), (inner, inner)])):
        if tier != 'quick':
            shapes = shapes + [(1, 1, 1, 1), (1, 2, 1, inner), (1, 1, b'\x0c\x01a', inner)]
        for s in shapes:
            out.append(dict(cls=cls, payloads=s))
    out.append(dict(cls='Opt', payloads=(1, 1), form=2))
    out.append(dict(cls='Opt', payloads=(1, 1), form='indef') if False else dict(cls='Defaults', payloads=(1,), form=1))
    return out


HARNESSES = [
    Harness('sequence', sequence, seq_cases, ['refused', 'absent', 'value', 'explicit', 'extra'],
            bounds='three types with optional, default, tagged and nested fields; up to 3 (4) components with any single-octet tags and contents of 0-3 octets'),
    Harness('set_type', set_type, {'quick': [dict(payloads=p) for p in ((1, 1), (1, 1, 1), (1,), (2, 1, b'\x0c\x01a'))],
                                   'thorough': [dict(payloads=p) for p in ((), (1, 1), (1, 1, 1), (1,), (2, 1, b'\x0c\x01a'), (1, 1, 1, b'\x0c\x01a'), (0, 2, 1))]},
            ['refused', 'absent', 'value'], bounds='up to 3 (4) components with any single-octet tags'),
    Harness('build', build, lambda tier: [dict(cls=c, style=s) for c in ('Opt', 'Defaults', 'ASet') for s in ('dict', 'keyword', 'none', 'changed')],
            ['built'], bounds='every combination of fields, small values including the defaults; built in four ways'),
    Harness('incomplete', incomplete, [dict(cls=c) for c in ('Opt', 'ASet', 'Inner', 'Nest')], ['refused']),
    Harness('declared', declared, declared_cases, ['assigned', 'missing'],
            bounds='every structure of the library, every combination of its optional fields, arbitrary one-octet contents'),
    Harness('of_type', of_type, lambda tier: [dict(name=n, n=k) for n in names(('sequence of', 'set of')) for k in (0, 2, 3)[:2 if tier == 'quick' else 3]], ['assigned'],
            bounds='every SEQUENCE OF and SET OF of the library, 0 to 2 (3) components'),
    Harness('choice_type', choice_type, [dict(name=n) for n in names(('choice',))], ['assigned'], bounds='every CHOICE of the library'),
]
