import json
import os

from pysym.harness import Harness
from hlib import named, encode, tree, leaves, nodes_of, at, replace, templates, template

MODULES = ('core', 'parser', 'util', 'x509', 'cms', 'crl', 'csr', 'ocsp', 'keys', 'algos', 'tsp', 'pkcs12', 'pdf', '_iri', '_inet', '_types')

# digests of the whole encoding: one call of hashlib on bytes that are there
DIGESTS = ('sha1', 'sha256', 'fingerprint', 'sha1_fingerprint', 'sha256_fingerprint', 'issuer_serial')
DUNDER = ('__unicode__', '__bytes__', '__int__', '__bool__', '__len__')

_samples = {}


def samples():
    if not _samples:
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'samples.json')) as f:
            for k, v in json.load(f).items():
                _samples[k] = dict((l, bytes.fromhex(h)) for l, h in v.items())
    return _samples


def type_of(ctx, name):
    m, c = name.split('.')
    return getattr(getattr(ctx.lib, m), c)


_props = {}


def properties(t):
    if t not in _props:
        out = []
        for n in dir(t):
            if not n.startswith('_') and n not in DIGESTS and isinstance(getattr(t, n), property):
                out.append(n)
        _props[t] = (out, [n for n in DUNDER if hasattr(t, n)])
    return _props[t]


def probe(ctx, what, f, *a):
    st, r = ctx.attempt(f, *a)
    if st == 'err':
        if isinstance(r, ctx.lib._errors.APIException):
            # the method has been removed, whatever the value
            return None
        ctx.check(isinstance(r, ValueError), '%s raised %s' % (what, type(r).__name__))
        ctx.reach('refused')
        return None
    return r


def everything(ctx, v, depth=0):
    """every public way of reading a value and its parts"""
    core = ctx.lib.core
    t = type(v)
    if depth > 12 or not isinstance(v, (core.Asn1Value, core.Concat)):
        return
    props, dunder = properties(t)
    probe(ctx, t.__name__ + '.dump', lambda: v.dump())
    for n in props:
        r = probe(ctx, '%s.%s' % (t.__name__, n), getattr, v, n)
        if n in ('chosen', 'parsed') and r is not None:
            everything(ctx, r, depth + 1)
    for n in dunder:
        probe(ctx, '%s.%s' % (t.__name__, n), ctx.method, v, n)
    if isinstance(v, core.Sequence):
        n = probe(ctx, 'len', len, v)
        for i in range(n or 0):
            x = probe(ctx, 'item', lambda: v[i])
            if x is not None:
                everything(ctx, x, depth + 1)
    elif isinstance(v, (core.SequenceOf, core.Concat)):
        xs = probe(ctx, 'iteration', lambda: [x for x in v])
        for x in xs or ():
            everything(ctx, x, depth + 1)


def untrusted(ctx, t, data, **kw):
    for how in (0, 1):
        v = probe(ctx, t.__name__ + '.load', lambda: t.load(data, **kw))
        if v is None:
            return
        if how:
            # the native value of the whole first, then a forced encoding
            probe(ctx, t.__name__ + '.native', lambda: v.native)
            probe(ctx, t.__name__ + '.dump', lambda: v.dump(force=True))
        else:
            everything(ctx, v)
    ctx.reach('read')


def octets(ctx, name, n):
    """any few octets"""
    untrusted(ctx, type_of(ctx, name), ctx.bytes('data', n))


def contents(ctx, name, first, n, kw=None):
    """the right identifier, any contents"""
    c = ctx.bytes('contents', n)
    untrusted(ctx, type_of(ctx, name), encode((bytes.fromhex(first), c)), **(kw or {}))


def component(ctx, name, label, path, n, where, form):
    """a well-formed encoding with one part replaced by something else"""
    nodes = tree(samples()[name][label])
    first, c = at(nodes, path)
    if where == 'contents':
        new = (first, ctx.bytes('part', n))
    elif where == 'identifier':
        b = ctx.bytes('id', 1)
        ctx.assume(b[0] & 31 != 31)
        new = (b, c if n is None else ctx.bytes('part', n))
    else:
        # one octet of the contents
        new = (first, c[:n] + ctx.bytes('part', 1) + c[n + 1:])
    data = encode(replace(nodes, path, new)[0], form)
    untrusted(ctx, type_of(ctx, name), data)


def real(ctx, name, path, start, count):
    """real structures with one leaf replaced by something else"""
    t, data = template(ctx, name)
    nodes = tree(data)
    first, c = at(nodes, path)
    if count == 'new':
        new = ctx.bytes('leaf', start)
    else:
        new = c[:start] + ctx.bytes('leaf', count) + c[start + count:]
    untrusted(ctx, t, encode(replace(nodes, path, (first, new))[0]))


def cut(ctx, name, n):
    """real structures that end early, or continue, with anything in the last octet"""
    t, data = template(ctx, name)
    d = data[:n] + ctx.bytes('last', 1)
    untrusted(ctx, t, d)


def universal(ctx, n, how):
    """bytes loaded without a type"""
    core = ctx.lib.core
    data = ctx.bytes('data', n)
    if how == 'concat':
        class Pair(core.Concat):
            _child_specs = [core.Integer, core.Any]
        v = probe(ctx, 'load', Pair.load, data)
    elif how == 'any':
        v = probe(ctx, 'load', core.Any.load, data)
    else:
        v = probe(ctx, 'load', lambda: core.load(data, strict=how == 'strict'))
    # one made of several values that ends early has parts without a value
    if v is not None and (how != 'concat' or v[0].contents is not None and v[1].contents is not None):
        everything(ctx, v)
        probe(ctx, 'dump', lambda: v.dump(force=True))
        ctx.reach('read')


# the identifiers of character strings
TEXT = (0x0c, 0x12, 0x13, 0x14, 0x16, 0x1a, 0x1b, 0x1c, 0x1e, 0x86, 0x82, 0x81)


def nesting(ctx, kind, depth):
    """values nested in each other"""
    core = ctx.lib.core
    data = ctx.bytes('leaf', 1)
    data = b'\x02\x01' + data
    for i in range(depth):
        if kind == 'indefinite':
            data = b'\x30\x80' + data + b'\x00\x00'
        else:
            n = len(data)
            data = bytes([0x30, 0x82, n >> 8, n & 255]) + data
    st, v = ctx.attempt(core.load, data)
    if st == 'err':
        ctx.check(isinstance(v, ValueError), 'load raised %s' % type(v).__name__)
        return
    for what, f in (('dump', lambda: v.dump()), ('native', lambda: v.native), ('dump(force=True)', lambda: v.dump(force=True))):
        st, r = ctx.attempt(f)
        if st == 'err':
            ctx.check(isinstance(r, ValueError), '%s of %d nested values raised %s' % (what, depth, type(r).__name__))
    ctx.reach('read')


def octet_cases(tier):
    out = []
    for i, k in enumerate(sorted(samples())):
        for n in ((0, 2) if i % 2 else (1, 3)) if tier == 'quick' else (0, 1, 2, 3, 4):
            out.append((k, n))
    return out


def firsts(name):
    out = []
    for l, d in sorted(samples()[name].items()):
        e = tree(d)
        f = e[0][0]
        f = f if type(f) is bytes else bytes([f])
        if f not in out:
            out.append(f)
    return [f.hex() for f in out]


def contents_cases(tier):
    out = []
    for i, k in enumerate(sorted(samples())):
        for j, f in enumerate(firsts(k)):
            for n in ((1 + (i + j) % 2) if f in ('03', '23', '30', '31') or 'URI' in k else 1 + (i + j) % 3,) if tier == 'quick' else (0, 1, 2, 3, 4):
                out.append((k, f, n))
    return out


def component_cases(tier):
    out = []
    i = 0
    for k in sorted(samples()):
        for l, d in sorted(samples()[k].items()):
            nodes = tree(d)
            for p in nodes_of(nodes):
                if len(p) < 2:
                    continue
                c = at(nodes, p)[1]
                i += 1
                if tier == 'quick':
                    # parts further down belong to other types
                    if len(p) > 2 and i % 5 or l.startswith('oid') and i % 4 or i % 3:
                        continue
                    first = at(nodes, p)[0]
                    first = first[0] if type(first) is bytes else first
                    n, where = ((0, 'contents'), (1, 'contents'), (2, 'contents'), (None, 'identifier'))[i // 3 % 4]
                    if n == 2 and first in TEXT:
                        n = 1
                    out.append((k, l, p, n, where, ('min', 'min', 'indefs', 2)[i // 4 % 4]))
                else:
                    if len(p) > 4:
                        continue
                    for n in (0, 1, 2):
                        out.append((k, l, p, n, 'contents', ('min', 'indefs', 2)[n]))
                    out.append((k, l, p, None, 'identifier', 'min'))
                    out.append((k, l, p, 1, 'identifier', 'min'))
                    if type(c) is bytes:
                        for j in range(min(len(c), 3)):
                            out.append((k, l, p, j, 'octet', 'min'))
    return out


def real_cases(tier):
    out = []
    big = ('pkcs12', 'cert_all', 'ocsp_response', 'cms_signed', 'cms_enveloped', 'cert_nc', 'tsp_response')
    i = 0
    for n in sorted(templates()):
        nodes = tree(templates()[n][2])
        for p in leaves(nodes):
            first, c = at(nodes, p)
            first = first[0] if type(first) is bytes else first
            l = len(c)
            i += 1
            if tier == 'quick':
                if n in big or i % 3:
                    continue
                out.append((n, p, (0, 1, 1 if first in TEXT else 2)[i // 3 % 3], 'new'))
            else:
                for m in (0, 1, 2, 3):
                    out.append((n, p, m, 'new'))
                if l >= 2:
                    out.append((n, p, 0, 2))
                    out.append((n, p, l - 2, 2))
    return out


BUDGET = {'quick': 240, 'thorough': 3000}

HARNESSES = [
    Harness('octets', octets, named('name n', octet_cases), reach=['refused', 'read'], bounds='every type of the library; every byte string up to 3 (4) octets'),
    Harness('contents', contents, named('name first n', contents_cases), reach=['refused', 'read'],
            bounds='every type of the library under each of its identifiers; every contents of 1 to 3 (0 to 4) octets'),
    Harness('component', component, named('name label path n where form', component_cases), reach=['refused', 'read'],
            bounds='well-formed encodings of every type; any one part with contents of 0 to 2 arbitrary octets, another identifier or another octet; definite and indefinite lengths'),
    Harness('real', real, named('name path start count', real_cases), reach=['refused', 'read'], bounds='45 real structures with one leaf replaced by 0 to 3 arbitrary octets'),
    Harness('cut', cut, named('name n', lambda tier: [(n, i) for n in (('name', 'rc2', 'pss', 'ec_private', 'csr_small', 'tsp_request', 'ocsp_req_small')) for i in range(
        0, len(templates()[n][2]), 7 if tier == 'quick' else 1)]), reach=['refused'], bounds='prefixes of real structures followed by any octet'),
    Harness('universal', universal, named('n how', lambda tier: [(n, h) for n in range(0, 5 if tier == 'quick' else 6) for h in ('load', 'strict', 'any', 'concat')
                                                         if tier != 'quick' or n < 4 or h == 'strict']),
            reach=['refused', 'read'], bounds='every byte string up to 4 (5) octets loaded without a type'),
    Harness('nesting', nesting, named('kind depth', lambda tier: [(k, d) for k, d in (('sequence', 1), ('sequence', 4), ('sequence', 8), ('indefinite', 3), ('indefinite', 8))]),
            reach=['read'], bounds='1 to 8 values nested in each other'),
]
