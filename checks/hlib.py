"""Reference definitions shared by the harnesses (executed symbolically and concretely)."""
import json
import os



def ref_tag(data, p, n):
    """identifier octets at p: (class, method, tag, next) or None"""
    if p >= n:
        return None
    b0 = data[p]
    p += 1
    cls = b0 >> 6
    method = (b0 >> 5) & 1
    tag = b0 & 31
    if tag == 31:
        tag = 0
        first = True
        while True:
            if p >= n:
                return None
            b = data[p]
            p += 1
            if first and b == 0x80:
                return None
            first = False
            tag = tag * 128 + (b & 127)
            if b < 128:
                break
        if tag < 31:
            return None
    return cls, method, tag, p


def ref_element(data, p, n, depth=0):
    """one BER element at p: (class, method, tag, contents start, contents end, element end) or None"""
    t = ref_tag(data, p, n)
    if t is None:
        return None
    cls, method, tag, p = t
    if p >= n:
        return None
    l = data[p]
    p += 1
    if l < 128:
        end = p + l
        if end > n:
            return None
        return cls, method, tag, p, end, end
    k = l & 127
    if k == 0:
        if method == 0:
            return None
        q = p
        while True:
            if q + 2 <= n and data[q] == 0 and data[q + 1] == 0:
                return cls, method, tag, p, q, q + 2
            e = ref_element(data, q, n, depth + 1)
            if e is None:
                return None
            q = e[5]
    if p + k > n:
        return None
    v = 0
    for i in range(k):
        v = v * 256 + data[p + i]
    p += k
    if p + v > n:
        return None
    return cls, method, tag, p, p + v, p + v


def ref_len(n):
    """minimal DER length octets of a concrete length"""
    if n < 128:
        return bytes([n])
    out = b''
    while n:
        out = bytes([n & 255]) + out
        n >>= 8
    return bytes([128 | len(out)]) + out


def ref_tlv(ctx, first, contents):
    """single-octet identifier, minimal length"""
    return ctx.byte_str([first]) + ref_len(len(contents)) + contents


def minimal_tag_octets(ctx, cls, method, tag):
    if tag < 31:
        return ctx.byte_str([cls * 64 + method * 32 + tag])
    groups = [tag & 127]
    t = tag >> 7
    while t > 0:
        groups.insert(0, (t & 127) | 128)
        t = t >> 7
    return ctx.byte_str([cls * 64 + method * 32 + 31] + groups)


# ------------------------------------------------------------ encodings as trees
# a node is (first octet, contents) with contents either bytes or a list of nodes

def enc_len(n, form):
    """length octets of a concrete length in a given form: 'min', or an int: that many length octets"""
    if form == 'min':
        return ref_len(n)
    return bytes([128 | form]) + n.to_bytes(form, 'big')


def encode(node, form='min', forms=None, path=()):
    """BER encoding of a tree; forms maps a node path to a length form, 'indef' included"""
    first, contents = node
    f = form
    if forms is not None and path in forms:
        f = forms[path]
    if type(contents) is list:
        body = b''
        for i, c in enumerate(contents):
            body = body + encode(c, form, forms, path + (i,))
    else:
        body = contents
    if type(first) is int:
        first = bytes([first])
    if f == 'indefs':
        # every constructed element
        f = 'indef' if type(contents) is list else 'min'
    if f == 'indef':
        return first + b'\x80' + body + b'\x00\x00'
    return first + enc_len(len(body), f) + body


def tree(data):
    """the tree of concrete definite-length single-octet-tag bytes"""
    out = []
    p = 0
    while p < len(data):
        cls, method, tag, cs, ce, end = ref_element(data, p, len(data))
        if tag >= 31:
            first = data[p:p + 2]
        else:
            first = data[p]
        body = data[cs:ce]
        if method:
            out.append((first, tree(body)))
        else:
            out.append((first, body))
        p = end
    return out


def leaves(nodes, path=()):
    out = []
    for i, (first, c) in enumerate(nodes):
        if type(c) is list:
            out.extend(leaves(c, path + (i,)))
        else:
            out.append(path + (i,))
    return out


def nodes_of(nodes, path=()):
    out = []
    for i, (first, c) in enumerate(nodes):
        out.append(path + (i,))
        if type(c) is list:
            out.extend(nodes_of(c, path + (i,)))
    return out


def at(nodes, path):
    node = nodes[path[0]]
    for i in path[1:]:
        node = node[1][i]
    return node


def replace(nodes, path, new):
    i = path[0]
    if len(path) == 1:
        return nodes[:i] + [new] + nodes[i + 1:]
    first, c = nodes[i]
    return nodes[:i] + [(first, replace(c, path[1:], new))] + nodes[i + 1:]


_templates = {}


def templates():
    if not _templates:
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'templates.json')) as f:
            for k, v in json.load(f).items():
                _templates[k] = (v[0], v[1], bytes.fromhex(v[2]))
    return _templates


def template(ctx, name):
    mod, cls, data = templates()[name]
    return getattr(getattr(ctx.lib, mod), cls), data


# ------------------------------------------------------------ reading

def walk(ctx, v, depth=0):
    """touch every part of a value through the public interface"""
    core = ctx.lib.core
    if isinstance(v, core.Choice):
        v.name
        walk(ctx, v.chosen, depth + 1)
    elif isinstance(v, core.Sequence):
        for i in range(len(v)):
            walk(ctx, v[i], depth + 1)
    elif isinstance(v, core.SequenceOf):
        for x in v:
            walk(ctx, x, depth + 1)
    elif isinstance(v, core.Any):
        walk(ctx, v.parsed, depth + 1)
    elif isinstance(v, core.Concat):
        for x in v:
            walk(ctx, x, depth + 1)
    else:
        v.native


def read(ctx, v, how):
    """one way of reading a value; ('ok', ...) or ('err', ...)"""
    if how == 'native':
        return ctx.attempt(lambda: v.native)
    if how == 'walk':
        return ctx.attempt(walk, ctx, v)
    if how == 'dump':
        return ctx.attempt(v.dump)
    if how == 'contents':
        return ctx.attempt(lambda: v.contents)
    if how == 'copy':
        return ctx.attempt(v.copy)
    if how == 'eq':
        return ctx.attempt(lambda: v == v)
    return ctx.attempt(lambda: len(v))


# ------------------------------------------------------------ a zoo of test types

_zoo = {}


def zoo(ctx):
    core = ctx.lib.core
    key = id(core)
    if key not in _zoo:
        _zoo[key] = make_zoo(core)
    return _zoo[key]


def make_zoo(c):
    class Z(object):
        pass

    class Num(c.Integer):
        _map = {0: 'zero', 1: 'one', 300: 'many', -1: 'minus'}

    class Enum(c.Enumerated):
        _map = {0: 'a', 1: 'b', 200: 'c'}

    class Bits(c.BitString):
        _map = {0: 'b0', 1: 'b1', 2: 'b2', 5: 'b5', 9: 'b9'}

    class OidT(c.ObjectIdentifier):
        _map = {'1.2.3': 'int', '1.2.4': 'seq', '1.2.5': 'str', '1.2.6': 'enum'}

    class Inner(c.Sequence):
        _fields = [('x', c.Integer), ('y', c.Boolean, {'default': False})]

    class Opt(c.Sequence):
        _fields = [
            ('a', c.Integer),
            ('b', c.OctetString, {'optional': True}),
            ('c', c.Boolean, {'default': False}),
            ('d', c.Integer, {'implicit': 0, 'optional': True}),
            ('e', c.UTF8String, {'explicit': 1, 'optional': True}),
            ('f', Inner, {'explicit': 2, 'optional': True}),
        ]

    class Defaults(c.Sequence):
        _fields = [
            ('v', c.Integer, {'default': 5}),
            ('w', Enum, {'implicit': 0, 'default': 'a'}),
            ('x', c.Integer, {'explicit': 1, 'default': 1000}),
            ('y', Inner, {'implicit': 2, 'default': {'x': 1}}),
        ]

    class Ints(c.SequenceOf):
        _child_spec = c.Integer

    class Inners(c.SequenceOf):
        _child_spec = Inner

    class Nest(c.Sequence):
        _fields = [('s', Opt), ('l', Ints), ('n', Inners, {'optional': True})]

    class OctSet(c.SetOf):
        _child_spec = c.OctetString

    class IntSet(c.SetOf):
        _child_spec = c.Integer

    class ASet(c.Set):
        _fields = [
            ('i', c.Integer),
            ('o', c.OctetString, {'implicit': 1}),
            ('b', c.Boolean, {'default': False}),
            ('t', c.UTF8String, {'explicit': 0, 'optional': True}),
        ]

    class Alt(c.Choice):
        _alternatives = [
            ('num', c.Integer),
            ('oct', c.OctetString, {'implicit': 0}),
            ('exp', c.Integer, {'explicit': 1}),
            ('seq', Inner),
            ('lst', Ints, {'implicit': 2}),
        ]

    class WithAlt(c.Sequence):
        _fields = [('k', c.Integer, {'optional': True, 'implicit': 9}), ('alt', Alt, {'optional': True}),
                   ('ealt', Alt, {'explicit': 5, 'optional': True}), ('z', c.Boolean, {'default': False})]

    class Open(c.Sequence):
        _fields = [('t', OidT), ('v', c.Any)]
        _oid_pair = ('t', 'v')
        _oid_specs = {'int': c.Integer, 'seq': Inner, 'str': c.UTF8String, 'enum': Enum}

    class OpenOpt(c.Sequence):
        _fields = [('t', OidT), ('v', c.Any, {'optional': True})]
        _oid_pair = ('t', 'v')
        _oid_specs = {'int': c.Integer, 'seq': Inner, 'str': c.UTF8String}

    class OpenTag(c.Sequence):
        _fields = [('t', OidT), ('v', c.Any, {'explicit': 0})]
        _oid_pair = ('t', 'v')
        _oid_specs = {'int': c.Integer, 'seq': Inner, 'str': c.UTF8String}

    class OpenOct(c.Sequence):
        _fields = [('t', OidT), ('v', c.ParsableOctetString)]
        _oid_pair = ('t', 'v')
        _oid_specs = {'int': c.Integer, 'seq': Inner, 'str': c.UTF8String}

    class Prims(c.Sequence):
        _fields = [('i', Num, {'optional': True}), ('e', Enum, {'optional': True}), ('b', Bits, {'optional': True}),
                   ('n', c.Null, {'optional': True}), ('o', c.ObjectIdentifier, {'optional': True})]

    for k, v in list(locals().items()):
        if isinstance(v, type):
            setattr(Z, k, v)
    return Z


# ---------------------------------------------------------------- calendar

def leap(ctx, y):
    return ctx.all(ctx.eq(y % 4, 0), ctx.any(ctx.not_(ctx.eq(y % 100, 0)), ctx.eq(y % 400, 0)))


def dim(ctx, y, m):
    """days in a month"""
    r = 31
    for k in (4, 6, 9, 11):
        r = ctx.ite(ctx.eq(m, k), 30, r)
    return ctx.ite(ctx.eq(m, 2), ctx.ite(leap(ctx, y), 29, 28), r)


def day_shift(ctx, y, m, d, k):
    """the date k days later, -1 <= k <= 1"""
    d = d + k
    under = d < 1
    pm = ctx.ite(ctx.eq(m, 1), 12, m - 1)
    py = ctx.ite(ctx.eq(m, 1), y - 1, y)
    over = d > dim(ctx, y, m)
    nm = ctx.ite(ctx.eq(m, 12), 1, m + 1)
    ny = ctx.ite(ctx.eq(m, 12), y + 1, y)
    return (ctx.ite(under, py, ctx.ite(over, ny, y)), ctx.ite(under, pm, ctx.ite(over, nm, m)),
            ctx.ite(under, dim(ctx, py, pm), ctx.ite(over, 1, d)))


def named(names, rows):
    """case dicts from rows of arguments; rows may be a function of the tier"""
    names = names.split()
    if callable(rows):
        return lambda tier: named(' '.join(names), rows(tier))
    return [dict(zip(names, r)) for r in rows]


# ---------------------------------------------------------------- IP addresses, RFC 4291 section 2.2

def digit(ctx, c, base):
    """value of a digit, or None"""
    if ctx.all(c >= 48, c <= 57):
        return c - 48
    if base == 16 and ctx.all(c >= 97, c <= 102):
        return c - 87
    if base == 16 and ctx.all(c >= 65, c <= 70):
        return c - 55
    return None


def ref4(ctx, cs):
    """four decimal numbers without leading zeros"""
    out = []
    v = None
    n = 0
    for c in cs:
        d = digit(ctx, c, 10)
        if d is not None:
            if n and ctx.all(v == 0):
                return None
            v = d if n == 0 else v * 10 + d
            n += 1
            if n > 3 or ctx.all(v > 255):
                return None
        elif ctx.all(c == 46):
            if n == 0 or len(out) == 3:
                return None
            out.append(v)
            n = 0
        else:
            return None
    if n == 0 or len(out) != 3:
        return None
    return out + [v]


def ref6(ctx, cs):
    """up to eight groups of up to four hexadecimal digits, one run of zeros left out, the last two groups perhaps as IPv4"""
    groups = []
    gap = None
    i = 0
    n = len(cs)
    if n and ctx.all(cs[0] == 58):
        if n < 2 or not ctx.all(cs[1] == 58):
            return None
        i = 1
    start = i
    v = None
    k = 0
    while i < n:
        c = cs[i]
        i += 1
        d = digit(ctx, c, 16)
        if d is not None:
            if k == 4:
                return None
            v = d if k == 0 else v * 16 + d
            k += 1
        elif ctx.all(c == 58):
            start = i
            if k == 0:
                if gap is not None:
                    return None
                gap = len(groups)
                continue
            if i == n or len(groups) == 8:
                return None
            groups.append((v >> 8, v & 255))
            k = 0
        elif ctx.all(c == 46):
            four = ref4(ctx, cs[start:])
            if four is None or len(groups) > 6:
                return None
            groups.append((four[0], four[1]))
            groups.append((four[2], four[3]))
            k = 0
            break
        else:
            return None
    if k:
        if len(groups) == 8:
            return None
        groups.append((v >> 8, v & 255))
    if gap is not None:
        if len(groups) >= 8:
            return None
        groups = groups[:gap] + [(0, 0)] * (8 - len(groups)) + groups[gap:]
    if len(groups) != 8:
        return None
    return [b for g in groups for b in g]
