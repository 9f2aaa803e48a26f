from pysym.harness import Harness
from hlib import ref_element

MODULES = ('core', 'parser', 'util')


def parse_any(ctx, n, first=None):
    """parse/peek of an arbitrary byte string agree with an independently written BER element grammar"""
    p = ctx.lib.parser
    data = ctx.bytes('data', n)
    if first is not None:
        lo, hi = first
        ctx.assume(ctx.all(data[0] >= lo, data[0] <= hi))
    want = ref_element(data, 0, n)
    st, info = ctx.attempt(p.parse, data)
    if st == 'err':
        ctx.check(isinstance(info, ValueError), 'malformed data raises ValueError')
        ctx.check(want is None, 'well-formed data is not refused')
        st2, e2 = ctx.attempt(p.peek, data)
        ctx.check(st2 == 'err' and isinstance(e2, ValueError), 'peek refuses what parse refuses')
        st3, e3 = ctx.attempt(p.parse, data, strict=True)
        ctx.check(st3 == 'err' and isinstance(e3, ValueError), 'strict refuses what lax refuses')
        ctx.reach('refused')
        return
    ctx.check(want is not None, 'malformed data is not accepted')
    if want is None:
        return
    cls, method, tag, header, contents, trailer = info
    wc, wm, wt, cs, ce, end = want
    ctx.check(ctx.all(ctx.eq(cls, wc), ctx.eq(method, wm), ctx.eq(tag, wt)), 'class, method, tag')
    ctx.check(ctx.eq(header, data[0:cs]), 'header is the leading octets')
    ctx.check(ctx.eq(contents, data[cs:ce]), 'contents')
    ctx.check(ctx.eq(trailer, data[ce:end]), 'trailer')
    ctx.check(ctx.eq(header + contents + trailer, data[0:end]), 'the parts tile a prefix of the input')
    ctx.check(ctx.eq(p.peek(data), end), 'peek is the element length')
    st3, r3 = ctx.attempt(p.parse, data, strict=True)
    if end == n:
        ctx.check(st3 == 'ok' and ctx.eq(tuple(r3), tuple(info)), 'strict accepts an exact element')
        ctx.reach('exact')
    else:
        ctx.check(st3 == 'err' and isinstance(r3, ValueError), 'strict refuses trailing data')
        ctx.reach('trailing')


def nested_indefinite(ctx, depth, n):
    """indefinite-length nesting: the outermost element closes at its own end-of-contents"""
    p = ctx.lib.parser
    inner = ctx.bytes('inner', n)
    tail = ctx.bytes('tail', 1)
    data = b'\x30\x80' * depth + inner + b'\x00\x00' * depth + tail
    want = ref_element(data, 0, len(data))
    st, info = ctx.attempt(p.parse, data)
    if st == 'ok':
        ctx.check(want is not None, 'accepted only when well formed')
        if want is not None:
            ctx.check(ctx.eq(info[4], data[want[3]:want[4]]), 'contents end at the matching end-of-contents')
            ctx.check(ctx.eq(p.peek(data), want[5]), 'length')
        ctx.reach('ok')
    else:
        ctx.check(isinstance(info, ValueError), 'refused with ValueError')
        if depth <= 8:
            ctx.check(want is None, 'nesting this deep is supported')
        ctx.reach('refused')


def truncations(ctx, n, lenform):
    """every proper prefix of an element is refused"""
    p = ctx.lib.parser
    cls = ctx.int('cls', 0, 3)
    method = ctx.int('method', 0, 1)
    tag = ctx.int('tag', 0, 16383)
    contents = ctx.bytes('contents', n)
    der = p.emit(cls, method, tag, contents)
    cut = ctx.int('cut', 0, len(der) - 1)
    st, e = ctx.attempt(p.parse, der[0:cut])
    ctx.check(st == 'err' and isinstance(e, ValueError), 'a truncated element is refused')
    ctx.reach('end')


def types(ctx, value):
    st, e = ctx.attempt(ctx.lib.parser.parse, value)
    ctx.check(st == 'err' and isinstance(e, TypeError), 'parse: TypeError')
    st, e = ctx.attempt(ctx.lib.parser.peek, value)
    ctx.check(st == 'err' and isinstance(e, TypeError), 'peek: TypeError')
    ctx.reach('end')


def cases(tier):
    top = 7 if tier == 'quick' else 9
    out = []
    for n in range(top, 0, -1):
        if n >= 6:
            out += [dict(n=n, first=(64 * c + 32 * m, 64 * c + 32 * m + 31)) for c in range(4) for m in (1, 0)]
        else:
            out.append(dict(n=n))
    return out + [dict(n=0)]


HARNESSES = [
    Harness('parse_any', parse_any, cases, ['refused', 'exact', 'trailing'],
            bounds='every byte string of length 0..7 (0..9 thorough)'),
    Harness('nested_indefinite', nested_indefinite,
            {'quick': [dict(depth=d, n=n) for d in (1, 2, 5, 8, 10, 11, 12) for n in (0, 2, 3)],
             'thorough': [dict(depth=d, n=n) for d in range(1, 15) for n in range(0, 6)]}, ['ok', 'refused'],
            bounds='nesting depth listed, up to 3 (5) arbitrary inner octets'),
    Harness('truncations', truncations, [dict(n=n, lenform=0) for n in (0, 1, 3, 127, 128)], ['end']),
    Harness('types', types, [dict(value=v) for v in ('30', None, 5, [48])], ['end']),
]
