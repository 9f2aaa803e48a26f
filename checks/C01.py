from pysym.harness import Harness
from hlib import ref_len, minimal_tag_octets

MODULES = ('core', 'parser', 'util')


def emit_parse(ctx, n, tagmax, big=False):
    """emit any class/method/tag around contents of length n: shortest header, and parse/peek give everything back"""
    p = ctx.lib.parser
    cls = ctx.int('cls', 0, 3)
    method = ctx.int('method', 0, 1)
    tag = ctx.int('tag', 0, tagmax)
    contents = bytes(n) if big else ctx.bytes('contents', n)
    der = p.emit(cls, method, tag, contents)
    want = minimal_tag_octets(ctx, cls, method, tag) + ref_len(n) + contents
    ctx.check(ctx.eq(der, want), 'shortest DER header followed by the contents')
    c2, m2, t2, header, body, trailer = p.parse(der, strict=True)
    ctx.check(ctx.all(ctx.eq(c2, cls), ctx.eq(m2, method), ctx.eq(t2, tag)), 'class, method and tag come back')
    ctx.check(ctx.eq(body, contents), 'contents come back')
    ctx.check(ctx.eq(header + body, der), 'header and contents are the whole encoding')
    ctx.check(ctx.eq(trailer, b''), 'no trailer')
    ctx.check(ctx.eq(p.peek(der), len(der)), 'peek is the length')
    if tag >= 31:
        ctx.reach('long tag')
    else:
        ctx.reach('short tag')


def emit_trailing(ctx, n, extra):
    """an emitted element followed by other bytes: peek and non-strict parse stop at its end, strict parse refuses"""
    p = ctx.lib.parser
    cls = ctx.int('cls', 0, 3)
    method = ctx.int('method', 0, 1)
    tag = ctx.int('tag', 0, 16383)
    contents = ctx.bytes('contents', n)
    more = ctx.bytes('more', extra)
    der = p.emit(cls, method, tag, contents)
    ctx.check(ctx.eq(p.peek(der + more), len(der)), 'peek stops at the end of the element')
    info = p.parse(der + more)
    ctx.check(ctx.eq(info[3] + info[4] + info[5], der), 'parse stops at the end of the element')
    st, e = ctx.attempt(p.parse, der + more, strict=True)
    ctx.check(st == 'err' and isinstance(e, ValueError), 'strict parse refuses trailing data')
    ctx.reach('end')


def emit_refuses(ctx, which):
    """arguments outside the legal ranges are refused"""
    p = ctx.lib.parser
    cls = ctx.int('cls', -300, 300) if which == 'cls' else ctx.int('cls', 0, 3)
    method = ctx.int('method', -300, 300) if which == 'method' else ctx.int('method', 0, 1)
    tag = ctx.int('tag', -300, 300) if which == 'tag' else ctx.int('tag', 0, 300)
    st, r = ctx.attempt(p.emit, cls, method, tag, b'ab')
    legal = ctx.all(cls >= 0, cls <= 3, method >= 0, method <= 1, tag >= 0)
    if st == 'ok':
        ctx.check(legal, 'only legal arguments are encoded')
        ctx.reach('ok')
    else:
        ctx.check(isinstance(r, ValueError), 'refused with ValueError')
        ctx.check(ctx.not_(legal), 'legal arguments are not refused')
        ctx.reach('refused')


def emit_types(ctx, args):
    """arguments of the wrong type raise TypeError"""
    st, r = ctx.attempt(ctx.lib.parser.emit, *args)
    ctx.check(st == 'err' and isinstance(r, TypeError), 'TypeError')
    ctx.reach('end')


def emit_cases(tier):
    out = [dict(n=n, tagmax=2 ** 35 - 1) for n in (0, 1, 2, 3)]
    out += [dict(n=n, tagmax=2 ** 14 - 1) for n in (127, 128, 129)]
    ns = [126, 127, 128, 130, 254, 255, 256, 257, 65535, 65536, 65537, 16777215, 16777216]
    if tier == 'thorough':
        out += [dict(n=n, tagmax=2 ** 70 - 1) for n in (0, 2)]
        ns = sorted(set(ns + list(range(100, 300, 1)) + [511, 512, 1000, 32767, 32768, 131071]))
    out += [dict(n=n, tagmax=200, big=True) for n in ns]
    return out


HARNESSES = [
    Harness('emit_parse', emit_parse, emit_cases, ['long tag', 'short tag'],
            bounds='tag < 2^35 (2^70 thorough); contents length from the listed sizes incl. every length-octet boundary up to 2^24; '
                   'contents bytes symbolic up to 129, zero above'),
    Harness('emit_trailing', emit_trailing, [dict(n=n, extra=k) for n in (0, 1, 127, 128) for k in (1, 2)], ['end']),
    Harness('emit_refuses', emit_refuses, [dict(which=w) for w in ('cls', 'method', 'tag')], ['ok', 'refused'],
            bounds='each argument in -300..300'),
    Harness('emit_types', emit_types, [dict(args=a) for a in (
        ('1', 0, 0, b''), (0, None, 0, b''), (0, 0, b'1', b''), (0, 0, 0, 'text'), (0, 0, 0, None), (0, 0, 1.5, b''))], ['end']),
]
