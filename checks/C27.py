"""C27: signature conversion to and from the fixed-width form is lossless"""
from pysym.harness import Harness
from hlib import named
from C26 import number

MODULES = ('core', 'parser', 'util', 'algos')


def size(ctx, n, cut):
    """the number of octets n (below 256 ** cut) needs, at least one"""
    k = 1
    while k < cut:
        if n < 256 ** k:
            return k
        k += 1
    return cut


def full(ctx, name, n):
    return ctx.btoi(ctx.bytes(name, n))


def to(ctx, nr, ns, width, received, wide):
    A = ctx.lib.algos
    r = number(ctx, 'r', nr) if wide else full(ctx, 'r', nr)
    s = number(ctx, 's', ns) if wide else full(ctx, 's', ns)
    sig = A.DSASignature({'r': r, 's': s})
    if received:
        sig = A.DSASignature.load(sig.dump())
    need = max(nr, ns) if wide else max(size(ctx, r, nr), size(ctx, s, ns))
    if width is None:
        out = sig.to_p1363()
        width = need
    else:
        out = ctx.attempt(sig.to_p1363, width=width)
        if need > width:
            ctx.check(out[0] == 'err' and isinstance(out[1], ValueError), 'a width too small for the signature is not refused with ValueError')
            ctx.reach('too small')
            return
        ctx.check(out[0] == 'ok', 'a width that fits the signature is refused')
        if out[0] != 'ok':
            return
        out = out[1]
    ctx.check(len(out) == 2 * width, 'the halves are not both of the width of the larger number or the one asked for')
    ctx.check(ctx.eq(out, ctx.join(b'', [ctx.itob(r, width), ctx.itob(s, width)])), 'the fixed-width form is not r followed by s')
    back = A.DSASignature.from_p1363(out)
    ctx.check(ctx.eq(back['r'].native, r) and ctx.eq(back['s'].native, s), 'converting to the fixed-width form and back changes the numbers')
    ctx.check(ctx.eq(back.dump(), sig.dump()), 'converting to the fixed-width form and back changes the encoding')
    ctx.reach('to')


def of(ctx, n):
    A = ctx.lib.algos
    if n <= 8:
        data = ctx.bytes('data', n)
    else:
        # the two outer octets of each half are unknown
        h = n // 2
        data = ctx.join(b'', [ctx.bytes('r_top', 1), b'\x80' + b'\0' * (h - 3), ctx.bytes('r_low', 1),
                              ctx.bytes('s_top', 1), b'\0' * (n - h - 2), ctx.bytes('s_low', 1)])
    r = ctx.attempt(A.DSASignature.from_p1363, data)
    if n % 2:
        ctx.check(r[0] == 'err' and isinstance(r[1], ValueError), 'halves of different widths are not refused with ValueError')
        ctx.reach('odd')
        return
    ctx.check(r[0] == 'ok', 'a signature in the fixed-width form is refused')
    if r[0] != 'ok':
        return
    h = n // 2
    sig = A.DSASignature.load(r[1].dump())
    ctx.check(ctx.eq(sig['r'].native, ctx.btoi(data[:h])) and ctx.eq(sig['s'].native, ctx.btoi(data[h:])), 'the fixed-width form is read as other numbers')
    if h:
        ctx.check(ctx.eq(sig.to_p1363(width=h), data), 'the fixed-width form does not come back')
    ctx.reach('of')


def negative(ctx, which, n):
    A = ctx.lib.algos
    v = ctx.int('v', -256 ** n, -1)
    w = ctx.int('w', 0, 255)
    sig = A.DSASignature.load(A.DSASignature({'r': v, 's': w} if which == 'r' else {'r': w, 's': v}).dump())
    r = ctx.attempt(sig.to_p1363)
    ctx.check(r[0] == 'err' and isinstance(r[1], ValueError), 'a negative number is not refused with ValueError')
    ctx.reach('negative')


def to_rows(tier):
    top = 2 if tier == 'quick' else 4
    rows = [(a, b, w, rec, False) for a in range(1, top + 1) for b in range(1, top + 1) for w in (None, 1, 2, 3, 5) for rec in (False, True)]
    big = (1, 20, 21, 32, 66) if tier == 'quick' else (1, 2, 3, 14, 20, 21, 28, 31, 32, 33, 48, 65, 66, 72)
    rows += [(a, b, w, True, True) for a in big for b in big for w in (None, max(a, b) - 1, max(a, b), max(a, b) + 3) if w != 0]
    return rows


HARNESSES = [
    Harness('to', to, named('nr ns width received wide', to_rows), reach=['to', 'too small'],
            bounds='all numbers of up to 2 octets (thorough 4); numbers of up to 66 octets (thorough 72) with unknown outer octets; no width, one too small, exact and larger'),
    Harness('of', of, named('n', lambda tier: [(n,) for n in (list(range(0, 7)) + [40, 63, 64] if tier == 'quick' else list(range(0, 9)) + [20, 40, 63, 64, 96, 131, 132])]),
            reach=['of', 'odd'], bounds='every octet string of up to 6 octets (thorough 8) and ones of 40, 63, 64 (thorough 132) with unknown outer octets in each half'),
    Harness('negative', negative, named('which n', [('r', 1), ('r', 2), ('s', 1), ('s', 2)]), reach=['negative'], bounds='all negative numbers of up to two octets'),
]
