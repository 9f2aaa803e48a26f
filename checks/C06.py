from pysym.harness import Harness

MODULES = ('util',)


def fits(ctx, v, width, signed):
    if signed:
        if width == 0:
            return ctx.eq(v, 0)
        return ctx.all(v >= -(1 << (8 * width - 1)), v < (1 << (8 * width - 1)))
    return ctx.all(v >= 0, v < (1 << (8 * width)))


def auto(ctx, lo, hi, signed):
    """no width: the shortest encoding, at least one octet"""
    u = ctx.lib.util
    v = ctx.int('v', lo, hi)
    st, out = ctx.attempt(u.int_to_bytes, v, signed=signed)
    if not signed:
        ctx.check(ctx.any(st == 'ok', v < 0), 'a non-negative integer is encoded')
        if st == 'err':
            ctx.reach('refused')
            return
        ctx.check(v >= 0, 'a negative integer has no unsigned encoding')
    else:
        ctx.check(st == 'ok', 'every integer has a signed encoding')
        if st == 'err':
            return
    ctx.reach('encoded')
    n = len(out)
    ctx.check(n >= 1, 'at least one octet')
    ctx.check(ctx.eq(u.int_from_bytes(out, signed=signed), v), 'conversion and back returns the integer')
    ctx.check(ctx.eq(ctx.btoi(out, signed), v), 'octets are the big-endian encoding')
    if n > 1:
        ctx.check(ctx.not_(fits(ctx, v, n - 1, signed)), 'no shorter encoding exists')
    ctx.observe('out', out)


def fixed(ctx, lo, hi, signed, width):
    """a width: exactly that many octets or refused"""
    u = ctx.lib.util
    v = ctx.int('v', lo, hi)
    st, out = ctx.attempt(u.int_to_bytes, v, signed=signed, width=width)
    ok = fits(ctx, v, width, signed)
    if st == 'err':
        ctx.reach('refused')
        ctx.check(ctx.not_(ok), 'a value that fits is encoded')
        return
    ctx.reach('encoded')
    ctx.check(ok, 'a value that does not fit is refused')
    ctx.check(len(out) == width, 'exactly as wide as asked for')
    ctx.check(ctx.eq(u.int_from_bytes(out, signed=signed), v), 'conversion and back returns the integer')
    ctx.observe('out', out)


def decode(ctx, n, signed):
    """any octets decode to the number they denote, whatever the leading octets"""
    u = ctx.lib.util
    b = ctx.bytes('b', n)
    v = u.int_from_bytes(b, signed=signed)
    want = 0
    for i in range(n):
        want = want * 256 + b[i]
    if signed and n:
        want = ctx.ite(b[0] >= 128, want - (1 << (8 * n)), want)
    ctx.check(ctx.eq(v, want), 'octets denote the number')
    ctx.check(ctx.eq(u.int_to_bytes(v, signed=signed, width=n), b), 'the same width gives the octets back')
    ctx.reach('decoded')
    ctx.observe('v', v)


def big(ctx, bits, signed, delta):
    """around powers of two at large widths"""
    u = ctx.lib.util
    d = ctx.int('d', -delta, delta)
    sign = ctx.choice('sign', [1, -1] if signed else [1])
    v = sign * (1 << bits) + d
    st, out = ctx.attempt(u.int_to_bytes, v, signed=signed)
    ctx.check(st == 'ok', 'encoded')
    if st == 'err':
        return
    n = len(out)
    ctx.check(ctx.eq(u.int_from_bytes(out, signed=signed), v), 'conversion and back returns the integer')
    ctx.check(ctx.not_(fits(ctx, v, n - 1, signed)), 'no shorter encoding exists')
    ctx.check(fits(ctx, v, n, signed), 'the value fits the width')
    ctx.reach('big')
    ctx.observe('out', out)


def big_cases(tier):
    ks = (39, 47, 55, 63, 64, 127, 128, 255, 256, 511, 512, 520, 521) if tier == 'quick' else sorted(set(
        list(range(30, 140)) + [255, 256, 383, 384, 511, 512, 520, 521, 1023, 1024]))
    return [dict(bits=k, signed=s, delta=3) for k in ks for s in (True, False)]


HARNESSES = [
    Harness('auto', auto, {'quick': [dict(lo=-(1 << 32), hi=1 << 32, signed=s) for s in (True, False)] + [
        dict(lo=0, hi=1 << 80, signed=False), dict(lo=-(1 << 80), hi=1 << 80, signed=True)],
        'thorough': [dict(lo=-(1 << 136), hi=1 << 136, signed=s) for s in (True, False)]}, ['encoded', 'refused'],
        bounds='integers up to 2^80 (2^136) in magnitude'),
    Harness('fixed', fixed, {'quick': [dict(lo=-(1 << 33), hi=1 << 33, signed=s, width=w) for s in (True, False) for w in (0, 1, 2, 3, 4, 5)],
                             'thorough': [dict(lo=-(1 << 140), hi=1 << 140, signed=s, width=w) for s in (True, False) for w in range(0, 20)]},
            ['encoded', 'refused'], bounds='integers up to 2^33 (2^140), widths 0-5 (0-19)'),
    Harness('decode', decode, {'quick': [dict(n=n, signed=s) for n in (0, 1, 2, 3, 4, 8, 16, 33) for s in (True, False)],
                               'thorough': [dict(n=n, signed=s) for n in list(range(0, 40)) + [64, 66, 128, 256] for s in (True, False)]},
            ['decoded'], bounds='up to 33 (256) octets'),
    Harness('big', big, big_cases, ['big'], bounds='within 3 of powers of two up to 2^521 (2^1024)'),
]
