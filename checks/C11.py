from pysym.harness import Harness
from hlib import encode, ref_tlv, leap, dim, day_shift

MODULES = ('core', 'util')
TAG = {'UTCTime': 23, 'GeneralizedTime': 24}


def dig(ctx, s, i, n):
    v = 0
    for j in range(n):
        v = v * 10 + (ctx.get(s, i + j) - 48)
    return v


def aware(ctx, y0, y1, tz, us):
    """(status, datetime, fields, minutes east of UTC)"""
    D = ctx.lib.datetime
    util = ctx.lib.util
    y = ctx.int('y', y0, y1)
    m, d = ctx.int('mo', 1, 12), ctx.int('d', 1, 31)
    H, M, S = ctx.int('H', 0, 23), ctx.int('M', 0, 59), ctx.int('S', 0, 59)
    u = ctx.int('us', us[0], us[1]) * us[2] if us else 0
    if tz == 'utc':
        off, z = 0, D.timezone.utc
    elif tz == 'dst':
        off, z = 0, util.utc_with_dst
    else:
        off = ctx.int('off', -1439, 1439) if tz == 'any' else tz
        z = util.create_timezone(D.timedelta(minutes=off))
    if y1 == 0:
        st, dt = ctx.attempt(util.extended_datetime, 0, m, d, H, M, S, u, z)
    else:
        st, dt = ctx.attempt(D.datetime, y, m, d, H, M, S, u, z)
    ctx.assume(d <= dim(ctx, y, m))
    ctx.check(st == 'ok', 'every date of the calendar can be made')
    return dt, (y, m, d, H, M, S, u), off


def from_object(ctx, cls, y0, y1, tz, us=None):
    core = ctx.lib.core
    t = getattr(core, cls)
    dt, (y, m, d, H, M, S, u), off = aware(ctx, y0, y1, tz, us)
    total = H * 60 + M - off
    k = ctx.ite(total < 0, -1, ctx.ite(total >= 1440, 1, 0))
    wy, wm, wd = day_shift(ctx, y, m, d, k)
    lo, hi = (1950, 2049) if cls == 'UTCTime' else (0, 9999)
    ok = ctx.all(wy >= lo, wy <= hi)
    st, o = ctx.attempt(t, dt)
    if st == 'err':
        ctx.check(isinstance(o, ValueError), 'refused with ValueError')
        ctx.check(ctx.not_(ok), 'every instant of the years in range is encoded')
        ctx.reach('refused')
        return
    ctx.check(ok, 'instants out of range are refused')
    c = o.contents
    p = 2 if cls == 'UTCTime' else 4
    n = len(c)
    ctx.check(n >= p + 11 and ctx.eq(ctx.get(c, n - 1), 90), 'ends in Z')
    ctx.check(ctx.all(*[ctx.all(ctx.get(c, i) >= 48, ctx.get(c, i) <= 57) for i in range(p + 10)]), 'digits')
    f = [dig(ctx, c, 0, p)] + [dig(ctx, c, p + 2 * i, 2) for i in range(5)]
    if cls == 'UTCTime':
        f[0] = ctx.ite(f[0] < 50, f[0] + 2000, f[0] + 1900)
    ctx.check(ctx.all(ctx.eq(f[0], wy), ctx.eq(f[1], wm), ctx.eq(f[2], wd)), 'the date in UTC')
    ctx.check(ctx.all(ctx.eq(f[3] * 60 + f[4], total - 1440 * k), f[4] <= 59, ctx.eq(f[5], S)), 'the time in UTC')
    if n > p + 11:
        ctx.check(ctx.all(cls == 'GeneralizedTime', ctx.eq(ctx.get(c, p + 10), 46), n <= p + 18, n > p + 12), 'fraction')
        fr = c[p + 11:n - 1]
        ctx.check(ctx.not_(ctx.eq(ctx.get(c, n - 2), 48)), 'no trailing zeros')
        ctx.check(ctx.eq(dig(ctx, fr, 0, len(fr)) * 10 ** (6 - len(fr)), u), 'the microseconds')
        ctx.reach('fraction')
    else:
        ctx.check(ctx.any(cls == 'UTCTime', ctx.eq(u, 0)), 'a fraction is not left out')
    ctx.check(ctx.eq(o.dump(), ref_tlv(ctx, TAG[cls], c)), 'encoding')
    if u == 0 or cls == 'GeneralizedTime':
        same(ctx, o.native, dt)
        w = t.load(o.dump(), strict=True)
        same(ctx, w.native, dt)
        ctx.check(ctx.eq(t(w.native).contents, c), 'encoding what was read changes nothing')
    ctx.reach('encoded')
    ctx.observe('c', c)


def same(ctx, v, dt):
    ctx.check(v is not None and v.tzinfo is not None, 'reads back timezone aware')
    ctx.check(v == dt, 'reads back as the same instant')


def replaced(ctx, cls):
    """a second value replaces the first one completely"""
    core = ctx.lib.core
    D = ctx.lib.datetime
    t = getattr(core, cls)
    dt, (y, m, d, H, M, S, u), off = aware(ctx, 1999, 2001, 0, None)
    o = t(D.datetime(1990, 5, 17, 3, 4, 5, tzinfo=D.timezone.utc))
    first = o.native
    ctx.check(o.native == D.datetime(1990, 5, 17, 3, 4, 5, tzinfo=D.timezone.utc), 'the first value')
    o.set(dt)
    ctx.check(ctx.all(ctx.eq(o.native.second, S), ctx.eq(o.native.day, d), o.native == dt), 'the second value')
    ctx.check(ctx.eq(t.load(o.dump()).native, dt), 'in the encoding too')
    o.set(t(first).contents.decode('ascii'))
    ctx.check(o.native == first, 'set from text')
    st, e = ctx.attempt(t, D.datetime(2000, 1, 1))
    ctx.check(st == 'err' and isinstance(e, ValueError), 'naive times are refused')
    ctx.reach('replaced')


def ref_read(ctx, cls, b):
    """fields of a text of the grammar, or None: (year, month, day, hour, minute, second, fraction numerator, its digits, unit, sign, dh, dm)"""
    n = len(b)
    p = 2 if cls == 'UTCTime' else 4

    def digits(i, k):
        return i + k <= n and ctx.all(*[ctx.all(b[i + j] >= 48, b[i + j] <= 57) for j in range(k)])

    def num(i, k):
        v = 0
        for j in range(k):
            v = v * 10 + (b[i + j] - 48)
        return v
    if not digits(0, p + 6):
        return None
    f = [num(0, p), num(p, 2), num(p + 2, 2), num(p + 4, 2), 0, 0]
    i = p + 6
    unit = 3600
    if digits(i, 2):
        f[4] = num(i, 2)
        i += 2
        unit = 60
        if digits(i, 2):
            f[5] = num(i, 2)
            i += 2
            unit = 1
    elif cls == 'UTCTime':
        return None
    fr, fd = 0, 0
    if cls == 'GeneralizedTime' and i < n and ctx.any(b[i] == 44, b[i] == 46):
        j = i + 1
        while j < n and digits(j, 1):
            j += 1
        fd = j - i - 1
        if fd == 0:
            return None
        fr = num(i + 1, fd)
        i = j
    sign, dh, dm = None, 0, 0
    if i < n and b[i] == 90:
        sign = 0
        i += 1
    elif i < n and ctx.any(b[i] == 43, b[i] == 45):
        sign = ctx.ite(b[i] == 43, 1, -1)
        if not digits(i + 1, 2):
            return None
        dh = num(i + 1, 2)
        i += 3
        if digits(i, 2):
            dm = num(i, 2)
            i += 2
        elif cls == 'UTCTime':
            return None
    elif cls == 'UTCTime':
        return None
    if i != n:
        return None
    if cls == 'UTCTime':
        f[0] = ctx.ite(f[0] < 50, f[0] + 2000, f[0] + 1900)
    valid = ctx.all(f[1] >= 1, f[1] <= 12, f[2] >= 1, f[2] <= dim(ctx, f[0], f[1]), f[3] <= 23, f[4] <= 59, f[5] <= 59, dh <= 23, dm <= 59)
    return valid, f, fr, fd, unit, sign, dh, dm


def from_text(ctx, cls, ranges):
    """ranges: for each octet, the values it takes"""
    core = ctx.lib.core
    D = ctx.lib.datetime
    t = getattr(core, cls)
    b = [ctx.int('b%d' % i, lo, hi) for i, (lo, hi) in enumerate(ranges)]
    c = ctx.byte_str(b)
    o = t.load(encode((TAG[cls], c)))
    st, v = ctx.attempt(lambda: o.native)
    ref = ref_read(ctx, cls, b)
    if st == 'err':
        ctx.check(isinstance(v, ValueError) or isinstance(v, OverflowError) and False, 'refused with ValueError')
        if ref is None:
            ctx.reach('refused')
            return
        # a carry out of the last second of the year 9999 is not representable
        ctx.check(ctx.any(ctx.not_(ref[0]), ctx.all(ref[1][0] == 9999, ref[3] > 0)), 'texts of the grammar are read')
        ctx.reach('refused value')
        return
    ctx.check(ref is not None, 'texts outside the grammar are refused')
    if ref is None:
        return
    valid, f, fr, fd, unit, sign, dh, dm = ref
    ctx.check(valid, 'values out of range are refused')
    if sign is None:
        ctx.check(v.tzinfo is None, 'no offset')
    else:
        z = v.utcoffset()
        ctx.check(ctx.eq(z.days * 86400 + z.seconds, sign * (dh * 60 + dm) * 60), 'the offset')
    if fd == 0:
        got = (v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond)
        ctx.check(ctx.all(*[ctx.eq(x, y) for x, y in zip(got, f + [0])]), 'the fields')
    else:
        # microseconds since the start of the hour, minute or second given, to the nearest one
        scale = 10 ** fd
        whole = [f[3], f[4], f[5]][:{3600: 1, 60: 2, 1: 3}[unit]]
        sod = v.hour * 3600 + v.minute * 60 + v.second
        base = 0
        for i, x in enumerate(whole):
            base = base + x * (3600, 60, 1)[i]
        sameday = ctx.all(ctx.eq(v.year, f[0]), ctx.eq(v.month, f[1]), ctx.eq(v.day, f[2]))
        ny, nm, nd = day_shift(ctx, f[0], f[1], f[2], 1)
        nextday = ctx.all(ctx.eq(v.year, ny), ctx.eq(v.month, nm), ctx.eq(v.day, nd))
        ctx.check(ctx.any(sameday, nextday), 'the date')
        secs = ctx.ite(sameday, sod, sod + 86400) - base
        diff = (secs * 1000000 + v.microsecond) * scale - fr * unit * 1000000
        ctx.check(ctx.all(diff * 2 <= scale, diff * 2 >= -scale), 'the fraction, to the nearest microsecond')
        ctx.reach('fraction')
    if isinstance(v, ctx.lib.util.extended_datetime):
        ctx.check(f[0] == 0, 'year zero')
        ctx.reach('year 0')
    else:
        ctx.check(v.year > 0, 'an ordinary year')
    ctx.reach('read')
    ctx.observe('v', v.microsecond)


D9 = (48, 57)
ANY = (0, 255)


def shape(cls, s, **special):
    """ranges of a text like 'YYMMDDhhmmssZ': letters are any digit, other characters stand for themselves"""
    out = []
    for ch in s:
        out.append(D9 if ch in 'YMDhmsf' else {'?': ANY, '#': (0x28, 0x3b), '+': (43, 45)}.get(ch, (ord(ch), ord(ch))))
    return out


def text_cases(tier):
    out = []
    # anything at all, of each length
    for n in range(0, 12 if tier == 'quick' else 18):
        out.append(dict(cls='UTCTime', ranges=[ANY] * n))
    for n in range(0, 12 if tier == 'quick' else 14):
        out.append(dict(cls='GeneralizedTime', ranges=[ANY] * n))
    # digits with anything behind them
    for s in ('YYMMDDhhmm', 'YYMMDDhhmmss'):
        for tail in ('Z', '+hhmm', '?', '??', '+hh?m', '?Z', 'Z?') + (() if tier == 'quick' else ('??mm', '+????')):
            out.append(dict(cls='UTCTime', ranges=shape('UTCTime', s + tail)))
    for t in ('hh', 'hhmm', 'hhmmss'):
        for tail in ('', 'Z', '+hh', '?', '??', '.f', '.Z') + (() if tier == 'quick' else ('+hhmm', '+hh?', '???', '.ff+hh', '.f??', '+hh??', ',fffZ')):
            out.append(dict(cls='GeneralizedTime', ranges=shape('GeneralizedTime', 'YYYYMMDD' + t + tail)))
        # one date at a time, with any time of that day
        for date in ('20000228', '19991231', '00001231') + (() if tier == 'quick' else ('19000228', '00000228', '99991231', '00010101')):
            for tail in (('+hhmm', '.f??', ',fffZ', '.ffffffZ', '+hh?') if date == '20000228' else ('.ffffffZ',) if t == 'hhmmss' else ()) + (
                    () if tier == 'quick' else ('.???', '.ffffff+hhmm', '.fffffffff', '.fffffffZ', '.ffffffff', '.ff+hhmm')):
                out.append(dict(cls='GeneralizedTime', ranges=shape('GeneralizedTime', date + t + tail)))
    # fractions that are no whole number of microseconds
    for s in ('20000228hhmmss.00000ff', '19991231235959.999999f', '20000228hhmm.123456ff', '20000228hh.0000000ff') + (
            () if tier == 'quick' else ('00001231235959.999999f', '20000228hhmmss.ffffffff', '20000228hhmm.ffffffff')):
        for z in ('Z', '') if s.endswith('ff') else ('Z',):
            out.append(dict(cls='GeneralizedTime', ranges=shape('GeneralizedTime', s + z)))
    return out


def object_cases(tier):
    out = []
    wide = tier != 'quick'
    for z in ('utc', 'dst', 330, -90, 1439, -1) + (('any', -1439, 1) if wide else ()):
        small = z in ('any', 'dst', 1439, -1) and (not wide or z == 'any')
        for y0, y1 in ((1949, 1951), (1999, 2000), (2048, 2050)) if small else ((1949, 2050),):
            out.append(dict(cls='UTCTime', y0=y0, y1=y1, tz=z))
        for y0, y1 in ((2, 2), (1900, 1901), (9998, 9998)) if small else ((2, 9998),) if wide or z == 'utc' else ((3, 5), (1998, 2001)):
            out.append(dict(cls='GeneralizedTime', y0=y0, y1=y1, tz=z))
        for y in (1, 9999, 0):
            out.append(dict(cls='GeneralizedTime', y0=y, y1=y, tz=z))
    out.append(dict(cls='UTCTime', y0=1999, y1=2000, tz=60, us=(0, 99, 10000)))
    for us in ((1, 9, 1), (1, 99, 10000)) + (() if tier == 'quick' else ((0, 999, 1000), (0, 9999, 1), (0, 99999, 10), (0, 999999, 1))):
        out.append(dict(cls='GeneralizedTime', y0=1999, y1=2000, tz=-60, us=us))
        out.append(dict(cls='GeneralizedTime', y0=0, y1=0, tz=-60, us=us))
    return out


HARNESSES = [
    Harness('from_object', from_object, object_cases, ['encoded', 'refused', 'fraction'],
            bounds='every date and time of the years 0-9999 (UTCTime 1949-2050), offsets -23:59 to +23:59'),
    Harness('replaced', replaced, [dict(cls='UTCTime'), dict(cls='GeneralizedTime')], ['replaced']),
    Harness('from_text', from_text, text_cases, ['read', 'refused', 'refused value', 'fraction', 'year 0'],
            bounds='any octets up to 11 (17); texts of every shape with any digits, up to two (three) arbitrary octets after or inside them'),
]
