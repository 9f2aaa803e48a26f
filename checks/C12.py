from pysym.harness import Harness
from hlib import leap, dim, day_shift

MODULES = ('util',)
DAY = 86400


def ordinal(ctx, y, m, d):
    """days since 0000-01-01"""
    lp = leap(ctx, y)
    r = d - 1
    for k, n in enumerate((0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30)):
        r = r + ctx.ite(m > k, n, 0)
    r = r + ctx.ite(ctx.all(m > 2, lp), 1, 0)
    y1 = y - 1
    return r + ctx.ite(ctx.eq(y, 0), 0, 366 + 365 * y1 + y1 // 4 - y1 // 100 + y1 // 400)


def zone(ctx, tz):
    D = ctx.lib.datetime
    if tz is None:
        return None
    return D.timezone.utc if tz == 0 else ctx.lib.util.create_timezone(D.timedelta(minutes=tz))


def moment(ctx, p, years, tz, us=0, months=(1, 12), sec=59):
    """a datetime of the years given, with its seconds since 0000-01-01T00:00 in UTC"""
    D = ctx.lib.datetime
    util = ctx.lib.util
    y = ctx.int(p + 'y', *years)
    m, d = ctx.int(p + 'mo', *months), ctx.int(p + 'd', 1, 31)
    H, M, S = ctx.int(p + 'H', 0, 23), ctx.int(p + 'M', 0, 59), ctx.int(p + 'S', 0, sec) if sec else 0
    u = ctx.int(p + 'us', 0, us) if us else 0
    ctx.assume(d <= dim(ctx, y, m))
    if years == (0, 0):
        v = util.extended_datetime(0, m, d, H, M, S, u, zone(ctx, tz))
    else:
        v = D.datetime(y, m, d, H, M, S, u, zone(ctx, tz))
    secs = H * 3600 + M * 60 + S - (tz or 0) * 60
    k = ctx.ite(secs < 0, -1, ctx.ite(secs >= DAY, 1, 0))
    return v, (y, m, d, H, M, S, u), (ordinal(ctx, y, m, d) + k, secs - k * DAY)


def before(ctx, a, b):
    return ctx.any(a[0] < b[0], ctx.all(ctx.eq(a[0], b[0]), a[1] < b[1]))


def same(ctx, a, b):
    return ctx.all(ctx.eq(a[0], b[0]), ctx.eq(a[1], b[1]))


def fields(v):
    return (v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond)


def order(ctx, lt, eq, a, b):
    """every operator agrees with the order"""
    for x, y, l in ((a, b, lt), (b, a, ctx.not_(ctx.any(lt, eq)))):
        ctx.check(ctx.eq(x < y, l), '<')
        ctx.check(ctx.eq(x <= y, ctx.any(l, eq)), '<=')
        ctx.check(ctx.eq(x > y, ctx.not_(ctx.any(l, eq))), '>')
        ctx.check(ctx.eq(x >= y, ctx.not_(l)), '>=')
        ctx.check(ctx.eq(x == y, eq), '==')
        ctx.check(ctx.eq(x != y, ctx.not_(eq)), '!=')


def dates(ctx, other):
    D = ctx.lib.datetime
    util = ctx.lib.util
    m, d = ctx.int('m', 1, 12), ctx.int('d', 1, 31)
    m2, d2 = ctx.int('m2', 1, 12), ctx.int('d2', 1, 31)
    st, a = ctx.attempt(util.extended_date, 0, m, d)
    if d > dim(ctx, 0, m):
        ctx.check(st == 'err' and isinstance(a, ValueError), 'days outside the calendar are refused')
        ctx.reach('refused')
        return
    ctx.check(st == 'ok', 'every day of the year exists')
    ctx.check(ctx.all(ctx.eq(a.year, 0), ctx.eq(a.month, m), ctx.eq(a.day, d)), 'fields')
    if other == 'ext':
        ctx.assume(d2 <= dim(ctx, 0, m2))
        b = util.extended_date(0, m2, d2)
        order(ctx, ctx.any(m < m2, ctx.all(ctx.eq(m, m2), d < d2)), ctx.all(ctx.eq(m, m2), ctx.eq(d, d2)), a, b)
    else:
        y = ctx.int('y', 1, 9999)
        ctx.assume(d2 <= dim(ctx, y, m2))
        order(ctx, True, False, a, D.date(y, m2, d2))
    st, e = ctx.attempt(lambda: a < 5)
    ctx.check(st == 'err' and isinstance(e, TypeError) and (a == 5) is False, 'other types')
    ctx.reach('ordered')


def two(ctx, k, n=2):
    return ctx.str(k).zfill(n)


def date_text(ctx):
    D = ctx.lib.datetime
    util = ctx.lib.util
    m, d = ctx.int('m', 1, 12), ctx.int('d', 1, 31)
    ctx.assume(d <= dim(ctx, 0, m))
    a = util.extended_date(0, m, d)
    want = ctx.join('', ['0000-', two(ctx, m), '-', two(ctx, d)])
    ctx.check(ctx.eq(a.isoformat(), want), 'isoformat')
    ctx.check(ctx.eq(ctx.str(a), want), 'str')
    ctx.check(ctx.eq(a.strftime('%d/%m.%Y'), ctx.join('', [two(ctx, d), '/', two(ctx, m), '.0000'])), 'strftime')
    ctx.check(ctx.eq(a.strftime('20%Y24%m'), ctx.join('', ['20000024', two(ctx, m)])), 'strftime leaves other digits alone')
    # replacing fields
    y = ctx.int('y', 0, 9999)
    r2 = ctx.int('d2', 1, 31)
    st, b = ctx.attempt(a.replace, y, None, r2)
    if r2 > dim(ctx, y, m):
        ctx.check(st == 'err' and isinstance(b, ValueError), 'refused')
    else:
        ctx.check(st == 'ok', 'replaced')
        ctx.check(ctx.all(ctx.eq(b.year, y), ctx.eq(b.month, m), ctx.eq(b.day, r2)), 'replaced fields')
        ctx.check(ctx.eq(isinstance(b, D.date), y > 0), 'other years are ordinary dates')
    ctx.check(ctx.all(a.replace(day=1) <= a, ctx.eq(a.replace(month=1).day, d)), 'replace by name')
    ctx.reach('text')


def compare(ctx, ya, ta, yb, tb, **lim):
    a, fa, sa = moment(ctx, 'a', ya, ta, **lim)
    b, fb, sb = moment(ctx, 'b', yb, tb, **lim)
    if (ta is None) != (tb is None):
        st, e = ctx.attempt(lambda: a < b)
        ctx.check(st == 'err' and isinstance(e, TypeError), 'naive and aware times are not ordered')
        ctx.check((a == b) is False and (b == a) is False, 'and not equal')
        ctx.reach('mixed')
        return
    order(ctx, before(ctx, sa, sb), same(ctx, sa, sb), a, b)
    ctx.reach('ordered')


def difference(ctx, ya, ta, yb, tb, **lim):
    D = ctx.lib.datetime
    a, fa, sa = moment(ctx, 'a', ya, ta, **lim)
    b, fb, sb = moment(ctx, 'b', yb, tb, **lim)
    x = a - b
    ctx.check(isinstance(x, D.timedelta), 'a duration')
    # days and seconds are in normal form: a borrow from the days
    late = sa[1] < sb[1]
    days = sa[0] - sb[0] - ctx.ite(late, 1, 0)
    secs = sa[1] - sb[1] + ctx.ite(late, DAY, 0)
    ctx.check(ctx.all(ctx.eq(x.days, days), ctx.eq(x.seconds, secs), ctx.eq(x.microseconds, 0)), 'the difference')
    ctx.check(ctx.eq(b - a, -x), 'the other way around')
    ctx.reach('difference')


def inverse(ctx, tz, span, secs):
    """adding and subtracting a duration, and the difference of the two (any size: add and difference together)"""
    D = ctx.lib.datetime
    b, fb, sb = moment(ctx, 'b', (0, 0), tz)
    k = ctx.int('k', *span)
    r = ctx.int('r', 0, secs) if secs else 0
    d = D.timedelta(days=k, seconds=r)
    st, a = ctx.attempt(lambda: b + d)
    if st == 'err':
        ctx.reach('outside')
        return
    ctx.check(a - b == d, 'the difference with the sum')
    ctx.check(b - a == -d, 'the other way around')
    if isinstance(a, ctx.lib.util.extended_datetime):
        ctx.check(a - d == b, 'subtracting it again')
    ctx.reach('inverse')


def add(ctx, sign, days, secs, tz):
    """the sum is the calendar's, and an ordinary datetime outside of year zero"""
    D = ctx.lib.datetime
    util = ctx.lib.util
    a, fa, sa = moment(ctx, 'a', (0, 0), tz, 999999)
    k = ctx.int('k', *days)
    r = ctx.int('r', 0, secs) if secs else 0
    t = D.timedelta(days=k, seconds=r)
    st, v = ctx.attempt((lambda: a + t) if sign > 0 else (lambda: a - t))
    # the day and second of the sum in local time
    secs = fa[3] * 3600 + fa[4] * 60 + fa[5] + sign * r
    c = ctx.ite(secs < 0, -1, ctx.ite(secs >= DAY, 1, 0))
    day = ordinal(ctx, *fa[:3]) + sign * k + c
    secs = secs - c * DAY
    end = 366 + 365 * 9999 + 9999 // 4 - 9999 // 100 + 9999 // 400
    if st == 'err':
        ctx.check(isinstance(v, (ValueError, OverflowError)), 'refused with ValueError or OverflowError')
        ctx.check(ctx.any(day < 0, day >= end), 'sums inside the calendar exist')
        ctx.reach('outside')
        return
    ctx.check(ctx.all(day >= 0, day < end), 'sums outside the calendar are refused')
    y, m, d, H, M, S, u = fields(v)
    ctx.check(ctx.all(ctx.eq(ordinal(ctx, y, m, d), day), d <= dim(ctx, y, m), ctx.eq(H * 3600 + M * 60 + S, secs)), 'the sum')
    ctx.check(ctx.eq(u, fa[6]), 'microseconds')
    ctx.check(ctx.eq(v.tzinfo is None, tz is None), 'same kind')
    if tz is not None:
        ctx.check(ctx.eq(v.utcoffset().days * DAY + v.utcoffset().seconds, tz * 60), 'same zone')
    if isinstance(v, util.extended_datetime):
        ctx.check(ctx.eq(y, 0), 'year zero')
        ctx.reach('year 0')
    else:
        ctx.check(isinstance(v, D.datetime) and y > 0, 'an ordinary datetime')
        ctx.reach('ordinary')


def text(ctx, tz):
    D = ctx.lib.datetime
    a, (y, m, d, H, M, S, u), sa = moment(ctx, 'a', (0, 0), tz)
    date = ctx.join('', ['0000-', two(ctx, m), '-', two(ctx, d)])
    time = ctx.join('', [two(ctx, H), ':', two(ctx, M), ':', two(ctx, S)])
    if tz is None:
        off = ''
    else:
        off = '%s%02d:%02d' % ('-' if tz < 0 else '+', abs(tz) // 60, abs(tz) % 60)
    ctx.check(ctx.eq(a.isoformat(), ctx.join('', [date, 'T', time, off])), 'isoformat')
    ctx.check(ctx.eq(a.isoformat('_'), ctx.join('', [date, '_', time, off])), 'isoformat with a separator')
    ctx.check(ctx.eq(ctx.str(a), ctx.join('', [date, ' ', time, off])), 'str')
    ctx.check(ctx.eq(a.strftime('%Y%m%d%H%M%S'), ctx.join('', ['0000', two(ctx, m), two(ctx, d), two(ctx, H), two(ctx, M), two(ctx, S)])), 'strftime')
    ctx.check(ctx.eq(a.strftime('2%d4 %Y'), ctx.join('', ['2', two(ctx, d), '4 0000'])), 'strftime leaves other digits alone')
    x = a.date()
    ctx.check(ctx.all(ctx.eq(x.year, 0), ctx.eq(x.month, m), ctx.eq(x.day, d), ctx.eq(ctx.str(x), date)), 'date()')
    t = a.time()
    ctx.check(ctx.all(ctx.eq(t.hour, H), ctx.eq(t.minute, M), ctx.eq(t.second, S)), 'time()')
    ctx.reach('text')


def micro_text(ctx):
    a, (y, m, d, H, M, S, u), sa = moment(ctx, 'a', (0, 0), None, 999999)
    ctx.assume(ctx.all(ctx.eq(m, 2), ctx.eq(d, 29), ctx.eq(H, 3), ctx.eq(M, 4), ctx.eq(S, 5)))
    s = a.isoformat()
    f = ctx.join('', ['.', two(ctx, u, 6)])
    if ctx.eq(u, 0):
        ctx.check(ctx.eq(s, '0000-02-29T03:04:05'), 'no microseconds')
    else:
        ctx.check(ctx.eq(s, ctx.join('', ['0000-02-29T03:04:05', f])), 'microseconds')
        ctx.reach('micro')
    ctx.check(ctx.eq(a.strftime('%Y.%f'), ctx.join('', ['0000', f])), 'strftime')


def replace(ctx, tz):
    D = ctx.lib.datetime
    util = ctx.lib.util
    a, (y, m, d, H, M, S, u), sa = moment(ctx, 'a', (0, 0), tz)
    y2 = ctx.int('y2', 1, 9999)
    m2, d2, H2 = ctx.int('m2', 1, 12), ctx.int('d2', 1, 31), ctx.int('H2', 0, 23)
    st, b = ctx.attempt(a.replace, None, m2, d2, hour=H2)
    if d2 > dim(ctx, 0, m2):
        ctx.check(st == 'err' and isinstance(b, ValueError), 'days outside the calendar are refused')
        ctx.reach('refused')
    else:
        ctx.check(st == 'ok' and isinstance(b, util.extended_datetime), 'still in year zero')
        ctx.check(ctx.all(*[ctx.eq(p, q) for p, q in zip(fields(b), (0, m2, d2, H2, M, S, 0))]), 'the fields replaced')
        ctx.check(b.tzinfo is a.tzinfo, 'the zone')
        ctx.reach('replaced')
    st, b = ctx.attempt(a.replace, y2, day=d)
    if d > dim(ctx, y2, m):
        ctx.check(st == 'err' and isinstance(b, ValueError), 'days outside the calendar are refused')
    else:
        ctx.check(st == 'ok' and isinstance(b, D.datetime), 'an ordinary datetime')
        ctx.check(ctx.all(*[ctx.eq(p, q) for p, q in zip(fields(b), (y2, m, d, H, M, S, 0))]), 'the year replaced')
        ctx.check(b.tzinfo is a.tzinfo, 'the zone')


def astimezone(ctx, tz, to):
    D = ctx.lib.datetime
    util = ctx.lib.util
    a, (y, m, d, H, M, S, u), sa = moment(ctx, 'a', (0, 0), tz, 999999)
    st, b = ctx.attempt(a.astimezone, zone(ctx, to))
    total = H * 60 + M - tz + to
    k = total // 1440
    wy, wm, wd = day_shift(ctx, y, m, d, k)
    if wy < 0:
        ctx.check(st == 'err' and isinstance(b, (ValueError, OverflowError)), 'times before year zero are refused')
        ctx.reach('before')
        return
    ctx.check(st == 'ok', 'converted')
    got = fields(b)
    ctx.check(ctx.all(*[ctx.eq(p, q) for p, q in zip(got[:3], (wy, wm, wd))]), 'the date')
    ctx.check(ctx.all(ctx.eq(got[3] * 60 + got[4], total - k * 1440), ctx.eq(got[5], S), ctx.eq(got[6], u)), 'the time')
    ctx.check(b == a, 'the same instant')
    ctx.check(ctx.eq(isinstance(b, D.datetime), wy > 0), 'ordinary outside of year zero')
    ctx.reach('converted')


Z, E1, N = (0, 0), (1, 1), (1999, 2002)


def pairs(tier):
    out = []
    for ta, tb in ((None, None), (0, 0), (0, 330), (-90, 60), (0, None)) + (() if tier == 'quick' else ((1439, -1439), (-720, 720), (1, 0))):
        for yb in (Z, E1) + (() if tier == 'quick' else (N, (9998, 9999))):
            c = dict(ya=Z, ta=ta, yb=yb, tb=tb)
            if tier != 'quick' or (ta == tb or tb is None) and yb == E1:
                out.append(c)
            if ta == tb:
                out.append(dict(c, sec=0))
            else:
                out += [dict(c, months=m, sec=0) for m in ((2, 3), (1, 1), (12, 12))]
    return out


def differences(tier):
    return [c for c in pairs(tier) if c['yb'] in (Z, E1) and (tier != 'quick' or c['ta'] != -90) and (c['ta'] is None) == (c['tb'] is None)]


def inverses(tier):
    out = [dict(tz=None, span=(0, 0), secs=n) for n in (59,)] + [dict(tz=z, span=(-28, 28), secs=0) for z in (None, 330)]
    if tier != 'quick':
        out += [dict(tz=330, span=(0, 0), secs=DAY - 1), dict(tz=None, span=(-28, 28), secs=DAY - 1), dict(tz=None, span=(-400, 400), secs=0), dict(tz=0, span=(-400, 400), secs=DAY - 1)]
    return out


def adds(tier):
    out = []
    for tz in (None, 330):
        for sign in (1, -1):
            for days, secs in (((-1, 1), DAY - 1), ((-400, 400), 0)):
                out.append(dict(sign=sign, days=days, secs=secs, tz=tz))
    for days in ((2000 * 365, 2000 * 365 + 400), (5999 * 365 + 1000, 6001 * 365 + 2000), (3651600, 3653000)):
        out.append(dict(sign=1, days=days, secs=0, tz=None))
        out.append(dict(sign=-1, days=(-days[1], -days[0]), secs=0, tz=0))
    if tier != 'quick':
        out.append(dict(sign=1, days=(-400, 5000), secs=DAY - 1, tz=-90))
        out.append(dict(sign=-1, days=(-5000, 400), secs=DAY - 1, tz=90))
    return out


ZONES = (0, 330, -90, 1439, -1439)
HARNESSES = [
    Harness('dates', dates, [dict(other='ext'), dict(other='ordinary')], ['refused', 'ordered'], bounds='every two dates'),
    Harness('date_text', date_text, [{}], ['text'], bounds='every date of year zero, replaced years up to 9999'),
    Harness('compare', compare, pairs, ['ordered', 'mixed'], bounds='every two times of year zero and year 1 (and 1999-2002, 9998-9999), with the offsets listed'),
    Harness('difference', difference, differences, ['difference'], bounds='every two times of the years 0 and 1'),
    Harness('inverse', inverse, inverses, ['inverse', 'outside'], bounds='every time of year zero, durations of whole days up to 28 or less than a minute (thorough: up to 400 days and any seconds)'),
    Harness('add', add, adds, ['year 0', 'ordinary', 'outside'], bounds='every time of year zero, durations up to 400 days, around 2000, 6000 and 10000 years'),
    Harness('text', text, [dict(tz=z) for z in (None,) + ZONES], ['text'], bounds='every second of year zero'),
    Harness('micro_text', micro_text, [{}], ['micro'], bounds='every microsecond of one second'),
    Harness('replace', replace, [dict(tz=None), dict(tz=-90)], ['replaced', 'refused'], bounds='every replacement of year; of month, day and hour'),
    Harness('astimezone', astimezone, [dict(tz=a, to=b) for a, b in ((0, 330), (330, 0), (0, -90), (1439, -1), (-720, 720))], ['converted', 'before'],
            bounds='every time of year zero, five pairs of zones'),
]
