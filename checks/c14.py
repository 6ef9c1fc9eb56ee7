"""C14: Gregorian dates and Julian days count the days one by one."""
from .lib import *
from . import entry as E

CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334, 365]
LEN = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
LEAP = '(y % 4 == 0 and (y % 100 != 0 or y % 400 == 0))'
HMS = dict(h=E.H23, mi=E.MI, s=S('s', 'int', 0, 59))
AE = ('AssertionError',)


def run(ctx):
    ctx.explanation = (
        'The calendar functions are interpreted with symbolic fields and compared with the day count '
        '365 (y-1) + leap days before y + days before the month + d. The way back is interpreted on the term of '
        'the way there: for each year of a 400-year cycle (4-year cycle of the Julian calendar) and each month with '
        'the cycle number and the day symbolic, so the floors and the table searches become exact linear terms.')
    ctx.assumptions = ['arithmetic is exact: rounding of binary floating point is not modelled']
    for r, t in (('leap', 'the leap year rules'), ('exact', 'the exact Julian day counts the days of the proleptic Gregorian calendar'),
                 ('historical', 'the historical Julian day counts the days of the Julian, later Gregorian calendar'),
                 ('back', 'the date of a Julian day is the date that has it'), ('clock', 'hours, minutes and seconds are the fraction of the day'),
                 ('posix', 'a POSIX timestamp is read as its proleptic Gregorian date and time'),
                 ('shift', 'exact and historical Julian days of one date are mapped on each other'), ('valid', 'what is not a date is refused')):
        ctx.rule(r, t)
    w = ctx.world(mods=('gregorian_calendar',), prep=None)
    g = 'g = GregorianCalendar()'
    at = lambda f: w.where('GregorianCalendar.' + f)
    eq = lambda rule, inst, f, pairs, **b: ctx.equal(rule, inst, at(f), w, g, ['g'], pairs, **b)
    Y, D = S('y', 'int'), S('d', 'int', 1, 28)
    day = lambda m, leap=None: S('d', 'int', 1, LEN[m - 1] + (m == 2 and (leap is None or leap)))

    # counts: one task per year of the cycle
    for r in range(400):
        ctx.defer(cells_count, ctx, w, 'exact', '400q+%d' % r, at('jd_from_gregorian_date'), '400 * q + %d' % r, dict(q=S('q', 'int')), gleap(r), {}, ', exact=True', GCOUNT, '1721422.5')
        ctx.defer(cells_count, ctx, w, 'historical', 'after/400q+%d' % r, at('jd_from_gregorian_date'), '400 * q + %d' % r, dict(q=S('q', 'int', 3 if r > 382 else 4, None)), gleap(r), {}, '', GCOUNT, '1721424.5')
    for r in range(128):
        ctx.defer(cells_count, ctx, w, 'exact', 'alt/128q+%d' % r, at('jd_from_gregorian_date'), '128 * q + %d' % r, dict(q=S('q', 'int')), r % 4 == 0 and r != 0, {}, ', exact=True, alt=True', '- (y - 1) // 128', '1721422.5')
    for r in range(4):
        ctx.defer(cells_count, ctx, w, 'historical', 'before/4q+%d' % r, at('jd_from_gregorian_date'), '4 * q + %d' % r, dict(q=S('q', 'int', None, 395 if r < 2 else 394)), r == 0, {}, '', '', '1721422.5')
    for m in range(1, 13):
        for lo, hi in [(1, 4), (15, 31)] if m == 10 else [(1, LEN[m - 1])]:
            old = m < 10 or hi == 4
            ctx.defer(cells_count, ctx, w, 'historical', '1582/%d' % lo, at('jd_from_gregorian_date'), '1582', {}, False, {m: [(lo, hi)]}, '', '' if old else GCOUNT, '1721422.5' if old else '1721424.5', [m])
    # the way back
    q = S('q', 'int', 4, 24)
    for r in range(400):
        ctx.defer(cells_back, ctx, w, 'after/%d' % r, at('gregorian_date_from_jd'), '400 * q + %d' % r, dict(q=S('q', 'int', 3 if r > 382 else 4, 24)), r % 4 == 0 and (r % 100 != 0 or r == 0), {})
    for r in range(4):
        ctx.defer(cells_back, ctx, w, 'before/%d' % r, at('gregorian_date_from_jd'), '4 * q + %d' % r, dict(q=S('q', 'int', -1178, 395 if r < 2 else 394)), r == 0, {})
    ctx.defer(cells_back, ctx, w, '1582', at('gregorian_date_from_jd'), '1582', {}, False, {10: [(1, 4), (15, 31)]})
    years = list(range(-9, 10)) + [95, 96, 97, 99, 100, 101, 104, 128, 199, 200, 201] + ([299, 300, 301, 399, 400, 401, 512, 800, 1582, 1600] if ctx.thorough else [400])
    for y in years:
        ctx.defer(cells_back, ctx, w, 'exact/%d' % y, at('gregorian_date_from_jd'), str(y), {}, y % 4 == 0 and (y % 100 != 0 or y % 400 == 0), {}, ', exact=True')
    # timestamps
    span = list(range(1904, 2105)) if ctx.thorough else list(range(1965, 2005)) + [1900, 1904, 2025, 2099, 2100, 2101]
    for y in span:
        ctx.defer(posix, ctx, w, at('posix_timestamp'), y)
    eq('posix', 'zone', 'posix_timestamp', [('shift', 'g.posix_timestamp(t, zone=z)', 'g.posix_timestamp(t + z * 3600)')], t=S('t', 'int', 0, 31 * 86400 - 50401), z=S('z', 'int', 0, 14))
    for t, e in (('59.9999999', '(1970, 1, 1, 0, 1, 0)'), ('86399.9999999', '(1970, 1, 2, 0, 0, 0)'), ('-1', '(1969, 12, 31, 23, 59, 59)'), ('59.25', '(1970, 1, 1, 0, 0, 59.25)')):
        eq('posix', 'second/' + t, 'posix_timestamp', [('date', 'g.posix_timestamp(%s)' % t, e)])
    full = dict(y=S('y', 'int'), d=S('d', 'int', 1, 28), **HMS)
    for m in (1, 2, 12):
        eq('clock', 'write/%d' % m, 'date_from_ymdhms', [('fields', 'g.date_from_ymdhms((y, %d, d, h, mi, s))' % m, '(y, %d, d + round(h / 24 + mi / 1440 + s / 86400, 12))' % m),
                                                         ('none', 'g.date_from_ymdhms((y, %d, d, None, None, None))' % m, '(y, %d, d)' % m), ('short', 'g.date_from_ymdhms((y, %d, d, h))' % m, '(y, %d, d + round(h / 24, 12))' % m)], **full)
        # a time and the same time as a part of the day are split alike
        eq('clock', 'split/%d' % m, 'ymdhms_from_date', [('agree', 'g.ymdhms_from_date((y, %d, d, h, mi, s))' % m, 'g.ymdhms_from_date((y, %d, d + h / 24 + mi / 1440 + s / 86400))' % m)], **full)
    # both ways between exact and historical days
    shift(ctx, w)
    invalid(ctx, w, at)


GCOUNT = '- (y - 1) // 100 + (y - 1) // 400'


def gleap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def cells_count(ctx, w, rule, inst, site, y, b, leap, special, opt, cent, epoch, months=range(1, 13)):
    """the Julian day of every day of one year of the cycle."""
    g = 'g = GregorianCalendar()'
    if 'exact' in opt:
        o = ', alt=True' if 'alt' in opt else ''
        ctx._equal('leap', inst, site, w, g, ['g'], [('rule', 'bool(g._is_leap_year(%s%s))' % (y, o), str(leap)), ('days', 'g._days_in_years(%s%s)' % (y, o), '365 * (%s) + (%s) // 4 %s' % (y, y, cent.replace('(y - 1)', '(%s)' % y)))], **b)
    for m in months:
        for lo, hi in special.get(m) or [(1, LEN[m - 1] + (m == 2 and leap and 'alt' not in opt))]:
            ref = '%s + 365 * (y - 1) + (y - 1) // 4 %s + %d + d' % (epoch, cent, CUM[m - 1] + (leap and m > 2))
            bb = dict(b, d=S('d', 'int', lo, hi))
            ctx._equal(rule, '%s/%d' % (inst, m), site, w, g, ['g'], [('count', 'g.jd_from_gregorian_date((y, %d, d)%s)' % (m, opt), ref)], pre='y = ' + y, **bb)
            if 'alt' not in opt:
                ctx._equal('clock', '%s/%s/%d' % (rule, inst, m), site, w, g, ['g'], [
                    ('count', 'g.jd_from_gregorian_date((y, %d, d, h, mi, s)%s)' % (m, opt), 'round(%s + round(h / 24 + mi / 1440 + s / 86400, 12), 12)' % ref)], pre='y = ' + y, **bb, **HMS)


def cells_back(ctx, w, inst, site, y, b, leap, special, exact=''):
    """every month of one year: date -> day -> the same date, at noon and at midnight too."""
    for m in range(1, 13):
        spans = special.get(m) or ([(1, 30), (31, 31)] if exact and m == 12 else [(1, LEN[m - 1] + (m == 2 and leap))])
        for lo, hi in spans:
            pre = 'y = %s\nj = g.jd_from_gregorian_date((y, %d, d)%s)' % (y, m, exact)
            f = 'g.gregorian_date_from_jd(%%s%s)' % exact
            pairs = [('date', f % 'j', '(y, %d, d)' % m)]
            if not exact:
                pairs += [('noon', f % '(j + 0.5)', '(y, %d, d + 0.5)' % m), ('clock', 'g.gregorian_date_from_jd(j + 0.75, hms=True)', '(y, %d, d, 18, 0, 0)' % m)]
            ctx._equal('back', '%s/%d%s' % (inst, m, '' if len(spans) == 1 else '/%d' % lo), site, w, 'g = GregorianCalendar()', ['g'], pairs, pre=pre, d=S('d', 'int', lo, hi), **b)


def ordinal(y):
    return 365 * (y - 1) + (y - 1) // 4 - (y - 1) // 100 + (y - 1) // 400


def posix(ctx, w, site, y):
    leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
    base = ordinal(y) - ordinal(1970)
    for m in range(1, 13):
        n = LEN[m - 1] + (m == 2 and leap)
        off = base + CUM[m - 1] + (leap and m > 2)
        pre = 't = (%d + d) * 86400 + h * 3600 + mi * 60 + s' % (off - 1)
        ctx._equal('posix', '%d-%02d' % (y, m), site, w, 'g = GregorianCalendar()', ['g'],
                   [('date', 'g.posix_timestamp(t)', '(%d, %d, d, h, mi, s)' % (y, m)), ('microsecond', 'g.posix_timestamp(t, us=True)', '(%d, %d, d, h, mi, s, 0)' % (y, m))],
                   pre=pre, d=S('d', 'int', 1, n), **HMS)


def shift(ctx, w):
    site = w.where('BaseCalendar._meeus_from_exact')
    pre = 'y = %s\na = g.jd_from_gregorian_date((y, %d, d), exact=True)\nb = g.jd_from_gregorian_date((y, %d, d))'
    pairs = [('historical', 'g._meeus_from_exact(a)', 'b'), ('exact', 'g._exact_from_meeus(b)', 'a'), ('fraction', 'g._meeus_from_exact(a + 0.75)', 'b + 0.75'), ('back', 'g._exact_from_meeus(b + 0.75)', 'a + 0.75')]

    def go(inst, y, b, m, lo, hi):
        ctx.equal('shift', '%s/%d' % (inst, m), site, w, 'g = GregorianCalendar()', ['g'], pairs, pre=pre % (y, m, m), d=S('d', 'int', lo, hi), **b)
    for m in range(1, 13):
        for c in range(0, 31):
            for k in range(4):
                for nm, lo, hi in [('', 0 if k else 1, 24)] if c != 15 else [(' early', 0 if k else 1, 20 if k < 2 else 19), (' late', 20 if k > 2 else 21, 24)]:
                    go('century %d%s/%d' % (c, nm, k), '%d + 4 * q' % (100 * c + k), dict(q=S('q', 'int', lo, hi)), m, 1, LEN[m - 1])
            y = 100 * (c + 1)
            go('%d' % y, str(y), {}, m, 1, LEN[m - 1] + (m == 2 and y % 400 == 0))
            if m == 2:
                ctx.defer(leapdays, ctx, w, site, pairs, pre, c)
        for lo, hi in ([(1, LEN[m - 1])] if m != 10 else [(1, 4), (15, 31)]):
            go('1582/%d' % lo, '1582', {}, m, lo, hi)


def leapdays(ctx, w, site, pairs, pre, c):
    for y in range(100 * c + 4, 100 * c + 100, 4):
        ctx._equal('shift', 'leap day/%d' % y, site, w, 'g = GregorianCalendar()', ['g'], pairs, pre=pre % (y, 2, 2), d=C(29))


def invalid(ctx, w, at):
    g = 'g = GregorianCalendar()'
    ent = [('jd_from_gregorian_date', 'g.jd_from_gregorian_date(%s)'), ('jd_from_gregorian_date', 'g.jd_from_gregorian_date(%s, exact=True)'),
           ('date_from_ymdhms', 'g.date_from_ymdhms(%s)'), ('ymdhms_from_date', 'g.ymdhms_from_date(%s)')]
    Y = S('y', 'int', 1600, 9999)
    for f, c in ent:
        no = lambda nm, args, **b: ctx.raises('valid', '%s/%s' % (c, nm), at(f), w, g, ['g'], c % args, AE, **b)
        no('month high', '(y, m, 1)', y=Y, m=S('m', 'int', 13, None))
        no('month low', '(y, m, 1)', y=Y, m=S('m', 'int', None, 0))
        no('year of Julian leap', '(y, 2, 29)', y=C(1900))
        for r in (1, 2, 3):
            no('leap day/%d' % r, '(4 * q + %d, 2, 29)' % r, q=S('q', 'int'))
        for m in range(1, 13):
            no('day high/%d' % m, '(y, %d, d)' % m, y=Y, d=S('d', 'int', LEN[m - 1] + (m == 2) + 1, None))
            no('day low/%d' % m, '(y, %d, d)' % m, y=Y, d=S('d', 'int', None, 0))
        for nm, hms, b in (('hour', 'h, 0, 0', dict(h=S('h', 'int', 24, None))), ('minute', '1, h, 0', dict(h=S('h', 'int', 60, None))), ('second', '1, 1, h', dict(h=S('h', 'int', 60, None))),
                           ('hour low', 'h, 0, 0', dict(h=S('h', 'int', None, -1))), ('minute low', '1, h, 0', dict(h=S('h', 'int', None, -1))), ('second low', '1, 1, h', dict(h=S('h', 'int', None, -1))),
                           ('part day with hour', None, {})):
            if hms:
                no(nm, '(y, 3, 4, %s)' % hms, y=Y, **b)
            else:
                no(nm, '(y, 3, 4.5, h, 0, 0)', y=Y, h=S('h', 'int', 1, 23))
    ctx.raises('valid', 'reform gap', at('jd_from_gregorian_date'), w, g, ['g'], 'g.jd_from_gregorian_date((1582, 10, d))', AE, d=S('d', 'int', 5, 14))
    site = w.where('BaseCalendar._meeus_from_exact')
    ctx.raises('valid', 'gap/exact', site, w, g, ['g'], 'g._meeus_from_exact(g.jd_from_gregorian_date((1582, 10, d), exact=True))', ('ValueError',), d=S('d', 'int', 5, 14))
    for c in (1, 2, 3, 5, 6, 7, 9, 10, 11, 13, 14, 15):
        ctx.raises('valid', 'gap/%d' % c, w.where('BaseCalendar._exact_from_meeus'), w, g, ['g'], 'g._exact_from_meeus(g.jd_from_gregorian_date((%d, 2, 29)))' % (100 * c), ('ValueError',))
