"""C09: day numbers, the layout of the year, weekdays and weeks."""
from .lib import *
from . import entry as E
from .c06 import ordmodel, OMIN, OMAX
from .c08 import LEAP, OF_DOY

DOY = '(d + (19*(m - 1) if 0 < m < 19 else 342 if m == 0 else 346 + %s))' % LEAP
YT = S('y', 'int', -1842, 1160)
DAY = {'month': dict(m=S('m', 'int', 1, 18), d=E.D), 'ayyam': dict(m=C(0), d=S('d', 'int', 1, 5)), 'last': dict(m=C(19), d=E.D)}
N = S('n', 'int', OMIN, OMAX)


def base_year(w):
    """the days before a year are an opaque function of the year."""
    w.I.opaque['_days_before_year'] = lambda I, fn, a, kw, h, fr: T('dby', a[-1], typ='int')


def run(ctx):
    ctx.explanation = (
        'The functions that lay out the year (days before a month, date to Julian day, Julian day to date, tables of '
        'month lengths) are interpreted against one layout: 18 months of 19 days, 4 or 5 days of Ayyám-i-Há, and the '
        '19th month. Weekday and week functions are interpreted as functions of an opaque day number: consecutive '
        'days must have consecutive weekdays, and the week date of a day must count its days from the first week.')
    ctx.assumptions = ['the first day of each year is an opaque function of the year (it depends on computed sunsets)',
                       'the year table gives years of 365 or 366 days', 'day numbers and dates are in bijection (rule week)']
    ctx.rule('layout', 'every function that counts days inside a year uses the same layout of months')
    ctx.rule('ordinal', 'day numbers count the days of a year one by one and are what both classes report')
    ctx.rule('weekday', 'weekdays are a seven day cycle of the day number and all observers agree on it')
    ctx.rule('week', 'the week date of a day counts its days from the first week of its week year; week dates name their day')
    ctx.rule('table', 'the year table covers every year, and its last day is the day before the last year start')
    layout(ctx)
    ordinal(ctx)
    weekday(ctx)
    weeks(ctx)
    table(ctx)


def layout(ctx):
    w = ctx.world()
    one = 'u = _td_utils'
    site = w.where('TimeDateUtils._days_before_month')
    for nm, b in DAY.items():
        ctx.equal('layout', 'days-before-month/' + nm, site, w, one, ['u'], [('doy', 'u._days_before_month(y, m) + d', DOY)], y=E.Y, **b)
        ctx.equal('layout', 'yday/' + nm, w.where('TimeDateUtils._build_struct_time'), day_world(ctx), 'x = date(y, m, d)', ['x'],
                  [('date', 'x.timetuple().tm_yday', DOY), ('datetime', 'datetime(y, m, d).timetuple().tm_yday', DOY),
                   ('%j', "x.strftime('%j')", "f'{%s:03d}'" % DOY)], y=YT, **b)
    # date -> Julian day: the day inside the year, sunset and epoch taken out
    wj = ctx.world()
    ident = lambda I, fn, a, kw, h, fr: a[1]
    for n in ('_meeus_from_exact', '_exact_from_meeus', '_sun_setting'):
        wj.I.opaque[n] = ident
    wj.I.opaque['_get_day_coeff'] = lambda I, fn, a, kw, h, fr: T('coeff', a[1], typ='int')
    wj.I.opaque['_days_in_years'] = lambda I, fn, a, kw, h, fr: T('diy', a[1], typ='int')
    site = wj.where('BahaiCalendar.jd_from_badi_date')
    for nm, b in DAY.items():
        ctx.equal('layout', 'jd-of-date/' + nm, site, wj, 'bc = BahaiCalendar()\nx = date(y, m, d)', ['bc', 'x'],
                  [('doy', 'bc.jd_from_badi_date(x.b_date) - bc.jd_from_badi_date((y, 1, 1))', DOY + ' - 1')], y=YT, **b)
    # Julian day -> date
    wd = ctx.world()
    wd.I.opaque['_badi_year_from_rd'] = lambda I, fn, a, kw, h, fr: S('y', 'int', -1842, 1160)
    wd.I.opaque['_utc_to_badi_time'] = lambda I, fn, a, kw, h, fr: Tup((a[1], C(0)))
    site = wd.where('BahaiCalendar.badi_date_from_jd')
    for part, lo, hi in [('month%d' % i, 19*i - 18, 19*i) for i in range(1, 19)] + [('ayyam', 343, 346), ('347', 347, 347), ('last', 348, 365), ('366', 366, 366)]:
        # choose the local civil day so that the day of the year is n
        src = ('jd = _td_utils._YEAR_START[y] + n - 1 + int(bc.PROLEPTIC_GREG_1ST_DAY + 0.5) - 1')
        ctx.equal('layout', 'date-of-jd/' + part, site, wd, 'bc = BahaiCalendar()', ['bc'],
                  [('short', 'bc.badi_date_from_jd(jd, 0, 0, 0, short=True, trim=True, rtd=True)', OF_DOY),
                   ('fraction', 'bc.badi_date_from_jd(jd, 0, 0, 0, short=True, fraction=True)', OF_DOY)],
                  pre=src, y=YT, n=S('n', 'int', lo, hi))


def day_world(ctx):
    w = ctx.world()
    base_year(w)
    return w


def ordinal(ctx):
    w = day_world(ctx)
    site = w.where('TimeDateUtils._ymd2ord')
    Y = {'': YT}
    for nm, b in DAY.items():
        ctx.equal('ordinal', 'count/' + nm, site, w, 'x = date(y, m, d)', ['x'],
                  [('day', 'x.toordinal() - date(y, 1, 1).toordinal()', DOY + ' - 1'),
                   ('datetime', 'datetime(y, m, d, None, None, h, mi, se).toordinal()', 'x.toordinal()')],
                  y=YT, **b, **E.TIME[1])
    wo = ctx.world()
    ordmodel(wo)
    for cls in ('date', 'datetime'):
        ctx.equal('ordinal', cls + '/fromordinal', wo.where(cls + '.fromordinal'), wo, 'z = 0', ['z'],
                  [('inverse', '%s.fromordinal(n).toordinal()' % cls, 'n'), ('long', '%s.fromordinal(n, short=False).toordinal()' % cls, 'n'),
                   ('form', '%s.fromordinal(n).is_short' % cls, 'True'), ('longform', '%s.fromordinal(n, short=False).is_short' % cls, 'False'),
                   ('type', 'type(%s.fromordinal(n)) is %s' % (cls, cls), 'True')], n=N)
    ctx.equal('ordinal', 'datetime/parts', wo.where('datetime.fromordinal'), wo, 'z = 0', ['z'],
              [('midnight', '(lambda x: (x.hour, x.minute, x.second, x.microsecond, x.tzinfo))(datetime.fromordinal(n))', '(0, 0, 0, 0, None)')], n=N)


def weekday(ctx):
    w = ctx.world()
    ordmodel(w)
    x = 'x = date.fromordinal(n)\np = date.fromordinal(n + 1)'
    M1 = S('n', 'int', OMIN, OMAX - 1)
    site = w.where('TimeDateUtils._day_of_week')
    ctx.equal('weekday', 'date/next', site, w, x, ['x', 'p'],
              [('next', 'p.weekday()', '(x.weekday() + 1) % 7'), ('range', '0 <= x.weekday() <= 6', 'True'), ('epoch', 'x.weekday()', '(n + 1) % 7'),
               ('iso', 'x.isoweekday()', 'x.weekday() + 1'), ('tm', 'x.timetuple().tm_wday', 'x.weekday()')], n=M1)
    for form in E.DATE:
        args, b = E.DATE[form]
        sep = ', None, None' if form == 'short' else ''
        for cls, mk in (('date', 'x = date(%s)' % args), ('datetime', 'x = datetime(%s%s, h, mi, se)' % (args, sep))):
            ctx.equal('weekday', '%s/%s' % (cls, form), w.where('date.weekday'), w, mk, ['x'],
                      [('weekday', 'x.weekday()', '(x.toordinal() + 1) % 7'), ('isoweekday', 'x.isoweekday()', '(x.toordinal() + 1) % 7 + 1'),
                       ('tm_wday', 'x.timetuple().tm_wday', '(x.toordinal() + 1) % 7'),
                       ('%u', "x.strftime('%u')", "f'{(x.toordinal() + 1) % 7 + 1}'"), ('%w', "x.strftime('%w')", "f'{(x.toordinal() + 1) % 7}'"),
                       ('%a', "x.strftime('%a')", "_td_utils.DAYNAMES_ABV[x.weekday()]"), ('%A', "x.strftime('%A')", "_td_utils.DAYNAMES[x.weekday()]")], **b, **dict(E.TIME[1], h=E.H23))


def weeks(ctx):
    w = ctx.world()
    ordmodel(w)
    # first weekdays of the years: opaque ordinals of day one
    site = w.where('TimeDateUtils._year_week_day')
    w1 = '(lambda f: f - (f - 6) % 7 + (7 if (f - 6) % 7 > 3 else 0))(_td_utils._ymd2ord(%s, 1, 1))'
    ctx.equal('week', 'first', w.where('TimeDateUtils._isoweek1jalal'), w, 'z = 0', ['z'],
              [('monday', '_td_utils._isoweek1jalal(y) % 7', '6'), ('near', '-3 <= _td_utils._isoweek1jalal(y) - _td_utils._ymd2ord(y, 1, 1) <= 3', 'True')], y=E.Y)
    for r in range(7):
        for b0 in (0, 1):
            for b1 in (0, 1):
                if not (b0 and b1):
                    ctx.defer(iso, ctx, r, b0, b1, site)
    ctx.equal('week', 'fromisocalendar', w.where('TimeDateUtils._isoweek_to_badi'), w, 'z = 0', ['z'],
              [('count', 'date.fromisocalendar(y, k, n).toordinal()', '_td_utils._isoweek1jalal(y) + 7*(k - 1) + n - 1'),
               ('datetime', 'datetime.fromisocalendar(y, k, n).toordinal()', '_td_utils._isoweek1jalal(y) + 7*(k - 1) + n - 1'),
               ('long', 'date.fromisocalendar(y, k, n, short=False).toordinal()', '_td_utils._isoweek1jalal(y) + 7*(k - 1) + n - 1')],
              y=E.Y, k=S('k', 'int', 1, 51), n=S('n', 'int', 1, 7))
    ctx.raises('week', 'day0', w.where('TimeDateUtils._isoweek_to_badi'), w, 'z = 0', ['z'], 'date.fromisocalendar(y, k, n)', ('AssertionError', 'ValueError'),
               y=E.Y, k=S('k', 'int', 1, 51), n=S('n', 'int', None, 0))
    ctx.raises('week', 'day8', w.where('TimeDateUtils._isoweek_to_badi'), w, 'z = 0', ['z'], 'date.fromisocalendar(y, k, n)', ('AssertionError', 'ValueError'),
               y=E.Y, k=S('k', 'int', 1, 51), n=S('n', 'int', 8, None))


def cells_of(ctx, q, r, b0, b1):
    """day one of year y is day 7q + r, years y and y - 1 have 365 + b0, 365 + b1 days."""
    w = ctx.world()
    ordmodel(w)
    frm = w.I.opaque['_ymd2ord']
    ys = add(scale(q, 7), C(r))
    y0 = E.Y

    def to(I, fn, a, kw, h, fr):
        y, m, d = a[-3:]
        k = sub(y, y0)
        if isinstance(k, C) and k.v in (-1, 0, 1):
            first = {0: ys, 1: add(ys, C(365 + b0)), -1: sub(ys, C(365 + b1))}[k.v]
            if m == C(1) and d == C(1):
                return first
            if m == C('doy'):
                return add(first, sub(d, C(1)))
        return frm(I, fn, a, kw, h, fr)
    w.I.opaque['_ymd2ord'] = to
    return w


def iso(ctx, r, b0, b1, site):
    """week dates of every day of a year that starts r days after a first weekday."""
    q = S('q', 'int', 12, 156700)
    w = cells_of(ctx, q, r, b0, b1)
    worst = {}
    last = 365 + b0
    parts = [(n, n) for n in range(1, 8)] + [(8, 350)] + [(n, n) for n in range(351, last + 1)]
    for lo, hi in parts:
        c = Ctx(ctx.prop, ctx.root, ctx.tier, ctx.seed)
        n = S('n', 'int', lo, hi)
        pairs = [('count', '_td_utils._isoweek1jalal(i[0]) + 7*(i[1] - 1) + i[2] - 1', 't'),
                 ('weekday', 'i[2]', '(t - 6) % 7 + 1'),
                 ('year', 'i[0]', 'y - 1 if t < _td_utils._isoweek1jalal(y) else y + 1 if t >= _td_utils._isoweek1jalal(y + 1) else y'),
                 ('range', '1 <= i[1] <= 53', 'True'),
                 ('week0', "(lambda j: (j[0], _td_utils._isoweek1jalal(y) + 7*(j[1] - 1) + j[2] - 1))(_td_utils._year_week_day(y, 'doy', n, week0=True))", '(y, t)')]
        back = [('roundtrip', '_td_utils._ymd2ord(*_td_utils._isoweek_to_badi(*i, short=True))', 't')]
        pre = "i = _td_utils._year_week_day(y, 'doy', n)\nt = _td_utils._ymd2ord(y, 'doy', n)"
        c._equal('week', 'isocalendar', site, w, 'z = 0', ['z'], pairs, pre=pre, y=E.Y, n=n)
        for name, cond in (('back', 'i[1] > 51'), ('back-last-weeks', 'i[1] <= 51')):
            c._equal('week', name, site, w, 'z = 0', ['z'], back, pre=pre + '\nif %s:\n    raise OverflowError' % cond, allow=('OverflowError',), y=E.Y, n=n)
        c.obls = [o for o in c.obls if 'no value' not in o.msg and 'no outcome' not in o.msg]
        for o in c.obls:
            k = o.inst
            if o.status != 'discharged' and (k not in worst or worst[k].status != 'violated'):
                o.msg = 'day %s of a year of %d days starting on weekday %d: %s' % (lo if lo == hi else '%d..%d' % (lo, hi), last, r, o.msg)
                worst[k] = o
    for k in ['isocalendar:' + l for l in ('count', 'weekday', 'year', 'range', 'week0', 'evaluates')] + [a + b for a in ('back', 'back-last-weeks') for b in (':roundtrip', ':evaluates')]:
        name = k.replace(':', '/start%d/%d/%d:' % (r, 365 + b1, last))
        if k in worst:
            o = worst[k]
            ctx.add('week', name, o.status, o.site, o.msg, o.witness)
        else:
            ctx.ok('week', name, site)


def table(ctx):
    tab = lambda I, fn, a, kw, h, fr: S('TAB', 'dict')
    w = ctx.world(mods=('__init__',), prep=None, opaque={'_build_badi_year_start': tab})
    site = w.where('__init__.init_leap_cache')
    for nm, pre in (('import', ''), ('call', 'init_leap_cache()')):
        ctx.equal('table', nm, site, w, 'z = 0', ['z'],
                  [('last', 'BahaiCalendar._RD_END', 'BahaiCalendar._YEAR_START[BahaiCalendar.MAXYEAR + 1] - 1'),
                   ('leap', 'BahaiCalendar()._is_leap_year(y)', 'BahaiCalendar._YEAR_START[y + 1] - BahaiCalendar._YEAR_START[y] == 366')],
                  pre=pre, module='__init__', y=E.Y)
    w = ctx.world()
    w.I.opaque['jd_from_badi_date'] = lambda I, fn, a, kw, h, fr: T('jd', a[1], typ='num')
    ctx.equal('table', 'years', w.where('BahaiCalendar._build_badi_year_start'), w, 't = sorted(BahaiCalendar()._build_badi_year_start())', ['t'],
              [('first', 't[0] <= BahaiCalendar.MINYEAR', 'True'), ('last', 't[-1] >= BahaiCalendar.MAXYEAR + 1', 'True'),
               ('all', 'len(t) == t[-1] - t[0] + 1', 'True')])

