"""C05: the constructors accept exactly the valid fields and keep them."""
from .lib import *
from . import entry as E
from .c02 import tz_model

U = lambda n: S(n, 'int', None, None)
LEAP = '(_td_utils._YEAR_START[%s + 1] - _td_utils._YEAR_START[%s] == 366)'
YL = '(361*(k - 1) + 19*(v - 1) + yy)'
DAY = '0 <= m <= 19 and 1 <= d <= (19 if m else 4 + ' + LEAP + ')'
GOOD = {'short': '-1842 <= y <= 1161 and ' + DAY % ('y', 'y'),
        'long': '1 <= v <= 19 and 1 <= yy <= 19 and -1842 <= %s <= 1161 and ' % YL + DAY % (YL, YL)}
TGOOD = '0 <= h <= 24 and 0 <= mi <= 59 and 0 <= se <= 60 and 0 <= us <= 999999 and 0 <= fo <= 1'
ARGS = {'short': 'y, m, d', 'long': 'k, v, yy, m, d'}
PRE = 'try:\n    x = %s\n    r = True\nexcept Exception:\n    r = False'


def run(ctx):
    ctx.explanation = (
        'Each constructor is interpreted with unbounded integer arguments; the condition under which it returns '
        'must be propositionally equivalent to the documented ranges (year length from the opaque year-start '
        'table), and on success every public field must be the argument.')
    ctx.assumptions = ['whole-number arguments (fractional hours, minutes and seconds of datetime are not covered)',
                       'the leap year of year y is read from the year-start table, an opaque function here']
    ctx.rule('accept', 'a constructor returns exactly for valid fields')
    ctx.rule('keep', 'a constructed object exposes the fields it was given')
    ctx.rule('zone', 'a timezone accepts exactly offsets strictly inside one day')
    w = ctx.world()
    tz_model(w, 'tz', TD(scale(S('o1', 'int', -1439, 1439), 60000000)))
    DB = {'short': dict(y=U('y'), m=U('m'), d=U('d')), 'long': dict(k=U('k'), v=U('v'), yy=U('yy'), m=U('m'), d=U('d'))}
    TB = dict(h=U('h'), mi=U('mi'), se=U('se'), us=U('us'), fo=U('fo'))
    for form in ('short', 'long'):
        ctx.equal('accept', 'date/' + form, w.where('date.__new__'), w, 'z = 0', ['z'],
                  [('accepted', 'r', GOOD[form])], pre=PRE % ('date(%s)' % ARGS[form]), **DB[form])
        a = ARGS[form] + (', None, None' if form == 'short' else '')
        for nm, tz in (('naive', 'None'), ('aware', 'tz')):
            ctx.equal('accept', 'datetime/%s/%s/date' % (form, nm), w.where('datetime.__new__'), w, 'z = 0', ['z'],
                      [('accepted', 'r', GOOD[form])], pre=PRE % ('datetime(%s, h, mi, se, us, %s, fold=fo)' % (a, tz)),
                      tz=E.TZ, **DB[form], **E.TIME[1], fo=E.FO)
        ctx.equal('accept', 'datetime/%s/time' % form, w.where('datetime.__new__'), w, 'z = 0', ['z'],
                  [('accepted', 'r', TGOOD)], pre=PRE % ('datetime(%s, h, mi, se, us, fold=fo)' % (a)),
                  **dict(E.DATE[form][1], m=S('m', 'int', 1, 19), **({'k': S('k', 'int', -4, 3)} if form == 'long' else {})), **TB)
        ctx.equal('accept', 'datetime/%s/date-only' % form, w.where('datetime.__new__'), w, 'z = 0', ['z'],
                  [('accepted', 'r', GOOD[form])], pre=PRE % ('datetime(%s)' % (a)), **DB[form])
        # ---- kept fields
        F = {'short': ['year', 'month', 'day'], 'long': ['kull_i_shay', 'vahid', 'year', 'month', 'day']}[form]
        N = ARGS[form].split(', ')
        for cls, aa, extra in (('date', ARGS[form], []),
                               ('datetime', a + ', h, mi, se, us, tz, fold=fo',
                                list(zip(['hour', 'minute', 'second', 'microsecond', 'tzinfo', 'fold'], ['h', 'mi', 'se', 'us', 'tz', 'fo'])) +
                                [('b_time', '(h, mi, se, us)')])):
            ctx.equal('keep', '%s/%s' % (cls, form), w.where(cls + '.__new__'), w, 'a = %s(%s)' % (cls, aa), ['a'],
                      [(f, 'a.' + f, v) for f, v in list(zip(F, N)) + extra] +
                      [('b_date', 'a.b_date', '(%s)' % ARGS[form]), ('is_short', 'a.is_short', str(form == 'short')),
                       ('type', 'type(a) is ' + cls, 'True')], tz=E.TZ, fo=E.FO, **E.DATE[form][1], **E.TIME[1])
    for n, bad in (('one', '(y,)'), ('two', '(y, m)'), ('four', '(y, m, d, d)')):
        for cls in ('date', 'datetime'):
            ctx.raises('accept', '%s/%s-fields' % (cls, n), w.where(cls + '.__new__'), w, 'z = 0', ['z'], '%s(*%s)' % (cls, bad),
                       ('AssertionError', 'TypeError', 'ValueError'), **E.DATE['short'][1])
    for nm, tz in (('naive', 'None'), ('aware', 'tz')):
        ctx.equal('accept', 'time/' + nm, w.where('time.__new__'), w, 'z = 0', ['z'],
                  [('accepted', 'r', TGOOD)], pre=PRE % ('time(h, mi, se, us, %s, fold=fo)' % tz), tz=E.TZ, **TB)
        ctx.equal('keep', 'time/' + nm, w.where('time.__new__'), w, 'a = time(h, mi, se, us, %s, fold=fo)' % tz, ['a'],
                  [(f, 'a.' + f, v) for f, v in zip(['hour', 'minute', 'second', 'microsecond', 'tzinfo', 'fold'],
                                                    ['h', 'mi', 'se', 'us', tz, 'fo'])] + [('type', 'type(a) is time', 'True')],
                  tz=E.TZ, fo=E.FO, **E.TIME[1])
    for cls, call in (('time', 'time(h, mi, se, us, q)'), ('datetime', 'datetime(y, m, d, None, None, h, mi, se, us, q)')):
        ctx.raises('accept', cls + '/tzinfo-type', w.where(cls + '.__new__'), w, 'a = datetime(y, m, d, None, None, h, mi, se, us)', ['a'], call, ('TypeError',),
                   q=C('UTC'), **E.DATE['short'][1], **E.TIME[1])
    # ---- timezones
    off = TD(S('off', 'int', None, None))
    site = w.where('timezone.__new__')
    for nm, call in (('plain', 'timezone(p)'), ('named', "timezone(p, 'N')")):
        ctx.equal('zone', 'accept/' + nm, site, w, 'z = 0', ['z'],
                  [('accepted', 'r', 'timedelta(hours=-24) < p < timedelta(hours=24)')], pre=PRE % call, p=off)
        ctx.equal('zone', 'offset/' + nm, site, w, 'a = ' + call, ['a'],
                  [('utcoffset', 'a.utcoffset(None)', 'p'), ('badi', 'a.badioffset(None)', 'p - timedelta(hours=3.5)'),
                   ] + ([('name', 'a.tzname(None)', "'N'")] if nm == 'named' else []), p=off)
    for nm, call in (('offset', "timezone(5)"), ('name', 'timezone(p, 5)')):
        ctx.raises('zone', 'type/' + nm, site, w, 'z = 0', ['z'], call, ('TypeError',), p=off)
