"""C17: the representation of a value spells the constructor call of exactly its fields."""
from .lib import *
from . import entry as E
from .c02 import ordinals, INTERP

ARGS = {'short': '{y}, {m}, {d}', 'long': '{k}, {v}, {yy}, {m}, {d}'}
CONS = {'short': 'y, m, d, None, None', 'long': 'k, v, yy, m, d'}
N1 = S('us', 'int', 1, 999999)
CLOCKS = [('minutes', dict(se=C(0), us=C(0)), ''), ('seconds', dict(se=S('se', 'int', 1, 59), us=C(0)), ', {se}'),
          ('micro', dict(se=S('se', 'int', 1, 59), us=N1), ', {se}, {us}'), ('micro-only', dict(se=C(0), us=N1), ', 0, {us}')]


def run(ctx):
    ctx.explanation = (
        'repr() is interpreted on symbolic values; a text is a concatenation of constants and decimals of symbols, and must equal the concatenation the constructor call has, for each case of zero or non-zero second and microsecond, fold, form and kind of timezone; timezone offsets are symbolic.')
    ctx.assumptions = ['fields are whole numbers', 'timezone names are a fixed list of kinds (plain, empty, quotes, backslash)']
    ctx.rule('value', 'repr of a date, time or datetime is the constructor call of its fields')
    ctx.rule('zone', 'repr of a timezone names its offset and its name')
    ctx.rule('tuple', 'repr of a time tuple or week date names its fields')
    w = ctx.world()
    ordinals(w)
    w.I.whole_numbers = True
    T1 = dict(E.TIME[1], fo=E.FO)
    p = S('p', 'int', -86399999999, 86399999999)
    for form in ('short', 'long'):
        D = E.DATE[form][1]
        ctx.equal('value', 'date/' + form, w.where('date.__repr__'), w, 'a = date(%s)' % E.DATE[form][0], ['a'],
                  [('text', 'repr(a)', "f'badidatetime.date(%s)'" % ARGS[form])], interp=INTERP, **D)
        a = ARGS[form] + (', None, None' if form == 'short' else '')
        for sn, sec, stext in CLOCKS:
            for fold, ftext in ((C(0), ''), (C(1), ', fold=1')):
                b = dict(D, h=E.H, mi=E.MI, fo=fold, **sec)
                for nm, tz, ttext in (('naive', 'None', ''), ('timezone', "timezone(p, 'A/B')", ', tzinfo={z!r}'), ('utc', 'UTC', ', tzinfo=badidatetime.timezone.utc'),
                                      ('badi', 'BADI', ', tzinfo=badidatetime.BADI'), ('coords', "TZWithCoords(1.5, 2.5, 3.5, key='A/B')", ', tzinfo={z!r}')):
                    ctx.equal('value', 'datetime/%s/%s/%s/%s' % (form, nm, sn, fold.v), w.where('datetime.__repr__'), w,
                              'z = %s\na = datetime(%s, h, mi, se, us, z, fold=fo)' % (tz, CONS[form]), ['z', 'a'],
                              [('text', 'repr(a)', "f'badidatetime.datetime(%s, {h}, {mi}%s%s%s)'" % (a, stext, ttext, ftext))], interp=INTERP, p=TD(p), **b)
        # ---- tuples
        F = ['tm_kull_i_shay', 'tm_vahid'] * (form == 'long') + ['tm_year', 'tm_mon', 'tm_mday', 'tm_hour', 'tm_min', 'tm_sec', 'tm_wday', 'tm_yday', 'tm_isdst']
        cls = 'ShortFormStruct' if form == 'short' else 'LongFormStruct'
        ctx.equal('tuple', form, w.where(cls + '.__repr__'), w, 'a = datetime(%s, h, mi, se, us)\nt = a.timetuple()' % CONS[form], ['t'],
                  [('text', 'repr(t)', "f'structures.%s(%s)'" % (cls, ', '.join('%s={t.%s}' % (f, f) for f in F)))], interp=INTERP, **D, **T1)
    for sn, sec, stext in CLOCKS:
        for fold, ftext in ((C(0), ''), (C(1), ', fold=1')):
            ctx.equal('value', 'time/naive/%s/%s' % (sn, fold.v), w.where('time.__repr__'), w, 'a = time(h, mi, se, us, fold=fo)', ['a'],
                      [('text', 'repr(a)', "f'badidatetime.time({h}, {mi}%s%s)'" % (stext, ftext))], h=E.H, mi=E.MI, fo=fold, **sec)
    ctx.equal('tuple', 'week-date', w.where('_IsoCalendarDate.__repr__'), w, 'a = date(y, m, d).isocalendar()', ['a'],
              [('text', 'repr(a)', "f'_IsoCalendarDate(year={a[0]}, week={a[1]}, weekday={a[2]})'")], interp=INTERP, **E.DATE['short'][1])
    # ---- timezones
    site = w.where('timezone.__repr__')
    for i, nm in enumerate(('A/B', '', "O'B", '"', 'UTC', 'a\\b')):
        ctx.equal('zone', 'named/%d' % i, site, w, 'z = timezone(p, %r)' % nm, ['z'],
                  [('text', 'repr(z)', "'badidatetime.timezone(badidatetime.' + repr(p)[9:] + ', ' + repr(%r) + ')'" % nm)], p=TD(p))
    ctx.equal('zone', 'plain', site, w, 'z = timezone(p)', ['z'],
              [('text', 'repr(z)', "('badidatetime.timezone(badidatetime.' + repr(p)[9:] + ')') if p else 'badidatetime.timezone.utc'")], p=TD(p))
    ctx.equal('zone', 'coords', site, w, "z = TZWithCoords(1.5, 2.5, 3.5, key='A/B')\nv = TZWithCoords(1.5, 2.5, -0.5, key='')", ['z', 'v'],
              [('text', 'repr(z)', '"badidatetime.TZWithCoords(badidatetime." + repr(timedelta(hours=3.5))[9:] + ", \'A/B\')"'),
               ('plain', 'repr(v)', '"badidatetime.TZWithCoords(badidatetime." + repr(timedelta(hours=-0.5))[9:] + ")"')])
