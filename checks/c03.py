"""C03: the short and the long form of one day behave the same."""
from .lib import *
from . import entry as E
from .c02 import ordinals, INTERP, tz_model

YL = '361*(k - 1) + 19*(v - 1) + yy'
TT = ['tm_mon', 'tm_mday', 'tm_hour', 'tm_min', 'tm_sec', 'tm_wday', 'tm_yday', 'tm_isdst']


def both(obs):
    return [(n, 'L.' + e, 'X.' + e) for n, e in obs]


def run(ctx):
    ctx.explanation = (
        'One symbolic day is built in both forms; every observer that does not print the form itself '
        'is interpreted on both objects and the two terms must have one normal form. The conversions '
        'between the forms are interpreted for every (vahid, year) cell with a symbolic Kull-i-Shay’.')
    ctx.assumptions = ['day numbers are an arbitrary function of (year, month, day)',
                       'timezone offsets are whole minutes and do not depend on the datetime',
                       'the conversion cells use exact rational arithmetic for the float expressions']
    ctx.rule('observer', 'an observer gives the same value for both forms')
    ctx.rule('convert', 'long -> short -> long is the identity and short year = 361(k-1)+19(v-1)+y')
    w = ctx.world()
    ordinals(w)
    DL, T1 = E.DATE['long'][1], dict(E.TIME[1], h=E.H23)
    mk = 'L = date(k, v, yy, m, d)\nX = date(%s, m, d)' % YL
    eq = lambda rule, inst, where, pairs, **b: ctx.equal(rule, inst, w.where(where), w, b.pop('mk', mk), ['L', 'X'], pairs,
                                                         interp=INTERP, **{**DL, **b})
    for n in ('toordinal', 'weekday', 'isoweekday', 'isoformat', 'ctime'):
        eq('observer', 'date/' + n, 'date.' + n, both([(n, n + '()')]))
    eq('observer', 'date/isocalendar', 'date.isocalendar', [('isocalendar', 'tuple(L.isocalendar())', 'tuple(X.isocalendar())')])
    eq('observer', 'date/timetuple', 'date.timetuple', both([(n, 'timetuple().' + n) for n in TT]))
    eq('observer', 'date/compare', 'date._cmp', [('eq', 'L == X', 'True'), ('hash', 'hash(L)', 'hash(X)'), ('diff', 'L - X', 'timedelta(0)')])
    for c in 'aAbBCdDeGhjKmUVwWxyY':
        fs = ['%' + c] + (['%-' + c] if c in 'djmy' else []) + (['%:' + c] if c in 'KV' else [])
        for f in fs:
            eq('observer', 'date/strftime' + f, 'date.strftime', both([('text', 'strftime(%r)' % f)]))
    # ---- date-times
    tz_model(w, 'tz', TD(scale(S('o1', 'int', -1439, 1439), 60000000)))
    dl = 'L = datetime(k, v, yy, m, d, h, mi, se, us, %s, fold=fo)\nX = datetime({}, m, d, None, None, h, mi, se, us, %s, fold=fo)'.format(YL)
    for nm, tz in (('naive', 'None'), ('aware', 'tz')):
        b = dict(mk=dl % (tz, tz), tz=E.TZ, fo=E.FO, **T1)
        for n in ('toordinal', 'weekday', 'isoweekday', 'isoformat', 'ctime'):
            eq('observer', 'datetime/%s/%s' % (nm, n), 'datetime.' + n, both([(n, n + '()')]), **dict(b))
        eq('observer', 'datetime/%s/timetuple' % nm, 'datetime.timetuple', both([(n, 'timetuple().' + n) for n in TT]), **dict(b))
        eq('observer', 'datetime/%s/compare' % nm, 'datetime._cmp',
           [('eq', 'L == X', 'True'), ('hash', 'hash(L)', 'hash(X)'), ('diff', 'L - X', 'timedelta(0)')], **dict(b))
        for f in ('%Y', '%j', '%W', '%U', '%G', '%V', '%u', '%H', '%M', '%S', '%f', '%B', '%A'):
            eq('observer', 'datetime/%s/strftime%s' % (nm, f), 'date.strftime', both([('text', 'strftime(%r)' % f)]), **dict(b))
        eq('observer', 'datetime/%s/parts' % nm, 'datetime.date',
           [('time', *['(lambda t: (t.hour, t.minute, t.second, t.microsecond, t.tzinfo, t.fold))(%s.time())' % s for s in 'LX']),
            ('timetz', *['(lambda t: (t.hour, t.minute, t.second, t.microsecond, t.tzinfo, t.fold))(%s.timetz())' % s for s in 'LX']),
            ('date', 'L.date() == X.date()', 'True')], **dict(b))
    # the hour that ends a day
    b = dict(mk=dl % ('None', 'None'), tz=E.TZ, fo=E.FO, **dict(T1, h=C(24)))
    for n in ('toordinal', 'isoformat', 'ctime'):
        eq('observer', 'datetime/hour24/' + n, 'datetime.' + n, both([(n, n + '()')]), **dict(b))
    eq('observer', 'datetime/hour24/timetuple', 'datetime.timetuple', both([(n, 'timetuple().' + n) for n in TT]), **dict(b))
    # ---- naive timestamps go through one function of the short fields
    w.I.opaque['timestamp_from_badi_date'] = lambda I, fn, a, kw, h, fr: T('ts', *[x for x in a[1:]], typ='num')
    b = dict(mk=dl % ('None', 'None'), tz=E.TZ, fo=E.FO, **T1)
    w.st.heap[('mod', 'datetime')] = w.st.heap[('mod', 'datetime')].setattr('LOCAL_COORD', Tup((S('lat'), S('lon'), S('zone'))))
    eq('observer', 'datetime/naive/timestamp', 'datetime.timestamp', both([('timestamp', 'timestamp()')]), **b)
    convert(ctx)


def convert(ctx):
    w = ctx.world()
    lng, sht = w.where('BahaiCalendar.long_date_from_short_date'), w.where('BahaiCalendar.short_date_from_long_date')
    mk = 'bc = BahaiCalendar()'
    ctx.equal('convert', 'short-of-long', sht, w, mk + '\nL = date(k, v, yy, m, d)', ['bc', 'L'],
              [('year', 'bc.short_date_from_long_date(L.b_date)[0]', YL), ('md', 'bc.short_date_from_long_date(L.b_date)[1:3]', '(m, d)')],
              **E.DATE['long'][1])
    ctx.equal('convert', 'month-day-of-long', lng, w, mk + '\nX = date(y, m, d)', ['bc', 'X'],
              [('md', 'bc.long_date_from_short_date(X.b_date)[3:5]', '(m, d)')], **dict(E.DATE['short'][1], m=S('m', 'int', 1, 19)))
    for v in range(1, 20):
        ctx.defer(cell, ctx, w, lng, v)


def cell(ctx, w, site, v):
    st, und = 0, None
    for yy in range(1, 20):
        c = Ctx(ctx.prop, ctx.root, ctx.tier, ctx.seed)
        c._equal('convert', 'long-of-short/%d.%d' % (v, yy), site, w,
                 'bc = BahaiCalendar()\nX = date(361*(k - 1) + %d, m, d)' % (19 * (v - 1) + yy), ['bc', 'X'],
                 [('kvy', 'bc.long_date_from_short_date(X.b_date)[:3]', '(k, %d, %d)' % (v, yy))],
                 k=E.K, m=E.M, d=E.D)
        for o in c.obls:
            if o.status != 'discharged' and (und is None or o.status == 'violated'):
                und = o
    if und is None:
        ctx.ok('convert', 'long-of-short/vahid%d' % v, site)
    else:
        ctx.add('convert', 'long-of-short/vahid%d' % v, und.status, und.site, und.inst + ' ' + und.msg, und.witness)
