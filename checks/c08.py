"""C08: the ISO texts are written as documented and read back as written."""
import zlib
from .lib import *
from . import entry as E
from .c02 import tz_model, ordinals

M1 = S('m', 'int', 1, 19)
YP, YN = S('y', 'int', 0, 1161), S('y', 'int', -1842, -1000)
YS = S('y', 'int', -999, -1)
YEARS = {'plus': (YP, "{y:04d}"), 'minus': (YN, "-{-y:04d}"), 'minus-short': (YS, "-{-y:04d}")}
SEC59 = S('se', 'int', 0, 59)
LEAP = '(_td_utils._YEAR_START[y + 1] - _td_utils._YEAR_START[y] == 366)'
OF_DOY = ('((y, (n - 1) // 19 + 1, (n - 1) % 19 + 1) if n <= 342 else (y, 0, n - 342) if n <= 346 + LEAP '
          'else (y, 19, n - 346 - LEAP))').replace('LEAP', LEAP)
F3 = '(lambda x: (x.year, x.month, x.day))(%s)'
F7 = '(lambda x: (x.year, x.month, x.day, x.hour, x.minute, x.second, x.microsecond))(%s)'
T4 = '(lambda x: (x.hour, x.minute, x.second, x.microsecond))(%s)'
MIN = 60000000


def run(ctx):
    ctx.explanation = (
        'The writers are interpreted to symbolic texts (digit cells of the fields) and compared with the documented '
        'layout; the readers are interpreted on such texts, for every documented layout of date, time and timezone, '
        'and the resulting fields must be those written. Digit positions, sign and zero padding are therefore '
        'decided for every field value.')
    ctx.assumptions = ['fractions are read in exact arithmetic', 'offsets of whole minutes in the readers',
                       'the leap year of year y is read from the year-start table, an opaque function here',
                       'week dates are decided as delegation to fromisocalendar']
    ctx.rule('write', 'isoformat() and str() write the documented layout of the fields')
    ctx.rule('read', 'a documented layout is read into the fields it spells')
    ctx.rule('roundtrip', 'fromisoformat(isoformat()) is the same value')
    ctx.rule('reject', 'texts that spell no valid value are refused')
    w = ctx.world()
    ordinals(w)
    tz_model(w, 'tz', TD(scale(S('o1', 'int', -1439, 1439), MIN)))
    write(ctx, w)
    read(ctx, w)
    roundtrip(ctx, w)
    reject(ctx, w)


def write(ctx, w):
    D, T1 = dict(m=E.M, d=E.D), dict(E.TIME[1])
    for nm, (y, ys) in YEARS.items():
        if nm == 'minus-short':
            continue
        text = "f'%s-{m:02d}-{d:02d}'" % ys
        ctx.equal('write', 'date/' + nm, w.where('date.isoformat'), w, 'a = date(y, m, d)', ['a'],
                  [('iso', 'a.isoformat()', text), ('str', 'str(a)', text), ('format', "format(a, '')", text)], y=y, **D)
        mk = 'a = datetime(y, m, d, None, None, h, mi, se, us)'
        for ts, tail in (('hours', '{h:02d}'), ('minutes', '{h:02d}:{mi:02d}'), ('seconds', '{h:02d}:{mi:02d}:{se:02d}'),
                         ('milliseconds', '{h:02d}:{mi:02d}:{se:02d}.{us // 1000:03d}'),
                         ('microseconds', '{h:02d}:{mi:02d}:{se:02d}.{us:06d}')):
            for sep in 'T ':
                ctx.equal('write', 'datetime/%s/%s/%s' % (nm, ts, 'T' if sep == 'T' else 'space'), w.where('datetime.isoformat'), w, mk, ['a'],
                          [('iso', 'a.isoformat(%r, %r)' % (sep, ts), text[:-1] + sep + tail + "'"),
                           ('kw', 'a.isoformat(sep=%r, timespec=%r)' % (sep, ts), text[:-1] + sep + tail + "'")], y=y, **D, **T1)
        for un, us, tail in (('whole', C(0), ''), ('fraction', S('us', 'int', 1, 999999), '.{us:06d}')):
            full = text[:-1] + 'T{h:02d}:{mi:02d}:{se:02d}' + tail + "'"
            ctx.equal('write', 'datetime/%s/auto/%s' % (nm, un), w.where('datetime.isoformat'), w, mk, ['a'],
                      [('iso', 'a.isoformat()', full), ('str', 'str(a)', full), ('format', "format(a, '')", full)], y=y, **D, **dict(T1, us=us))
    mk = 'a = time(h, mi, se, us)'
    for ts, tail in (('hours', '{h:02d}'), ('minutes', '{h:02d}:{mi:02d}'), ('seconds', '{h:02d}:{mi:02d}:{se:02d}'),
                     ('milliseconds', '{h:02d}:{mi:02d}:{se:02d}.{us // 1000:03d}'),
                     ('microseconds', '{h:02d}:{mi:02d}:{se:02d}.{us:06d}')):
        ctx.equal('write', 'time/' + ts, w.where('time.isoformat'), w, mk, ['a'], [('iso', 'a.isoformat(%r)' % ts, "f'%s'" % tail)], **T1)
    for un, us, tail in (('whole', C(0), ''), ('fraction', S('us', 'int', 1, 999999), '.{us:06d}')):
        full = "f'{h:02d}:{mi:02d}:{se:02d}%s'" % tail
        ctx.equal('write', 'time/auto/' + un, w.where('time.isoformat'), w, mk, ['a'],
                  [('iso', 'a.isoformat()', full), ('str', 'str(a)', full), ('format', "format(a, '')", full)], **dict(T1, us=us))
    for cls, a in (('time', 'h, mi, se, us'), ('datetime', 'y, m, d, None, None, h, mi, se, us')):
        ctx.raises('reject', cls + '/timespec', w.where(cls + '.isoformat'), w, 'a = %s(%s)' % (cls, a), ['a'], "a.isoformat(timespec='days')",
                   ('ValueError',), y=YP, **D, **T1)
    # the long form writes its own fields
    kn, kp = S('k', 'int', -4, -1), S('k', 'int', 0, 4)
    for nm, k, ks in (('plus', kp, '{k:02d}'), ('minus', kn, '-{-k:02d}')):
        text = "f'%s-{v:02d}-{yy:02d}-{m:02d}-{d:02d}'" % ks
        b = dict(E.DATE['long'][1], k=k)
        ctx.equal('write', 'date/long/' + nm, w.where('date._str_convertion'), w, 'a = date(k, v, yy, m, d)', ['a'],
                  [('str', 'str(a)', text), ('format', "format(a, '')", text)], **b)
        for un, us, tail in (('whole', C(0), ''), ('fraction', S('us', 'int', 1, 999999), '.{us:06d}')):
            full = text[:-1] + 'T{h:02d}:{mi:02d}:{se:02d}' + tail + "'"
            ctx.equal('write', 'datetime/long/%s/%s' % (nm, un), w.where('datetime._dt_str_conversion'), w,
                      'a = datetime(k, v, yy, m, d, h, mi, se, us)', ['a'], [('str', 'str(a)', full), ('format', "format(a, '')", full)], **b, **dict(T1, us=us))


def read(ctx, w):
    D = dict(m=E.M, d=E.D)
    one = 'z = 0'
    B = dict(m=M1, d=E.D)
    site = w.where('TimeDateUtils._parse_isoformat_date')
    for nm, (y, ys) in YEARS.items():
        for fn, text, want in (('extended', '%s-{m:02d}-{d:02d}', '(y, m, d)'), ('basic', '%s{m:02d}{d:02d}', '(y, m, d)'),
                               ('month', '%s-{m:02d}', '(y, m, 1)')):
            t = "f'%s'" % (text % ys)
            ctx.equal('read', 'date/%s/%s' % (fn, nm), site, w, one, ['z'], [('fields', F3 % ('date.fromisoformat(%s)' % t), want),
                                                                          ('type', 'type(date.fromisoformat(%s)) is date' % t, 'True')], y=y, **B)
            if fn != 'month':
                ctx.equal('read', 'date/%s/%s/ayyam' % (fn, nm), site, w, one, ['z'], [('fields', F3 % ('date.fromisoformat(%s)' % t), want)],
                          y=y, m=C(0), d=S('d', 'int', 1, 4))
        for fn, text in (('doy', '%s-{n:03d}'), ('doy-basic', '%s{n:03d}')):
            t = "f'%s'" % (text % ys)
            for part, lo, hi in [('month%d' % i, 19*i - 18, 19*i) for i in range(1, 19)] + [('ayyam', 343, 346), ('347', 347, 347), ('last', 348, 365), ('366', 366, 366)]:
                ctx.equal('read', 'date/%s/%s/%s' % (fn, nm, part), site, w, one, ['z'], [('fields', F3 % ('date.fromisoformat(%s)' % t), OF_DOY)],
                          y=y, n=S('n', 'int', lo, hi), pre='if n > 342 and y > 1160 or n == 366 and not %s:\n    raise OverflowError' % LEAP, allow=('OverflowError',))
    w2 = ctx.world()
    ordinals(w2)
    # a week date is the day fromisocalendar() names
    w2.I.opaque['_isoweek_to_badi'] = week
    for nm, (y, ys) in YEARS.items():
        for fn, text in (('week', '%s-W{k:02d}-{n:d}'), ('week-basic', '%sW{k:02d}{n:d}'), ('week-only', '%s-W{k:02d}')):
            t = "f'%s'" % (text % ys)
            ctx.equal('read', 'date/%s/%s' % (fn, nm), site, w2, one, ['z'],
                      [('fields', F3 % ('date.fromisoformat(%s)' % t), F3 % ('date.fromisocalendar(y, k, %s)' % ('1' if fn == 'week-only' else 'n')))],
                      y=y, k=S('k', 'int', 1, 53), n=S('n', 'int', 1, 7))
    # ---- times
    site = w.where('TimeDateUtils._parse_isoformat_time')
    TT = dict(E.TIME[1])
    us6, us3 = S('us', 'int', 0, 999999), S('us', 'int', 0, 999)
    for fn, text, want in (('h', 'T{h:02d}', '(h, 0, 0, 0)'), ('hm', 'T{h:02d}:{mi:02d}', '(h, mi, 0, 0)'), ('hm-basic', 'T{h:02d}{mi:02d}', '(h, mi, 0, 0)'),
                           ('hms', 'T{h:02d}:{mi:02d}:{se:02d}', '(h, mi, se, 0)'), ('hms-basic', 'T{h:02d}{mi:02d}{se:02d}', '(h, mi, se, 0)')):
        t = "f'%s'" % text
        ctx.equal('read', 'time/' + fn, site, w, one, ['z'], [('fields', T4 % ('time.fromisoformat(%s)' % t), want),
                                                           ('space', T4 % ("time.fromisoformat(' ' + %s)" % t.replace('T{', '{')), want)], **TT)
    for fn, text in (('hms', 'T{h:02d}:{mi:02d}:{se:02d}.'), ('hms-basic', 'T{h:02d}{mi:02d}{se:02d}.')):
        for dn, us, dig, den in (('us', us6, '06d', 1000000), ('ms', us3, '03d', 1000)):
            t = "f'%s{us:%s}'" % (text, dig)
            ctx.equal('read', 'time/%s.%s' % (fn, dn), site, w, one, ['z'],
                      [('hm', '(lambda x: (x.hour, x.minute))(time.fromisoformat(%s))' % t, '(h, mi)'),
                       ('seconds', 'time.fromisoformat(%s).second' % t, 'se + us / %d' % den)], **dict(TT, us=us, se=SEC59))
    f2 = S('fr', 'int', 0, 99)
    for fn, text, tot in (('h.f', 'T{h:02d}.{fr:02d}', 'h * 3600 + fr * 36'), ('hm.f', 'T{h:02d}:{mi:02d}.{fr:02d}', 'h * 3600 + mi * 60 + fr * 60 / 100'),
                          ('hm.f-basic', 'T{h:02d}{mi:02d}.{fr:02d}', 'h * 3600 + mi * 60 + fr * 60 / 100')):
        t = "f'%s'" % text
        ctx.equal('read', 'time/' + fn, site, w, one, ['z'],
                  [('seconds', '(lambda x: x[0] * 3600 + x[1] * 60 + x[2])(_td_utils._parse_isoformat_time(%s))' % t, tot),
                   ('range', '(lambda x: 0 <= x[1] < 60 and 0 <= x[2] < 60)(_td_utils._parse_isoformat_time(%s))' % t, 'True')], fr=f2, **TT)
    # ---- timezones
    site = w.where('TimeDateUtils._parse_isoformat_timezone')
    oh, om = S('oh', 'int', 0, 23), S('om', 'int', 0, 59)
    date_t, tm_t = "{y:04d}-{m:02d}-{d:02d}", "T{h:02d}:{mi:02d}:{se:02d}"
    tm_b = "{y:04d}{m:02d}{d:02d}T{h:02d}{mi:02d}{se:02d}"
    for dn, head in (('extended', date_t + tm_t), ('space', date_t + ' ' + tm_t[1:]), ('basic', tm_b), ('minute', date_t + 'T{h:02d}:{mi:02d}'),
                     ('hour', date_t + 'T{h:02d}')):
        want = '(y, m, d, h, %s, %s, 0)' % ('0' if dn == 'hour' else 'mi', 'se' if dn in ('extended', 'basic', 'space') else '0')
        for zn, tail, off in (('naive', '', None), ('Z', 'Z', 'timedelta(0)'), ('B', 'B', 'timedelta(hours=3.5)'),
                              ('+hm', '+{oh:02d}:{om:02d}', 'timedelta(hours=oh, minutes=om)'), ('-hm', '-{oh:02d}:{om:02d}', '-timedelta(hours=oh, minutes=om)'),
                              ('+h', '+{oh:02d}', 'timedelta(hours=oh)'), ('-h', '-{oh:02d}', '-timedelta(hours=oh)')):
            t = "f'%s%s'" % (head, tail)
            ctx.equal('read', 'datetime/%s/%s' % (dn, zn), site, w, one, ['z'],
                      [('fields', F7 % 'x', want), ('offset', 'x.utcoffset()', str(off))], pre='x = datetime.fromisoformat(%s)' % t,
                      y=YP, oh=oh, om=om, **B, **TT)
        if dn == 'extended':
            for zn, z in (('Z', 'UTC'), ('B', 'BADI')):
                ctx.equal('read', 'datetime/zone/' + zn, site, w, one, ['z'],
                          [('zone', "datetime.fromisoformat(f'%s%s').tzinfo is %s" % (head, zn, z), 'True')], y=YP, **B, **TT)
    for dn, head in (('date', date_t), ('date-basic', '{y:04d}{m:02d}{d:02d}'), ('date-minus', '-{-y:04d}-{m:02d}-{d:02d}')):
        y = YN if dn == 'date-minus' else YP
        for zn, tail, off in (('naive', '', None), ('Z', 'Z', 'timedelta(0)'), ('+hm', '+{oh:02d}:{om:02d}', 'timedelta(hours=oh, minutes=om)')):
            ctx.equal('read', 'datetime/%s/%s' % (dn, zn), site, w, one, ['z'],
                      [('fields', F7 % 'x', '(y, m, d, 0, 0, 0, 0)'), ('offset', 'x.utcoffset()', str(off))],
                      pre="x = datetime.fromisoformat(f'%s%s')" % (head, tail), y=y, oh=oh, om=om, **B)


def week(I, f, a, kw, h, fr):
    i = '%08x' % zlib.crc32('|'.join(rk(x) for x in a[-3:]).encode())
    t = [S('wy@' + i, 'int', -1842, 1161), S('wm@' + i, 'int', 1, 19), S('wd@' + i, 'int', 1, 19)]
    sh = kw.get('short', C(False))
    if isinstance(sh, C) and sh.v:
        return Tup(t)
    return Tup([S('wk@' + i, 'int', -4, 3), S('wv@' + i, 'int', 1, 19)] + [S('wz@' + i, 'int', 1, 19)] + t[1:])


def roundtrip(ctx, w):
    B = dict(m=M1, d=E.D)
    ay = dict(m=C(0), d=S('d', 'int', 1, 5))
    for nm, (y, _) in YEARS.items():
        for mn, b in (('', B), ('/ayyam', ay)):
            ctx.equal('roundtrip', 'date/%s%s' % (nm, mn), w.where('date.fromisoformat'), w, 'a = date(y, m, d)', ['a'],
                      [('fields', F3 % 'date.fromisoformat(a.isoformat())', '(y, m, d)'), ('equal', 'date.fromisoformat(str(a)) == a', 'True')], y=y, **b)
            if nm == 'minus-short':
                ctx.equal('roundtrip', 'datetime/%s%s' % (nm, mn), w.where('datetime.fromisoformat'), w, 'a = datetime(y, m, d, None, None, h)', ['a'],
                          [('fields', F7 % 'datetime.fromisoformat(a.isoformat())', '(y, m, d, h, 0, 0, 0)')], y=y, h=E.H, **b)
                continue
            for un, us in (('whole', C(0)), ('fraction', S('us', 'int', 1, 999999))):
                T1 = dict(E.TIME[1], us=us, se=SEC59)
                for sep in 'T ':
                    ctx.equal('roundtrip', 'datetime/%s%s/%s/%s' % (nm, mn, un, 'T' if sep == 'T' else 'space'), w.where('datetime.fromisoformat'), w,
                              'a = datetime(y, m, d, None, None, h, mi, se, us)', ['a'],
                              [('fields', F7 % ('datetime.fromisoformat(a.isoformat(%r))' % sep), '(y, m, d, h, mi, se, us)')], y=y, **b, **T1)
                for sg, lo, hi in (('+', 0, 1439), ('-', -1439, -1)):
                    o1 = S('o1', 'int', lo, hi)
                    ctx.equal('roundtrip', 'datetime/%s%s/%s/offset%s' % (nm, mn, un, sg), w.where('datetime.fromisoformat'), w,
                              "q = timezone(p, 'N')\na = datetime(y, m, d, None, None, h, mi, se, us, q)", ['a', 'q'],
                              [('fields', F7 % 'x', '(y, m, d, h, mi, se, us)'), ('offset', 'x.utcoffset()', 'p')],
                              pre='x = datetime.fromisoformat(a.isoformat())', y=y, p=TD(scale(o1, MIN)), **b, **T1)
    ctx.equal('roundtrip', 'time', w.where('time.fromisoformat'), w, 'a = time(h, mi, se)', ['a'],
              [('fields', T4 % "time.fromisoformat('T' + a.isoformat())", '(h, mi, se, 0)')], **E.TIME[1])


def reject(ctx, w):
    one = 'z = 0'
    B = dict(m=M1, d=E.D)
    big = lambda n, lo, hi: S(n, 'int', lo, hi)
    for cls, err in (('date', ('ValueError',)),):
        call = "date.fromisoformat(f'%s')"
        for nm, text, b in (('month', '{y:04d}-{q:02d}-{d:02d}', dict(q=big('q', 20, 99))), ('month-basic', '{y:04d}{q:02d}{d:02d}', dict(q=big('q', 20, 99))),
                            ('day', '{y:04d}-{m:02d}-{q:02d}', dict(q=big('q', 20, 99))), ('day0', '{y:04d}-{m:02d}-00', {}),
                            ('doy', '{y:04d}-{q:03d}', dict(q=big('q', 367, 999))), ('year', '{q:04d}-{m:02d}-{d:02d}', dict(q=big('q', 1162, 9999))),
                            ('year-minus', '-{q:04d}-{m:02d}-{d:02d}', dict(q=big('q', 1843, 9999))),
                            ('time', '{y:04d}-{m:02d}-{d:02d}T{q:02d}', dict(q=big('q', 0, 23))), ('slash', '{y:04d}/{m:02d}/{d:02d}', {}),
                            ('letter', '{y:04d}-{m:02d}-{d:02d}x', {}), ('space', '{y:04d}-{m:02d}-{d:02d} {q:02d}', dict(q=big('q', 0, 23)))):
            ctx.raises('reject', 'date/' + nm, w.where('date.fromisoformat'), w, one, ['z'],
                       'date(*()) if 0 else ' + call % text, err + (('AssertionError',) if nm in ('month', 'month-basic', 'day', 'day0', 'year') else ()),
                       y=S('y', 'int', 0, 1160), **B, **b)
    ctx.raises('reject', 'date/type', w.where('date.fromisoformat'), w, one, ['z'], 'date.fromisoformat(q)', ('TypeError',), q=S('q', 'int', None, None))
    ctx.raises('reject', 'time/type', w.where('time.fromisoformat'), w, one, ['z'], 'time.fromisoformat(q)', ('TypeError',), q=S('q', 'int', None, None))
    for nm, text, b in (('hour', 'T{q:02d}:{mi:02d}', dict(q=big('q', 25, 99))), ('minute', 'T{h:02d}:{q:02d}', dict(q=big('q', 60, 99))),
                        ('second', 'T{h:02d}:{mi:02d}:{q:02d}', dict(q=big('q', 61, 99))), ('hour-basic', 'T{q:02d}{mi:02d}', dict(q=big('q', 25, 99))),
                        ('odd', 'T{h:02d}:{q:01d}', dict(q=big('q', 0, 9))), ('letter', 'T{h:02d}h{mi:02d}', {}), ('colons', 'T{h:02d}:{mi:02d}:{se:02d}:00', {})):
        ctx.raises('reject', 'time/' + nm, w.where('time.fromisoformat'), w, one, ['z'], "time.fromisoformat(f'%s')" % text, ('ValueError',), **dict(E.TIME[1]), **b)
    for nm, text, b in (('offset', '{y:04d}-{m:02d}-{d:02d}T{h:02d}:{mi:02d}+{q:02d}:00', dict(q=big('q', 24, 99))),
                        ('two', '{y:04d}-{m:02d}-{d:02d}T{h:02d}:{mi:02d}+01:00Z', {})):
        ctx.raises('reject', 'datetime/' + nm, w.where('datetime.fromisoformat'), w, one, ['z'], "datetime.fromisoformat(f'%s')" % text,
                   ('ValueError', 'AssertionError'), y=S('y', 'int', 0, 1160), **B, **dict(E.TIME[1]), **b)
