"""C11: strptime reads what its format says, and what strftime wrote."""
from .lib import *
from . import entry as E
from . import strp
from .c06 import ordmodel

YP, YN = S('y', 'int', 0, 1161), S('y', 'int', -1842, -1)
N = lambda lo, hi: S('n', 'int', lo, hi)
SP = 'datetime.strptime'
FULL = ['year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond', 'tzinfo', 'is_short']
ROUND = ['%Y-%m-%d %H:%M:%S.%f', '%d/%m/%Y %S:%M:%H,%f', '%Y%m%dT%H%M%S%f', '%f %S %M %H %d %m %Y', '%%%Y-%m-%d[%H]%M*%S?%f', 'Year %Y, Month %m, Day %d at %H.%M.%S.%f']
MONTHS = 20


def run(ctx):
    ctx.explanation = (
        'strptime is interpreted on symbolic texts; its regular expressions are taken from the interpreted module and '
        'matched, with backtracking and priorities, against digit cells, keeping the exact set of numbers that takes '
        'each way. The fields of the result must be the numbers of the text.')
    ctx.assumptions = ['C locale and UTC', 'day numbers are an arbitrary bijection', 'the am and pm words depend on sunset and are given']
    ctx.rule('roundtrip', 'strptime(x.strftime(f), f) is x when f determines x')
    ctx.rule('parse', 'each directive gives its field the number or name spelled in the text')
    ctx.rule('reject', 'text that does not match, has a number out of range or is left over, and bad formats, raise ValueError')
    ctx.rule('cache', 'the result does not depend on the formats parsed before')
    w = strp.world(ctx)
    ordmodel(w)
    roundtrip(ctx, w)
    parse(ctx, w)
    reject(ctx, w)
    cache(ctx, w)


def fields(r='r', x='x', fs=FULL):
    return [(f, '%s.%s' % (r, f), '%s.%s' % (x, f)) for f in fs]


def roundtrip(ctx, w):
    site = w.where('_strptime.StrpTime') or w.where('StrpTime')
    T1 = dict(E.TIME[1], h=E.H23)
    for yn, y in (('plus', YP), ('minus', YN)):
        b = dict(y=y, m=E.M, d=E.D, **T1)
        for f in ROUND:
            ctx.equal('roundtrip', '%s/%s' % (yn, f), site, w, 'x = datetime(y, m, d, None, None, h, mi, se, us)', ['x'], fields(),
                      pre='r = %s(x.strftime(%r), %r)' % (SP, f, f), **b)
        ctx.equal('roundtrip', '%s/long' % yn, site, w, 'x = datetime(k, v, yy, m, d, h, mi, se, us)', ['x'],
                  [('day', 'r.toordinal()', 'x.toordinal()'), ('hour', 'r.hour', 'x.hour'), ('microsecond', 'r.microsecond', 'x.microsecond')],
                  pre='r = %s(x.strftime("%%Y-%%m-%%d %%H %%M %%S %%f"), "%%Y-%%m-%%d %%H %%M %%S %%f")' % SP,
                  k=S('k', 'int', *((1, 4) if yn == 'plus' else (-5, -1))), v=E.V_, yy=E.YY, m=E.M, d=E.D, **T1)
        for m in range(MONTHS):
            for c in 'Bb':
                if c == 'b' and m == 15:        # shares its abbreviation with month 11
                    continue
                f = '%%d %%%s %%Y %%H' % c
                ctx.equal('roundtrip', '%s/%%%s/%d' % (yn, c, m), site, w, 'x = datetime(y, %d, d, None, None, h)' % m, ['x'],
                          fields(fs=['year', 'month', 'day', 'hour']), pre='r = %s(x.strftime(%r), %r)' % (SP, f, f), y=y, d=E.D, h=E.H23)


def parse(ctx, w):
    I = w.I
    site = w.where('StrpTime._parse_found_dict')
    one = lambda inst, fmt, text, pairs, where=None, allow=(), **b: ctx.equal(
        'parse', inst, where or site, w, 'u = 0', ['u'], pairs, allow=allow, pre='r = %s(%s, %r)' % (SP, text, fmt), **b)
    # numbers in their short spellings
    NUM = dict(m=('month', 0, 9), d=('day', 1, 9), H=('hour', 0, 9), M=('minute', 0, 9), S=('second', 0, 9))
    for c, (f, lo, hi) in NUM.items():
        rest = {'m': ' 181 02', 'd': ' 181 02'}.get(c, ' 181 02')
        tail = {'m': ' %Y %d', 'd': ' %Y %m'}.get(c, ' %Y %m')
        one('one-digit/%' + c, '%' + c + tail, "f'{n:d}' + %r" % rest, [('value', 'r.' + f, 'n'), ('year', 'r.year', '181')], n=N(lo, hi))
    one('space/%d', '%Y/%m/%d', "'0181/03/' + f' {n:d}'", [('value', 'r.day', 'n')], n=N(1, 9))
    for wd in (1, 2, 3, 4):
        lo, hi = (10 ** (wd - 1), 10 ** wd - 1) if wd < 4 else (1000, 1161)
        one('year/%d' % wd, '%Y-%m', "f'{n:d}-05'", [('value', 'r.year', 'n'), ('month', 'r.month', '5'), ('day', 'r.day', '1')], n=N(lo, hi))
    for wd in range(1, 7):
        one('fraction/%d' % wd, '%Y %S.%f', "f'0181 {s:02d}.{n:0%dd}'" % wd, [('value', 'r.microsecond', 'n * %d' % 10 ** (6 - wd)), ('second', 'r.second', 's')],
            n=N(0, 10 ** wd - 1), s=S('s', 'int', 0, 59))
    one('two-digit-year', '%y-%m-%d', "f'{n:02d}-{m:02d}-02'", [('year', 'r.year', 'n'), ('month', 'r.month', 'm')], n=N(0, 99), m=S('m', 'int', 1, 19))
    one('leap-second', '%Y %H:%M:%S', "f'0181 {h:02d}:{mi:02d}:60'", [('second', 'r.second', '60'), ('minute', 'r.minute', 'mi')], h=E.H23, mi=E.MI)
    # defaults
    one('default/time', '%H:%M', "f'{h:02d}:{mi:02d}'", [(a, 'r.' + a, e) for a, e in (('year', '2'), ('month', '1'), ('day', '1'), ('hour', 'h'), ('minute', 'mi'), ('second', '0'), ('microsecond', '0'))], h=E.H23, mi=E.MI)
    one('default/date', '%m %d', "f'{m:02d} {d:02d}'", [('year', 'r.year', '2'), ('month', 'r.month', 'm'), ('day', 'r.day', 'd'), ('hour', 'r.hour', '0')], m=S('m', 'int', 1, 19), d=E.D)
    one('default/leap', '%m %d', "'00 05'", [('year', 'r.year', '1'), ('month', 'r.month', '0'), ('day', 'r.day', '5')], allow=('AssertionError',))     # (the leap years are a table the check leaves open)
    # names: any case; a weekday does not change the date
    for c, tab in (('A', 'DAYNAMES'), ('a', 'DAYNAMES_ABV')):
        for i in range(7):
            for case in ('', '.upper()', '.lower()'):
                one('weekday/%%%s/%d%s' % (c, i, case), '%' + c + ' %Y-%m-%d', "_td_utils.%s[%d]%s + f' 0181-{m:02d}-{d:02d}'" % (tab, i, case),
                    [('month', 'r.month', 'm'), ('day', 'r.day', 'd')], m=S('m', 'int', 1, 19), d=E.D)
    for c, tab in (('B', 'MONTHNAMES'), ('b', 'MONTHNAMES_ABV')):
        for i in range(MONTHS):
            if c == 'b' and i == 15:
                continue
            for case in ('.upper()', '.lower()'):
                one('month/%%%s/%d%s' % (c, i, case), '%' + c + ' %Y', "_td_utils.%s[%d]%s + ' 0181'" % (tab, i, case), [('month', 'r.month', str(i))])
    # hours of the twelve hour clock
    for p, add_ in (('am', 0), ('pm', 12), ('AM', 0), ('PM', 12)):
        one('twelve/' + p, '%Y %I:%M %p', "f'0181 {n:02d}:{mi:02d} %s'" % p, [('hour', 'r.hour', '(0 if n == 12 else n) + %d' % add_), ('minute', 'r.minute', 'mi')], n=N(1, 12), mi=E.MI)
        one('twelve-short/' + p, '%Y %I%p', "f'0181 {n:d}%s'" % p, [('hour', 'r.hour', 'n + %d' % add_)], n=N(1, 9))
    # offsets
    for sg, k in (('+', 1), ('-', -1)):
        b = dict(oh=S('oh', 'int', 0, 23), om=S('om', 'int', 0, 59), os=S('os', 'int', 0, 59), of=US_(), mi=E.MI)
        for nm, text, us in (('basic', '{oh:02d}{om:02d}', 0), ('colon', '{oh:02d}:{om:02d}', 0), ('seconds', '{oh:02d}{om:02d}{os:02d}', 1), ('colon-seconds', '{oh:02d}:{om:02d}:{os:02d}', 1),
                             ('fraction', '{oh:02d}:{om:02d}:{os:02d}.{of:06d}', 2), ('basic-fraction', '{oh:02d}{om:02d}{os:02d}.{of:06d}', 2)):
            dur = 'timedelta(hours=oh, minutes=om%s%s)' % (', seconds=os' if us else '', ', microseconds=of' if us > 1 else '')
            one('offset/%s%s' % (sg, nm), '%Y %M%z', "f'0181 {mi:02d}%s%s'" % (sg, text), [('offset', 'r.utcoffset()', ('-' if k < 0 else '') + dur), ('minute', 'r.minute', 'mi')], **b)
        for wd in range(1, 6):
            one('offset/%sfraction%d' % (sg, wd), '%Y %M%z', "f'0181 {mi:02d}%s{oh:02d}:{om:02d}:{os:02d}.{of:0%dd}'" % (sg, wd),
                [('offset', 'r.utcoffset()', ('-' if k < 0 else '') + 'timedelta(hours=oh, minutes=om, seconds=os, microseconds=of * %d)' % 10 ** (6 - wd))],
                **dict(b, of=S('of', 'int', 0, 10 ** wd - 1)))
    one('offset/Z', '%Y %M%z', "f'0181 {mi:02d}Z'", [('offset', 'r.utcoffset()', 'timedelta(0)'), ('minute', 'r.minute', 'mi')], mi=E.MI)
    one('zone', '%Y %H %Z', "f'0181 {h:02d} UTC'", [('tz', 'r.tzinfo', 'None'), ('hour', 'r.hour', 'h')], h=E.H23)
    one('offset-zone', '%Y %z %Z', "f'0181 +{oh:02d}00 GMT'", [('name', 'r.tzname()', "'GMT'"), ('offset', 'r.utcoffset()', 'timedelta(hours=oh)')], oh=S('oh', 'int', 0, 23))
    # day of the year and week date
    one('yday', '%Y %j', "f'{y:04d} {j:03d}'", [('day', 'r.toordinal()', 'date(y, 1, 1).toordinal() + j - 1')], y=YP, j=S('j', 'int', 1, 366), where=w.where('StrpTime._miscellaneous'))
    one('yday-short', '%Y,%j', "f'{y:04d},{j:d}'", [('day', 'r.toordinal()', 'date(y, 1, 1).toordinal() + j - 1')], y=YP, j=S('j', 'int', 10, 99), where=w.where('StrpTime._miscellaneous'))
    w2 = strp.world(ctx)
    ordmodel(w2)

    def week(I, fn, a, kw, h, fr):
        return Tup([T('iw' + c, *a[1:4], typ='int') for c in 'ymd'])
    w2.I.opaque['_isoweek_to_badi'] = week
    wk = lambda inst, fmt, text, day, **b: ctx.equal(
        'parse', 'week/' + inst, w.where('StrpTime._miscellaneous'), w2, 'u = 0', ['u'],
        [(a, 'r.' + a, 'q.' + a) for a in ('year', 'month', 'day')], pre='r = %s(%s, %r)\nq = date.fromisocalendar(g, v, %s)' % (SP, text, fmt, day),
        allow=('AssertionError', 'ValueError', 'OverflowError'), g=S('g', 'int', 0, 1161), v=S('v', 'int', 1, 51), **b)
    # (acceptance of the numbers is decided below, so a refusal here is the week date's own)
    wk('%u', '%G %V %u', "f'{g:04d} {v:02d} {u:d}'", 'u', u=S('u', 'int', 1, 7))
    wk('%w', '%G-W%V-%w', "f'{g:04d}-W{v:02d}-{u:d}'", 'u + 1', u=S('u', 'int', 0, 6))
    wk('order', '%u %V %G', "f'{u:d} {v:02d} {g:04d}'", 'u', u=S('u', 'int', 1, 7))
    for c, tab in (('A', 'DAYNAMES'), ('a', 'DAYNAMES_ABV')):
        for i in range(7):
            wk('%%%s/%d' % (c, i), '%' + c + ' %V %G', "_td_utils.%s[%d] + f' {v:02d} {g:04d}'" % (tab, i), str(i + 1))


def US_():
    return S('of', 'int', 0, 999999)


def reject(ctx, w):
    site = w.where('StrpTime._find_regex')
    bad = lambda inst, fmt, text, exc=('ValueError',), where=None, **b: ctx.raises(
        'reject', inst, where or site, w, 'u = 0', ['u'], '%s(%s, %r)' % (SP, text, fmt), exc, **b)
    for c, rs in dict(m=[(20, 99)], d=[(0, 0), (20, 99)], H=[(24, 99)], I=[(0, 0), (13, 99)], M=[(60, 99)], S=[(62, 99)]).items():
        for lo, hi in rs:
            bad('%%%s/%d-%d' % (c, lo, hi), '%Y ' + '%' + c, "f'0181 {n:02d}'", n=N(lo, hi))
            bad('%%%s/%d-%d/inside' % (c, lo, hi), '%' + c + ' %Y', "f'{n:02d} 0181'", n=N(lo, hi))
    for lo, hi in ((0, 0), (367, 999)):
        bad('%%j/%d' % lo, '%Y %j', "f'0181 {n:03d}'", n=N(lo, hi))
    for c, ds in (('w', (7, 8, 9)), ('u', (0, 8, 9))):
        for d in ds:
            bad('%%%s/%d' % (c, d), '%G %V %' + c, "f'0181 {v:02d} %d'" % d, v=S('v', 'int', 1, 51))
    bad('%V/54', '%G %V %w', "f'0181 {n:02d} 1'", n=N(54, 99))
    bad('%V/0', '%G %V %w', "'0181 00 1'")
    for c in 'UW':
        bad('%%%s/53' % c, '%%Y %%%s %%w' % c, "f'0181 {n:02d} 1'", n=N(53, 99))
    y = dict(y=S('y', 'int', 0, 1161), m=E.M)
    t = "f'{y:04d}-{m:02d}'"
    for nm, fmt, text in (('left', '%Y-%m', t + " + 'x'"), ('left-digit', '%Y-%m', t + " + '0'"), ('left-space', '%Y-%m', t + " + ' '"), ('short', '%Y-%m-%d', t), ('before', '%Y-%m', "'x' + " + t), ('no-space', '%Y- %m', t), ('no-space-end', '%Y-%m ', t), ('space', '%Y-%m', t.replace('-', '- ')), ('space-before', '%Y-%m', "' ' + " + t),
                          ('literal', '%Y/%m', t), ('dot', '%Y.%m', t), ('star', '%Y-*%m', t), ('class', '%Y[-]%m', t), ('alt', '%Y-|%m', t), ('question', '%Y-?%m', t), ('plus', '%Y-+%m', t),
                          ('caret', '^%Y-%m', t), ('dollar', '%Y-%m$', t), ('group', '(%Y)-%m', t), ('brace', '%Y-{1}%m', t), ('backslash', '%Y\\-%m', t), ('name', '%Y-%B', t), ('empty-text', '%Y', "''"),
                          ('offset-sign', '%Y-%m%z', t + " + '0330'"), ('offset-minutes', '%Y-%m%z', t + " + '+0360'"), ('offset-short', '%Y-%m%z', t + " + '+03'"), ('offset-colon', '%Y-%m%z', t + " + '+03:3015'"),
                          ('z-case', '%Y-%m%z', t + " + 'z'"), ('fraction', '%Y-%m.%f', t + " + '.'"), ('fraction7', '%Y-%m.%f', t + " + '.1234567'")):
        bad('text/' + nm, fmt, text, **y)
    for f in ('%q', '%-d', '%:z', '%T', '%e', '%k', '%Y %', '%K'):
        bad('directive/' + f, f, "'0181'")
    for nm, fmt, text in (('G-alone', '%G', "'0181'"), ('G-V', '%G %V', "'0181 05'"), ('G-w', '%G %w', "'0181 5'"), ('V-alone', '%V', "'05'"), ('Y-V-w', '%Y %V %w', "'0181 05 5'"), ('G-j', '%G %j', "'0181 005'"),
                          ('V-w', '%V %w', "'05 5'")):
        bad('combination/' + nm, fmt, text, where=w.where('StrpTime._check_iso_week'))
    for nm, a in (('int-text', "181, '%Y'"), ('none', "None, '%Y'"), ('int-format', "'181', 181"), ('bytes', "b'181', '%Y'")):
        ctx.raises('reject', 'type/' + nm, w.where('StrpTime.__init__'), w, 'u = 0', ['u'], '%s(%s)' % (SP, a), ('TypeError',))


FORMATS = ['%Y-%m-%d', '%d-%m-%Y', '%Y %m %d', '%m/%d %Y', '%Y.%d.%m', '%Y,%m,%d', '%d %Y %m', '%Y_%m_%d']


def cache(ctx, w):
    site = w.where('StrpTime._find_regex')
    txt = lambda f: "f'" + f.replace('%Y', '{y:04d}').replace('%m', '{m:02d}').replace('%d', '{d:02d}') + "'"
    b = dict(y=S('y', 'int', 1, 1161), m=S('m', 'int', 1, 19), d=E.D)
    for k in range(1, len(FORMATS) + 1):
        pre = ['%s(%s, %r)' % (SP, txt(f), f) for f in FORMATS[:k]]
        pairs = []
        for i, f in enumerate(FORMATS[:k]):
            pre.append('r%d = %s(%s, %r)' % (i, SP, txt(f), f))
            pairs += [('%s/%s' % (f, a), 'r%d.%s' % (i, a), v) for a, v in (('year', 'y'), ('month', 'm'), ('day', 'd'))]
        ctx.equal('cache', 'formats/%d' % k, site, w, 'u = 0', ['u'], pairs, pre='\n'.join(pre), **b)
    # texts that several formats can read
    for i, (fa, fb) in enumerate(PAIRS):
        for x, z in ((fa, fb), (fb, fa)):
            ctx.equal('cache', 'pair/%s/%s' % (x, z), site, w, 'u = 0', ['u'], [(a, 'r.' + a, 'q.' + a) for a in FULL],
                      pre="t = f'{y:04d} {n:02d} {d:02d}'\nr0 = %s(t, %r)\nr = %s(t, %r)\nq = %s" % (SP, x, SP, z, 'datetime(y, %s)' % WANT[z]),
                      y=S('y', 'int', 1, 1161), n=S('n', 'int', 1, 19), d=E.D)


WANT = {'%Y %m %d': 'n, d', '%Y %M %d': '1, d, None, None, 0, n', '%Y %m %H': 'n, 1, None, None, d', '%Y %d %m': 'd, n', '%Y %H %m': 'd, 1, None, None, n', '%Y %H %M': '1, 1, None, None, n, d',
        '%Y %S %M': '1, 1, None, None, 0, d, n', '%Y %M %S': '1, 1, None, None, 0, n, d'}
PAIRS = [('%Y %m %d', '%Y %M %d'), ('%Y %m %d', '%Y %d %m'), ('%Y %m %H', '%Y %H %m'), ('%Y %M %S', '%Y %S %M'), ('%Y %H %M', '%Y %m %d')]
