"""C07: timezone arithmetic keeps the instant and the sign of the offset."""
from .lib import *
from . import entry as E
from .c02 import tz_model
from .c06 import ordmodel

MIN = 60000000
TOT = 'timedelta({0}.toordinal(), {0}.hour*3600 + {0}.minute*60 + {0}.second, {0}.microsecond)'
DTS = {'short': 'y, m, d, None, None', 'long': 'k, v, yy, m, d'}


def run(ctx):
    ctx.explanation = (
        'astimezone, utctimetuple, timestamp, utcoffset, badioffset, tzname and the offset texts are '
        'interpreted on symbolic date-times carrying timezones of symbolic offset; instants are compared as '
        'terms (local time minus offset), texts cell by cell against the sign and digits of the offset.')
    ctx.assumptions = ['toordinal and fromordinal are inverse on day numbers 78..1097267',
                       'for texts, offsets of whole minutes and, separately, of whole seconds and microseconds']
    ctx.rule('instant', 'a conversion between timezones keeps the instant and takes the target timezone')
    ctx.rule('utc', 'utctimetuple is the local time minus the offset')
    ctx.rule('stamp', 'timestamps of aware date-times differ by the duration between them')
    ctx.rule('offset', 'offset, name and dst of a value are those of its timezone')
    ctx.rule('text', 'the offset is written with its own sign, hours and minutes')
    w = ctx.world()
    ordmodel(w)
    B = {**E.DATE['short'][1], **E.DATE['long'][1]}
    T1 = E.TIME[1]
    p1, p2 = S('p1', 'int', -86399999999, 86399999999), S('p2', 'int', -86399999999, 86399999999)
    z = dict(p1=TD(p1), p2=TD(p2), fo=E.FO, **B, **T1)
    site = w.where('datetime.astimezone')
    for form, cons in DTS.items():
        mk = ("z1 = timezone(p1, 'A')\nz2 = timezone(p2, 'B')\na = datetime(%s, h, mi, se, us, z1, fold=fo)" % cons)
        nm = ['z1', 'z2', 'a']
        ctx.equal('instant', form + '/astimezone', site, w, mk, nm,
                  [('instant', TOT.format('x') + ' - p2', TOT.format('a') + ' - p1'),
                   ('tzinfo', 'x.tzinfo is z2', 'True'), ('form', 'x.is_short', 'a.is_short'),
                   ('type', 'type(x) is datetime', 'True')], pre='x = a.astimezone(z2)', allow=('OverflowError',), **z)
        ctx.equal('instant', form + '/astimezone-same', site, w, mk, nm, [('same', 'a.astimezone(z1) is a', 'True')],
                  allow=('OverflowError',), **z)
        ctx.equal('instant', form + '/fromutc', w.where('timezone.fromutc'), w, mk, nm,
                  [('later', TOT.format('x'), TOT.format('a') + ' + p1'), ('tzinfo', 'x.tzinfo is z1', 'True')],
                  pre='x = z1.fromutc(a)', allow=('OverflowError',), **z)
        ctx.raises('instant', form + '/fromutc-other', w.where('timezone.fromutc'), w, mk, nm, 'z2.fromutc(a)', ('ValueError',), **z)
        ctx.raises('instant', form + '/astimezone-type', site, w, mk, nm, 'a.astimezone(5)', ('TypeError',), **z)
        # ---- utctimetuple
        us = w.where('datetime.utctimetuple')
        F = ['tm_hour', 'tm_min', 'tm_sec', 'tm_year', 'tm_mon', 'tm_mday', 'tm_wday', 'tm_yday'] + ['tm_kull_i_shay', 'tm_vahid'] * (form == 'long')
        ctx.equal('utc', form + '/aware', us, w, mk, nm,
                  [(f, 't.' + f, 'u.' + f) for f in F] + [('isdst', 't.tm_isdst', '0'), ('short', 't.short', str(form == 'short'))],
                  pre='if not p1:\n    raise OverflowError\nt = a.utctimetuple()\nu = (a.replace(tzinfo=None) - p1).timetuple()', allow=('OverflowError',), **z)
        ctx.equal('utc', form + '/zero', us, w, 'a = datetime(%s, h, mi, se, us, UTC)' % cons, ['a'],
                  [(f, 't.' + f, 'u.' + f) for f in F] + [('isdst', 't.tm_isdst', '0')],
                  pre='t = a.utctimetuple()\nu = a.replace(tzinfo=None).timetuple()', **z)
        ctx.equal('utc', form + '/naive', us, w, 'a = datetime(%s, h, mi, se, us)' % cons, ['a'],
                  [(f, 't.' + f, 'u.' + f) for f in F] + [('isdst', 't.tm_isdst', '0')],
                  pre='t = a.utctimetuple()\nu = a.timetuple()', **z)
        # ---- timestamps
        b = S('n', 'int', -10**9, 10**9)
        mk2 = mk + "\nb = datetime(%s, h2, mi2, se2, us2, z2)" % ', '.join(
            (n + '2' if n != 'None' else n) for n in cons.split(', '))
        from .c02 import sym2
        ctx.equal('stamp', form, w.where('datetime.timestamp'), w, mk2, nm + ['b'],
                  [('difference', 'a.timestamp() - b.timestamp()', '(a - b).total_seconds()')], **z, **sym2(B), **sym2(T1))
        # ---- delegation
        mk = "z1 = timezone(p1, 'A')\na = datetime(%s, h, mi, se, us, z1, fold=fo)\nn = datetime(%s, h, mi, se, us)" % (cons, cons)
        ctx.equal('offset', 'datetime/' + form, w.where('datetime.utcoffset'), w, mk, ['z1', 'a', 'n'],
                  [('utcoffset', 'a.utcoffset()', 'p1'), ('tzname', 'a.tzname()', "'A'"),
                   ('naive', '(n.utcoffset(), n.tzname(), n.dst())', '(None, None, None)')], **z)
    mk = "z1 = timezone(p1, 'A')\na = time(h, mi, se, us, z1, fold=fo)\nn = time(h, mi, se, us)"
    ctx.equal('offset', 'time', w.where('time.utcoffset'), w, mk, ['z1', 'a', 'n'],
              [('utcoffset', 'a.utcoffset()', 'p1'), ('tzname', 'a.tzname()', "'A'"), ('badi', 'a.badioffset()', 'p1 - timedelta(hours=3.5)'),
               ('naive', '(n.utcoffset(), n.tzname(), n.dst(), n.badioffset())', '(None, None, None, None)')], **z)
    lat, lon = S('lat', 'num'), S('lon', 'num')
    zh = S('zm', 'int', -1439, 1439)
    mk = "c = TZWithCoords(lat, lon, zm / 60, key='X/Y')"
    ctx.equal('offset', 'coordinates', w.where('TZWithCoords.__new__'), w, mk, ['c'],
              [('utcoffset', 'c.utcoffset(None)', 'timedelta(minutes=zm)'), ('lat', 'c.coordinates[0]', 'lat'),
               ('lon', 'c.coordinates[1]', 'lon'), ('zone', 'c.coordinates[2]', 'zm / 60'), ('key', 'c.key', "'X/Y'"),
               ('name', 'c.tzname(None)', "'X/Y'"), ('dst', 'c.dst(None)', 'timedelta(0)'), ('attrs', '(c.lat, c.lon, c.zone)', '(lat, lon, zm / 60)')],
              lat=lat, lon=lon, zm=zh)
    # ---- what an aware value says of a faulty timezone
    for nm, val, exc in (('large', 'timedelta(hours=25)', 'ValueError'), ('day', 'timedelta(hours=24)', 'ValueError'),
                         ('negday', 'timedelta(hours=-24)', 'ValueError'), ('type', '5', 'TypeError')):
        q = {'large': TD(mknum(Fraction(90000000000))), 'day': TD(mknum(Fraction(86400000000))),
             'negday': TD(mknum(Fraction(-86400000000))), 'type': C(5)}[nm]
        tz_model(w, 'bad' + nm, q)
        for cls, a in (('datetime', 'y, m, d, None, None, h, mi, se, us, q'), ('time', 'h, mi, se, us, q')):
            ctx.raises('offset', 'faulty/%s/%s' % (cls, nm), w.where(cls + '.utcoffset'), w, 'a = %s(%s)' % (cls, a), ['a'],
                       'a.utcoffset()', (exc,), q=S('bad' + nm, 'tz'), **B, **T1)
    # ---- texts
    texts(ctx, w, T1, B)


def texts(ctx, w, T1, B):
    hh, mm, ss, uu = S('oh', 'int', 0, 23), S('om', 'int', 0, 59), S('os', 'int', 0, 59), S('ou', 'int', 0, 999999)
    dur = lambda sg, s, u: TD(add(add(scale(hh, sg * 3600000000), scale(mm, sg * MIN)),
                                  add(scale(s, sg * 1000000), scale(u, sg))))
    Z = C(0)
    pos = lambda n, hi: S(n, 'int', 1, hi)
    kinds = [('plus', '+', dur(1, Z, Z), ''), ('minus', '-', dur(-1, Z, Z), ''),
             ('plus-s', '+', dur(1, pos('os', 59), Z), ':{os:02d}'), ('minus-s', '-', dur(-1, pos('os', 59), Z), ':{os:02d}'),
             ('plus-us', '+', dur(1, ss, pos('ou', 999999)), ':{os:02d}.{ou:06d}'),
             ('minus-us', '-', dur(-1, ss, pos('ou', 999999)), ':{os:02d}.{ou:06d}')]
    for nm, sg, off, tail in kinds:
        os_ = pos('os', 59) if nm.endswith('-s') else ss
        ou_ = pos('ou', 999999) if nm.endswith('us') else uu
        b = dict(p=off, oh=hh, om=mm, os=os_, ou=ou_, **B, **T1)
        pre = 'if not oh and not om:\n    return ()\n' if nm in ('plus', 'minus') else ''
        want = "f'%s{oh:02d}:{om:02d}%s'" % (sg, tail)
        mk = (("if not oh and not om:\n    raise ValueError\n" if not tail else '') +
              "z1 = timezone(p)\na = datetime(y, m, d, None, None, h, mi, se, us, z1)\nb = datetime(k, v, yy, m, d, h, mi, se, us, z1)\n"
              "t = time(h, mi, se, us, z1)")
        ctx.equal('text', 'offset/' + nm, w.where('timezone.tzname'), w, mk, ['z1', 'a', 'b', 't'],
                  [('tzname', 'z1.tzname(None)', "'UTC' + " + want), ('str', 'str(z1)', "'UTC' + " + want),
                   ('datetime', 'a.tzname()', "'UTC' + " + want), ('time', 't.tzname()', "'UTC' + " + want)], **b)
        n = "a.replace(tzinfo=None).isoformat() + " + want
        ctx.equal('text', 'isoformat/' + nm, w.where('datetime.isoformat'), w, mk, ['z1', 'a', 'b', 't'],
                  [('datetime', 'a.isoformat()', n), ('time', 't.isoformat()', 't.replace(tzinfo=None).isoformat() + ' + want),
                   ('long', 'b.isoformat()', 'b.replace(tzinfo=None).isoformat() + ' + want),
                   ('str-long', 'str(b)', 'str(b.replace(tzinfo=None)) + ' + want),
                   ('str', 'str(a)', n)], **b)
        if not tail:
            for c in ('%z', '%:z'):
                d = ':' if ':' in c else ''
                zs = w.where('TimeDateUtils.z')
                for o in 'ab':
                    T_ = o + '.strftime(%r)' % c
                    ctx.equal('text', 'strftime%s/%s/%s' % (c, nm, o), zs, w, mk, ['z1', 'a', 'b', 't'],
                              [('sign', T_ + '[0]', repr(sg)), ('hours', T_ + '[1:3]', "f'{oh:02d}'")], **b)
                    ctx.equal('text', 'strftime%s/%s-hours/%s' % (c, nm, o), zs, w, mk, ['z1', 'a', 'b', 't'],
                              [('text', T_, "f'%s{oh:02d}%s00'" % (sg, d))],
                              **dict(b, p=TD(scale(S('oh', 'int', 1, 23), 3600000000 if sg == '+' else -3600000000)), oh=S('oh', 'int', 1, 23)))
    mk = "a = datetime(y, m, d, None, None, h, mi, se, us, UTC)"
    ctx.equal('text', 'zero', w.where('timezone.tzname'), w, mk, ['a'],
              [('iso', 'a.isoformat()', "a.replace(tzinfo=None).isoformat() + '+00:00'"),
               ('%z', "a.strftime('%z')", "'+0000'"), ('%:z', "a.strftime('%:z')", "'+00:00'"),
               ('naive', "a.replace(tzinfo=None).strftime('%z')", "''")], **B, **T1)
