"""C13: the location and clock that are given are the ones used."""
import math
from fractions import Fraction as F
from time import time as now
from .lib import *
from . import entry as E

BC = 'BahaiCalendar()'
LOC = dict(lat=S('lat', 'num', -66, 66), lon=S('lon', 'num', -180, 180), zone=S('zone', 'num', -12, 14))
DEF = '35.69435, 51.288701, 3.5'
# the public conversions: arguments before the location, after it
CONV = {
    'utc_sunset': ('(y, 5, d)', ''),
    'naw_ruz_g_date': ('y', ''), 'first_day_of_ridvan_g_date': ('y', ''),
    'jd_from_badi_date': ('(y, 5, d, h, mi)', ''),
    'badi_date_from_jd': ('j', ', short=True, trim=True'),
    'badi_date_from_gregorian_date': ('(1999, 4, 5)', ', short=True, trim=True'),
    'gregorian_date_from_badi_date': ('(y, 5, d)', ''),
    'badi_date_from_timestamp': ('t', ', short=True, trim=True'),
    'timestamp_from_badi_date': ('(y, 5, d, h)', ''),
}
VARIANTS = {'badi_date_from_jd': [', us=True', ', short=True, us=True', ', fraction=True', ', short=True, rtd=True'], 'naw_ruz_g_date': [', hms=True'],
            'first_day_of_ridvan_g_date': [', hms=True'], 'gregorian_date_from_badi_date': [', us=True', ', _exact=False'], 'badi_date_from_timestamp': [', us=True', '']}
BIND = dict(y=S('y', 'int', -1842, 1161), d=S('d', 'int', 1, 19), h=E.H23, mi=E.MI, j=S('j', 'num', 1049000, 2145000), t=S('t', 'num'))
SINKS = {'_sun_setting': (2, 3), '_sun_rising': (2, 3)}


def setting(jd, lat, lon):
    """a sunset between 14:00 and 22:00 local mean time, in the UT day of jd."""
    return math.floor(jd - F(1, 2)) + F(1, 2) + (F(3, 4) + F(lat) / 400 - F(lon) / 360) % 1


WITNESS = {'_sun_setting': setting, '_sun_rising': lambda jd, lat, lon: setting(jd, lat, lon) - F(1, 2), '_meeus_from_exact': lambda x: x,
           '_exact_from_meeus': lambda x: x, '_get_day_coeff': lambda *a: 0}


def arg(fn, a, kw, name, i):
    return kw[name] if name in kw else a[i] if len(a) > i else NONE


def world(ctx, mods=('datetime',), deep=True, **kw):
    w = ctx.world(mods=mods, **kw)

    def sun(name):
        def hook(I, fn, a, kw, h, fr):
            jd, lat, lon = (arg(fn, a, kw, n, i) for i, n in enumerate(('jd', 'lat', 'lon'), 1))
            h.st.events = h.st.events + (('sun', lat, lon, name, fr.loc(), h.st.pc, ()),)
            return T(name, jd, lat, lon, typ='num')
        return hook
    for n in SINKS:
        w.I.opaque[n] = sun(n)
    num = lambda nm: (lambda I, fn, a, kw, h, fr: T(nm, *[x for x in a if not isinstance(x, Ref)], typ='num'))
    for n in ('_meeus_from_exact', '_exact_from_meeus', '_get_day_coeff'):
        w.I.opaque[n] = num(n)
    w.I.opaque['_days_in_years'] = lambda I, fn, a, kw, h, fr: T('days_in_years', a[-1], typ='int')

    def year(I, fn, a, kw, h, fr):
        h.st.events = h.st.events + (('rd', a[-1], None, None, fr.loc(), h.st.pc, ()),)
        return S('jyear', 'int', -1842, 1161)
    w.I.opaque['_badi_year_from_rd'] = year
    w.I.opaque['long_date_from_short_date'] = lambda I, fn, a, kw, h, fr: Tup((S('lk', 'int', -5, 4), S('lv', 'int', 1, 19), S('ly', 'int', 1, 19)) + tuple(a[-1].items[1:])) if isinstance(a[-1], Tup) else I.top('long date')
    def hms(I, fn, a, kw, h, fr):
        fl = flags(sig(I, fn, a, kw, h, fr), h, 'us')
        return I.top('hms') if fl is None else Tup((S('jh', 'int', 0, 23), S('ji', 'int', 0, 59), S('js', 'int', 0, 59)) + ((S('ju', 'int', 0, 999999),) if fl[0] else ()))
    w.I.opaque['_hms_from_decimal_day'] = hms
    w.I.opaque['kvymdhms_from_b_date'] = bdate_tuple()
    if deep:
        w.I.opaque['gregorian_date_from_jd'] = opaque_call('greg')
        w.I.opaque['jd_from_gregorian_date'] = opaque_call('gjd', 'num')
    return w


def run(ctx):
    ctx.explanation = (
        'Each conversion is interpreted with a symbolic location. Every call of the sunset and every use of the '
        'longitude for the civil day is logged with its arguments and path condition and compared with the '
        'location given; missing or partial locations must give the term of the Tehran location. The classmethods '
        'and methods of date and datetime are interpreted with a symbolic local location and symbolic timezones.')
    ctx.assumptions = ['the sunset of a place is an opaque function of the Julian day, latitude and longitude']
    ctx.rule('given', 'every sunset is computed at the latitude and longitude that were given')
    ctx.rule('default', 'a missing or partial location stands for Tehran as a whole')
    ctx.rule('civil', 'the day is numbered by the civil day of the sunset at the longitude given')
    ctx.rule('zone', 'Gregorian results are in the civil time of the zone given, others do not depend on it')
    ctx.rule('epoch', 'timestamps and Julian days are converted with one epoch and 86400 seconds a day')
    ctx.rule('aware', 'dates and datetimes use the coordinates of their timezone, else the local ones')
    ctx.rule('config', 'set_local_coordinates changes the local location and timezone everywhere')
    w = world(ctx)
    conversions(ctx, w)
    objects(ctx)
    config(ctx)


def events(ctx, w, built, src, kind, **b):
    judge.Limit.until = w.I.until = now() + 100
    judge.Clock.end = ctx.t0 + 600
    outs = ctx.observe(w, built, 'return ' + src, None, **b)
    n0 = len(built[0].events)
    seen, res = set(), []
    for o in outs:
        for ev in o.st.events[n0:]:
            if ev[0] == kind:
                k = (rk(ev[1]), rk(ev[2]) if ev[2] is not None else '', str(ev[5]))
                if k not in seen:
                    seen.add(k)
                    res.append((ev, o))
    return outs, res


def sunsets(ctx, rule, inst, site, w, src, want, setup='u = 0', names=('u',), least=1, **b):
    """every sunset of `src` is at the place `want` = (lat, lon)."""
    built = ctx.build(w, setup, list(names), None, None, **b)
    if built is None:
        ctx.unk(rule, inst, site, 'entry not analysable')
        return
    try:
        outs, evs = events(ctx, w, built, src, 'sun', **b)
    except (Giveup, RecursionError):
        ctx.unk(rule, inst, site, 'analysis budget')
        return
    if not any(o.kind == 'return' for o in outs) or len(evs) < least:
        ctx.unk(rule, inst, site, 'no sunset found')
        return
    for ev, o in evs:
        for got, exp, nm in ((ev[1], want[0], 'latitude'), (ev[2], want[1], 'longitude')):
            if judge.prove_eq(got, exp, o.st.facts):
                continue
            r, u = judge.inhabitant(ev[5], lambda e: differ(e, got, exp), [got, exp], o.st.facts, None, ctx.seed)
            if r is None:
                if judge.prove_false(ev[5], built[0].facts):
                    continue
                ctx.unk(rule, inst, site, '%s %s not related to %s' % (nm, got, exp))
            else:
                ctx.bad(rule, inst, '%s <- %s' % (ev[4], site), 'the sunset is computed at %s %s, not %s' % (nm, got, exp), r)
            return
    ctx.ok(rule, inst, site)


def conversions(ctx, w):
    b = dict(BIND, **LOC)
    L = (LOC['lat'], LOC['lon'])
    DL = (C(35.69435), C(51.288701))
    for f, (a, tail) in CONV.items():
        site = w.where('BahaiCalendar.' + f)
        for tl in [tail] + VARIANTS.get(f, []):
            call = lambda loc: '%s.%s(%s%s%s)' % (BC, f, a, loc, tl)
            inst = f + tl
            ctx.defer(sunsets, ctx, 'given', inst, site, w, call(', lat, lon, zone'), L, **b)
            ctx.defer(sunsets, ctx, 'given', inst + '/keywords', site, w, call(', zone=zone, lon=lon, lat=lat'), L, **b)
            ctx.defer(sunsets, ctx, 'default', inst + '/none', site, w, call(''), DL, **b)
            for k, loc in (('no latitude', ', None, lon, zone'), ('no longitude', ', lat, None, zone'), ('no zone', ', lat, lon'), ('zone only', ', zone=zone'), ('latitude only', ', lat')):
                ctx.defer(sunsets, ctx, 'default', '%s/%s' % (inst, k), site, w, call(loc), DL, **b)
                ctx.equal('default', '%s/%s/value' % (inst, k), site, w, 'u = 0', ['u'], [('result', call(loc), call(', ' + DEF))], allow=('AssertionError', 'KeyError'), **b)
            ctx.equal('default', inst + '/none/value', site, w, 'u = 0', ['u'], [('result', call(''), call(', ' + DEF))], allow=('AssertionError', 'KeyError'), **b)
            # zero is a latitude, a longitude and a zone
            Z = dict(b, lat=C(0), lon=C(0), zone=C(0))
            ctx.defer(sunsets, ctx, 'given', inst + '/zero', site, w, call(', lat, lon, zone'), (C(0), C(0)), **Z)
    # the zone is civil time only
    for f in ('jd_from_badi_date', 'badi_date_from_jd', 'badi_date_from_timestamp', 'timestamp_from_badi_date'):
        a, tl = CONV[f]
        ctx.equal('zone', f + '/free', w.where('BahaiCalendar.' + f), w, 'u = 0', ['u'],
                  [('result', '%s.%s(%s, lat, lon, zone%s)' % (BC, f, a, tl), '%s.%s(%s, lat, lon, 7.25%s)' % (BC, f, a, tl))], allow=('AssertionError', 'KeyError'), **b)
    for f, a, d, kw in (('naw_ruz_g_date', 'y', '(y, 1, 1)', 'hms=False, exact=True'), ('first_day_of_ridvan_g_date', 'y', '(y, 2, 13)', 'hms=False, exact=True'),
                        ('gregorian_date_from_badi_date', '(y, 5, d, h)', '(y, 5, d, h)', 'hms=True, us=False, exact=True')):
        ctx.equal('zone', f + '/civil', w.where('BahaiCalendar.' + f), w, 'bc = BahaiCalendar()', ['bc'],
                  [('result', 'bc.%s(%s, lat, lon, zone)' % (f, a), 'bc._gc.gregorian_date_from_jd(bc.jd_from_badi_date(%s, lat, lon, zone) + zone / 24, %s)' % (d, kw))],
                  allow=('AssertionError', 'KeyError'), **b)
    w2 = world(ctx)
    w2.I.opaque['_hms_from_decimal_day'] = opaque_call('hms')
    ctx.equal('zone', 'utc_sunset', w.where('BahaiCalendar.utc_sunset'), w2, 'bc = BahaiCalendar()', ['bc'],
              [('result', 'bc.utc_sunset((y, 5, d), lat, lon, zone)', 'bc._hms_from_decimal_day(bc.jd_from_badi_date((y, 5, d), lat, lon, zone) + zone / 24 + 0.5)')], allow=('AssertionError', 'KeyError'), **b)
    # one epoch
    w3 = world(ctx)
    w3.I.opaque['badi_date_from_jd'] = opaque_call('bdate')
    w3.I.opaque['jd_from_badi_date'] = opaque_call('bjd', 'num')
    for tl, kw in (('', ''), (', us=True', ', us=True'), (', short=True, trim=True', ', short=True, trim=True'), (', rtd=True', ', rtd=True')):
        ctx.equal('epoch', 'badi_date_from_timestamp' + tl, w.where('BahaiCalendar.badi_date_from_timestamp'), w3, 'bc = BahaiCalendar()', ['bc'],
                  [('result', 'bc.badi_date_from_timestamp(t, lat, lon, zone%s)' % tl, 'bc.badi_date_from_jd(t / 86400 + 2440585.5, lat, lon, zone, us=%s, short=%s, trim=%s, rtd=%s)' % (
                      'us=' in tl, 'short' in tl, 'trim' in tl, 'rtd' in tl))], **b)
    ctx.equal('epoch', 'timestamp_from_badi_date', w.where('BahaiCalendar.timestamp_from_badi_date'), w3, 'bc = BahaiCalendar()', ['bc'],
              [('result', 'bc.timestamp_from_badi_date((y, 5, d, h), lat, lon, zone)', 'round((bc.jd_from_badi_date((y, 5, d, h), lat, lon, zone) - 2440585.5) * 86400, 12)')], **b)
    for tl in ('', ', us=True', ', short=True, trim=True', ', rtd=True', ', _exact=False'):
        ctx.equal('epoch', 'badi_date_from_gregorian_date' + tl, w.where('BahaiCalendar.badi_date_from_gregorian_date'), w3, 'bc = BahaiCalendar()', ['bc'],
                  [('result', 'bc.badi_date_from_gregorian_date((1999, 4, 5), lat, lon, zone%s)' % tl, 'bc.badi_date_from_jd(bc._gc.jd_from_gregorian_date((1999, 4, 5), exact=%s), lat, lon, zone, us=%s, short=%s, trim=%s, rtd=%s)' % (
                      '_exact' not in tl, 'us=' in tl, 'short' in tl, 'trim' in tl, 'rtd' in tl))], **b)
    for tl in ('', ', us=True, short=True', ', fraction=True', ', rtd=True'):
        ctx.defer(civil, ctx, w, 'badi_date_from_jd' + tl, '%s.badi_date_from_jd(j, lat, lon, zone%s)' % (BC, tl), b)


def civil(ctx, w, inst, src, b):
    """rd = floor(sunset + lon / 360 + 1/2) - 1721424 + 1 of the sunset that starts the day."""
    site = w.where('BahaiCalendar.badi_date_from_jd')
    built = ctx.build(w, 'u = 0', ['u'], None, None, **b)
    outs, evs = events(ctx, w, built, src, 'rd', **b)
    if not evs:
        ctx.unk('civil', inst, site, 'no day number found')
        return
    ref = 'import math\nbc = BahaiCalendar()\na = bc._utc_to_badi_time(j, lat, lon)[0]\nreturn math.floor(a + lon / 360 + 0.5) - 1721423'
    exp = [o for o in ctx.observe(w, built, ref, None, **b) if o.kind == 'return']
    if len(exp) != 1:
        ctx.unk('civil', inst, site, 'sunset that starts the day not found')
        return
    for ev, o in evs:
        if judge.prove_eq(ev[1], exp[0].val, o.st.facts):
            continue
        r, u = judge.inhabitant(ev[5], lambda e: differ(e, ev[1], exp[0].val), [ev[1], exp[0].val], o.st.facts, WITNESS, ctx.seed)
        if r is None:
            ctx.unk('civil', inst, site, 'day number not related: %s' % u)
        else:
            ctx.bad('civil', inst, '%s <- %s' % (ev[4], site), 'the day number is not that of the civil day at the given longitude', r)
        return
    ctx.ok('civil', inst, site)


# ------------------------------------------------------------- objects
def objects(ctx):
    w = world(ctx)
    loc = Tup((S('llat', 'num'), S('llon', 'num'), S('lzone', 'num')))
    w.st.heap[('mod', 'datetime')] = w.st.heap[('mod', 'datetime')].setattr('LOCAL_COORD', loc)
    w.I.opaque['_ymd2ord'] = lambda I, fn, a, kw, h, fr: T('ord', *a[-3:], typ='int')
    L = loc.items[:2]
    b = dict(BIND, **LOC)
    b.update(q=S('q', 'int', 1, 1439))
    TZC = 'TZWithCoords(lat, lon, zone, key="A/B")'
    site = lambda q: w.where(q)
    for sh in ('True', 'False'):
        for src, q in (('date.fromtimestamp(t, short=%s)', 'date.fromtimestamp'), ('date.today(short=%s)', 'date.today'), ('datetime.fromtimestamp(t, short=%s)', 'datetime.fromtimestamp'),
                       ('datetime.now(short=%s)', 'datetime.now'), ('datetime.fromtimestamp(t, timezone(timedelta(minutes=q)), short=%s)', 'datetime.fromtimestamp'),
                       ('datetime.now(timezone(timedelta(minutes=q)), short=%s)', 'datetime.now')):
            ctx.defer(sunsets, ctx, 'aware', '%s/local' % (src % sh), site(q), w, src % sh, L, **b)
        for src, q in (('datetime.fromtimestamp(t, %s, short=%s)', 'datetime.fromtimestamp'), ('datetime.now(%s, short=%s)', 'datetime.now'), ('datetime.fromtimestamp(tz=%s, t=t, short=%s)', 'datetime.fromtimestamp')):
            zb = dict(b, zone=S('zone', 'int', -12, 12))
            ctx.defer(sunsets, ctx, 'aware', '%s/coordinates' % (src % ('TZWithCoords', sh)), site(q), w, src % (TZC, sh), (LOC['lat'], LOC['lon']), **zb)
            ctx.defer(sunsets, ctx, 'aware', '%s/coordinates without zone' % (src % ('TZWithCoords', sh)), site(q), w, src % ('TZWithCoords(lat, lon)', sh), (LOC['lat'], LOC['lon']), **zb)
            ctx.defer(sunsets, ctx, 'aware', '%s/UTC' % (src % ('UTC', sh)), site(q), w, src % ('UTC', sh), (C(51.477928), C(-0.001545)), **b)
            ctx.defer(sunsets, ctx, 'aware', '%s/BADI' % (src % ('BADI', sh)), site(q), w, src % ('BADI', sh), (C(35.69435), C(51.288701)), **b)
    for form, setup in (('short', 'x = datetime(y, 5, d, None, None, h, mi)'), ('long', 'x = datetime(k, v, yy, 5, d, h, mi)')):
        fb = dict(b, k=E.K, v=E.V_, yy=E.YY)
        ctx.defer(sunsets, ctx, 'aware', 'naive timestamp/%s' % form, site('datetime.timestamp'), w, 'x.timestamp()', L, setup, ('x',), **fb)
    # the values follow from the same conversion
    w2 = world(ctx)
    w2.st.heap[('mod', 'datetime')] = w2.st.heap[('mod', 'datetime')].setattr('LOCAL_COORD', loc)

    shape = bdate_tuple('t')

    def bts(I, fn, a, kw, h, fr):
        env = sig(I, fn, a, kw, h, fr)
        h.st.events = h.st.events + (('ts', env.get('t', NONE), None, None, fr.loc(), h.st.pc, ()),)
        return shape(I, fn, a, kw, h, fr)
    w2.I.opaque['badi_date_from_timestamp'] = bts
    tb = dict(b, ty=S('ty', 'int', -1842, 1161), tk=S('tk', 'int', -4, 3), tv=S('tv', 'int', 1, 19), tz=S('tz', 'int', 1, 19), tm=S('tm', 'int', 1, 19), td=S('td', 'int', 1, 19), th=S('th', 'int', 0, 23),
              tmi=S('tmi', 'int', 0, 59), ts=S('ts', 'int', 0, 59), tus=S('tus', 'int', 0, 999999))
    for sh, dt in (('True', 'ty, tm, td'), ('False', 'tk, tv, tz, tm, td')):
        for z in ('None', 'UTC', 'BADI', 'timezone(timedelta(minutes=q))'):
            ctx.equal('aware', 'fromtimestamp/%s/%s' % (z, sh), site('datetime.fromtimestamp'), w2, 'z = %s\nx = datetime.fromtimestamp(t, z, short=%s)' % (z, sh), ['x', 'z'],
                      [('date', 'x.b_date', '(%s)' % dt), ('time', 'x.b_time', '(th, tmi, ts, tus)'), ('zone', 'x.tzinfo is z', 'True'), ('form', 'x.is_short', sh), ('fold', 'x.fold', '0')], **tb)
        ctx.equal('aware', 'date.fromtimestamp/%s' % sh, site('date.fromtimestamp'), w2, 'x = date.fromtimestamp(t, short=%s)' % sh, ['x'], [('date', 'x.b_date', '(%s)' % dt), ('form', 'x.is_short', sh)], **tb)
    for call, q, want in (('datetime.fromtimestamp(t)', 'datetime.fromtimestamp', 't'), ('datetime.fromtimestamp(t, UTC)', 'datetime.fromtimestamp', 't'), ('date.fromtimestamp(t)', 'date.fromtimestamp', 't')):
        ctx.defer(moment, ctx, w2, call, site(q), call, b)


def moment(ctx, w, inst, site, src, b):
    """the timestamp handed to the conversion is the one given."""
    built = ctx.build(w, 'u = 0', ['u'], None, None, **b)
    outs, evs = events(ctx, w, built, src, 'ts', **b)
    if not evs:
        ctx.unk('aware', inst + '/moment', site, 'no conversion found')
    for ev, o in evs:
        if not judge.prove_eq(ev[1], b['t'], o.st.facts):
            r, u = judge.inhabitant(ev[5], lambda e: differ(e, ev[1], b['t']), [ev[1], b['t']], o.st.facts, None, ctx.seed)
            (ctx.unk('aware', inst + '/moment', site, 'not related') if r is None else ctx.bad('aware', inst + '/moment', '%s <- %s' % (ev[4], site), 'another moment is converted', r))
            return
    ctx.ok('aware', inst + '/moment', site)


# ------------------------------------------------------------- set_local_coordinates
def config(ctx):
    off = S('off', 'int', -86399, 86399)
    tab = lambda *a: T('years', typ='dict')
    w = ctx.world(mods=('__init__',), prep=None, opaque={'_build_badi_year_start': tab, '_local_timezone_info': lambda *a: Tup((off, S('dst', 'bool'), C('A/B')))})
    site = w.where('__init__.set_local_coordinates')
    b = dict(lat=S('flat', 'num'), lon=S('flon', 'num'), ilat=S('ilat', 'int', -90, 90), ilon=S('ilon', 'int', -180, 180), off=off)
    pre = 'import badidatetime.datetime as m\nset_local_coordinates(%s)'
    for nm, a, exp in (('given', 'lat, lon', '(lat, lon, off / 3600)'), ('keywords', 'lon=lon, lat=lat', '(lat, lon, off / 3600)'), ('none', '', '(35.69435, 51.288701, 3.5)'),
                       ('whole', 'ilat, ilon', '(ilat, ilon, off / 3600)'), ('mixed', 'ilat, lon', '(ilat, lon, off / 3600)'),
                       ('twice', 'lat, lon)\nset_local_coordinates(', '(35.69435, 51.288701, 3.5)'), ('again', ')\nset_local_coordinates(lat, lon', '(lat, lon, off / 3600)')):
        ctx.equal('config', nm, site, w, 'u = 0', ['u'], [
            ('coordinates', 'm.LOCAL_COORD', exp), ('package copy', 'LOCAL_COORD', 'm.LOCAL_COORD'), ('package zone', 'LOCAL is m.LOCAL', 'True'),
            ('offset', 'm.LOCAL.utcoffset(None)', 'm.timedelta(hours=m.LOCAL_COORD[2])'), ('attribute', 'm.timezone.local is m.LOCAL', 'True')],
            pre=pre % a, module='__init__', **b)
