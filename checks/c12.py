"""C12: values never change, shared tables never change, the parser's cache is locked."""
from time import time as now
from .lib import *
from . import entry as E
from . import strp
from .c02 import tz_model
from .c06 import ordmodel
from .c11 import FORMATS, SP

DURATION = S('p', 'int', -10 ** 17, 10 ** 17)
CMP = ['x == y', 'x != y', 'x < y', 'x <= y', 'x > y', 'x >= y', 'hash(x)', 'hash(y)', 'x in (y,)', 'x == 1']
DATE_OPS = CMP + [
    'x + p', 'p + x', 'x - p', 'x - y', 'x.toordinal()', 'x.weekday()', 'x.isoweekday()', 'x.isocalendar()', 'x.isoformat()', 'str(x)', 'repr(x)',
    'x.ctime()', 'x.timetuple()', 'x.replace()', 'x.replace(day=nd)', 'x.replace(month=nm, day=nd)', 'x.__reduce__()', 'x.b_date', 'x.is_short',
    "x.strftime('%d.%m.%Y %j %A %B')", "x.strftime('%x')", "x.strftime('%c')", "x.strftime('%%-d%n')", "format(x, '%m %d')", "format(x, '')",
]
DT_OPS = DATE_OPS + [
    'x.date()', 'x.time()', 'x.timetz()', 'datetime.combine(x, x.timetz())', 'datetime.combine(x.date(), y.time(), None)', 'x.replace(hour=nh, fold=1)', 'x.replace(tzinfo=None)',
    'x.utcoffset()', 'x.tzname()', 'x.dst()', 'x.utctimetuple()', 'x.timestamp()', "x.isoformat(' ', 'milliseconds')", 'x.__reduce_ex__(4)', "x.strftime('%H:%M:%S.%f %z %T')",
    "x.strftime('%X')", "x.strftime('%r %I %l %p')", 'x.astimezone(UTC)', 'x.b_time',
]
TIME_OPS = CMP + [
    'x.isoformat()', 'str(x)', 'repr(x)', 'x.replace()', 'x.replace(hour=nh)', 'x.replace(tzinfo=None, fold=1)', 'x.utcoffset()', 'x.tzname()', 'x.dst()', 'x.badioffset()', 'x.__reduce__()',
    'x.__reduce_ex__(4)', "x.strftime('%H:%M:%S.%f')", "x.strftime('%X %z')", "format(x, '%T')", "format(x, '')", "x.isoformat('minutes')",
]
TZ_OPS = ['x == y', 'x != y', 'hash(x)', 'repr(x)', 'str(x)', 'x.utcoffset(None)', 'x.badioffset(None)', 'x.tzname(None)', 'x.dst(None)', 'x.fromutc(a)', 'a.astimezone(x)', 'x.utcoffset(a)',
          'a.replace(tzinfo=y)', 'a.utcoffset()', 'a.isoformat()', 'a == b', 'a - b', 'hash(a)', 'x.__getinitargs__()']
# constructors and parsers: nothing to keep but the tables
MAKE = [
    'date(y, m, d)', 'datetime(y, m, d, None, None, h, mi, se, us, tz)', 'time(h, mi, se, us, tz)', 'date.fromordinal(n)', 'date.fromordinal(n, short=False)', "date.fromisoformat('0181-03-02')",
    "date.fromisoformat('0181-W05-3')", "date.fromisoformat('0181-100', short=False)", "datetime.fromisoformat(f'0181-03-02T{h:02d}:{mi:02d}:{se:02d}.{us:06d}+03:30')",
    "datetime.fromisoformat('0181-03-02 10:20Z')", "time.fromisoformat(f'T{h:02d}:{mi:02d}')", 'date.fromisocalendar(181, 5, 3)', 'date.fromtimestamp(t)', 'date.fromtimestamp(t, short=False)',
    'datetime.fromtimestamp(t)', 'datetime.fromtimestamp(t, UTC)', 'datetime.fromtimestamp(t, BADI, short=False)', 'date.today()', 'datetime.now()', 'datetime.now(UTC)', 'timezone(timedelta(minutes=q))',
    "timezone(timedelta(minutes=q), 'X')", "TZWithCoords(1.5, 2.5, 3.5, key='X')", 'BahaiCalendar().jd_from_badi_date((y, m, d))', 'BahaiCalendar().timestamp_from_badi_date((y, m, d))',
    'BahaiCalendar().naw_ruz_g_date(y)', 'BahaiCalendar().first_day_of_ridvan_g_date(y)',
    'BahaiCalendar().long_date_from_short_date((y, m, d, h, mi))', 'BahaiCalendar().short_date_from_long_date((1, 1, 1, m, d, h, mi))', 'BahaiCalendar()._gc.jd_from_gregorian_date((g, m0, d0), exact=True)',
    'BahaiCalendar()._gc.jd_from_gregorian_date((g, m0, d0))', 'BahaiCalendar()._gc.jd_from_gregorian_date((g, 2, 29), exact=True)', 'BahaiCalendar()._gc.gregorian_date_from_jd(j)',
    'BahaiCalendar()._gc.gregorian_date_from_jd(2424242.5, exact=True)', 'BahaiCalendar()._gc.gregorian_date_from_jd(2424242.5, hms=True, us=True)', 'BahaiCalendar()._gc.posix_timestamp(1700000000.5, us=True)',
    'BahaiCalendar()._gc.ymdhms_from_date((g, m0, d0))', 'BahaiCalendar()._gc.date_from_ymdhms((g, m0, d0))',
]


def run(ctx):
    ctx.explanation = (
        'Every public operation is interpreted on symbolic objects. The public observations of the operands before and '
        'after it are compared as terms; the writes it makes to objects that existed before it (modules, classes, '
        'tables, shared instances) are collected with their path conditions and the locks held, and so are the '
        'reads of every place that is written under a lock.')
    ctx.assumptions = ['the sunset is an opaque function', 'day numbers are an arbitrary bijection', 'one bytecode-atomic store into an initially empty private dictionary (a memo) is not judged']
    ctx.rule('frozen', 'an operation leaves its operands as they were')
    ctx.rule('tables', 'an operation leaves shared modules, classes, tables and instances as they were, but for state kept under a lock')
    ctx.rule('lock', 'shared state that changes is read and changed only under one lock, which is free again afterwards')
    w = strp.world(ctx)
    ordmodel(w)
    tz_model(w, 'tz', TD(scale(S('o1', 'int', -1439, 1439), 60000000)))
    tz_model(w, 'tz2', TD(scale(S('o2', 'int', -1439, 1439), 60000000)))
    sunset(w)
    w.st.heap[('mod', 'datetime')] = w.st.heap[('mod', 'datetime')].setattr('LOCAL_COORD', Tup((S('lat'), S('lon'), S('zone'))))
    values(ctx, w)
    makers(ctx, w)
    locks(ctx)


def sunset(w):
    num = lambda nm: (lambda I, fn, a, kw, h, fr: T(nm, *[x for x in a if not isinstance(x, Ref)], typ='num'))
    w.I.opaque['_days_in_years'] = lambda I, fn, a, kw, h, fr: T('days_in_years', a[-1], typ='int')
    for nm in ('_get_day_coeff', '_sun_setting', '_sun_rising', '_meeus_from_exact', '_exact_from_meeus'):
        w.I.opaque[nm] = num(nm)
    w.I.opaque['midday'] = num('midday')
    w.I.opaque['badi_date_from_jd'] = bdate_tuple()


NEW = dict(nd=S('nd', 'int', 1, 19), nm=S('nm', 'int', 1, 19), nh=S('nh', 'int', 0, 23))


def values(ctx, w):
    p = {'p': TD(DURATION)}
    T1 = dict(E.TIME[1], h=E.H23, fo=E.FO, tz=E.TZ)
    obs = lambda v, attrs, calls=('hash(%s)', 'str(%s)'): ['%s.%s' % (v, a) for a in attrs] + [c % v for c in calls]
    for form, (args, b) in E.DATE.items():
        if form == 'short':
            args, b = 'y0, m, d', dict(b, y0=b['y'])
            del b['y']
        b = dict(b, m=S('m', 'int', 1, 19), y2=S('y2', 'int', -1842, 1161), m2=S('m2', 'int', 1, 19), d2=S('d2', 'int', 1, 19), **p, **NEW)
        sweep(ctx, w, 'date/' + form, 'x = date(%s)\ny = date(y2, m2, d2)' % args, ['x', 'y'],
              obs('x', E.obs_attrs('date', form)) + obs('y', E.obs_attrs('date')), DATE_OPS, b)
        for z, zn in (('None', 'naive'), ('tz', 'aware')):
            sweep(ctx, w, 'datetime/%s/%s' % (form, zn),
                  'x = datetime(%s, h, mi, se, us, %s, fold=fo)\ny = datetime(y2, m2, d2, None, None, h2, 5, 6, 7, %s)' % (args + (', None, None' if form == 'short' else ''), z, z), ['x', 'y'],
                  obs('x', E.obs_attrs('datetime', form)) + obs('y', E.obs_attrs('datetime'), ('hash(%s)',)), DT_OPS, dict(b, h2=S('h2', 'int', 0, 23), **T1))
    for z, zn in (('None', 'naive'), ('tz', 'aware')):
        sweep(ctx, w, 'time/' + zn, 'x = time(h, mi, se, us, %s, fold=fo)\ny = time(h2, 5, 6, 7, %s)' % (z, z), ['x', 'y'],
              obs('x', E.obs_attrs('time'), ('str(%s)',)) + obs('y', E.obs_attrs('time'), ('str(%s)',)), TIME_OPS, dict(T1, h2=S('h2', 'int', 0, 23), **NEW))
    q = dict(q1=S('q1', 'int', -1439, 1439), q2=S('q2', 'int', -1439, 1439), h=E.H23)
    zo = lambda v: ['%s.%s(None)' % (v, f) for f in ('utcoffset', 'tzname', 'dst', 'badioffset')] + ['hash(%s)' % v]
    for nm, mk in (('timezone', "timezone(timedelta(minutes=%s), 'A')"), ('TZWithCoords', "TZWithCoords(1.5, 2.5, %s / 60, key='A/B')")):
        sweep(ctx, w, nm, 'x = %s\ny = %s\na = datetime(181, 3, 2, None, None, h, tzinfo=x)\nb = datetime(181, 3, 3, None, None, h, tzinfo=y)' % (mk % 'q1', mk % 'q2'), ['x', 'y', 'a', 'b'],
              zo('x') + zo('y') + ['a.tzinfo', 'b.tzinfo', 'a.hour', 'b.hour', 'hash(a)'] + (['x.key', 'x.coordinates', 'x.lat', 'x.lon', 'x.zone'] if nm != 'timezone' else []), TZ_OPS, q)


ARGS = {
    'b = [y, 5, d, h, mi]': ['BahaiCalendar().jd_from_badi_date(b)', 'BahaiCalendar().long_date_from_short_date(b)', 'BahaiCalendar().timestamp_from_badi_date(b)', 'BahaiCalendar().posix_timestamp(5.5)'],
    'b = [y, m, d, h, mi]': ['BahaiCalendar().long_date_from_short_date(b, trim=True)'],
    'b = [1, v, yy, m, d, h, mi, se]': ['BahaiCalendar().short_date_from_long_date(b)', 'BahaiCalendar().short_date_from_long_date(b, trim=True)', 'BahaiCalendar().kvymdhms_from_b_date(b)',
                                       'BahaiCalendar().kvymdhms_from_b_date(b, us=True)'],
    'b = [1, v, yy, m, d, 0.5]': ['BahaiCalendar().kvymdhms_from_b_date(b)', 'BahaiCalendar().date_from_kvymdhms(b)'],
    'b = [g, m0, d0, h, mi, se]': ['BahaiCalendar()._gc.jd_from_gregorian_date(b)', 'BahaiCalendar()._gc.jd_from_gregorian_date(b, exact=True)', 'BahaiCalendar()._gc.ymdhms_from_date(b)',
                                  'BahaiCalendar()._gc.date_from_ymdhms(b)'],
}


def zones(ctx, w, b):
    """a timezone made from one zoneinfo is not touched by making another."""
    for z in ('zi', 'zj'):
        w.I.sym_methods[z] = {'key': C('Asia/Tehran' if z == 'zi' else 'Europe/Paris'), '*classes': ('tzinfo', 'ZoneInfo', 'object'), 'dst': lambda I, o, a, kw, h, fr, z=z: TD(S('dst_' + z, 'int', 0, 3600000000))}
    b = dict(b, zi=S('zi', 'obj'), zj=S('zj', 'obj'))
    site = w.where('TZWithCoords.fromzoneinfo')
    setup = "x = TZWithCoords.fromzoneinfo(zi, 1.5, 2.5, 3.5)\nz = TZWithCoords(4.5, 5.5, 1.0, key='Z')"
    for op in ('TZWithCoords.fromzoneinfo(zj, 4.5, 5.5, 1.0)', 'TZWithCoords(4.5, 5.5, 1.0)', 'str(x)', 'x.__reduce__()', 'hash(x)'):
        ctx.defer(keeps, ctx, 'frozen', 'zoneinfo/' + op, site, w, setup, ['x', 'z'], '(x.dst(None), x.utcoffset(None), x.key, x.coordinates, str(x), z.dst(None), z.key, str(z))', op, b)
        ctx.defer(writes, ctx, 'tables', 'zoneinfo/' + op, site, w, setup, ['x', 'z'], op, b)


def sweep(ctx, w, name, setup, names, obs, ops, b):
    tup = '(%s,)' % ', '.join(obs)
    for op in ops:
        site = (w.where('.'.join(name.split('/')[0:1] + [op.split('(')[0].split('.')[-1]])) if op.startswith('x.') else None) or w.where(name.split('/')[0])
        inst = '%s/%s' % (name, op)
        if not (op.startswith('hash(') or op.startswith('str(')):
            ctx.defer(keeps, ctx, 'frozen', inst, site, w, setup, names, tup, op, b)
        ctx.defer(writes, ctx, 'tables', inst, site, w, setup, names, op, b)


def keeps(ctx, rule, inst, site, w, setup, names, tup, op, b):
    ctx._equal(rule, inst, site, w, setup, names, [('operands', 'z1', 'z0')],
               pre='z0 = %s\ntry:\n    %s\nexcept Exception:\n    pass\nz1 = %s' % (tup, op, tup), **b)


def shared_writes(w, built, outs):
    """(place, event) of each write of the outcomes to an object older than the entry objects."""
    st0, old = built[0], w.st.heap
    n0 = len(st0.events)
    for o in outs:
        named = set()
        for ev in o.st.events[n0:]:
            if ev[0] == 'setglobal':
                named.add(('mod', ev[1]))
                yield ('g', ev[1], ev[2]), ev, o
            elif ev[0] in ('setattr', 'setitem', 'mutate') and ev[1] in old:
                named.add(ev[1])
                if ev[1][0] == 'mod':
                    yield ('g', ev[1][1], ev[2]), ev, o
                else:
                    yield ev[1], ev, o
        for oid, ob in st0.heap.items():
            n = o.st.heap.get(oid)
            if oid in old and n is not ob and oid not in named and oid[0] not in ('env', 'cache') and (n.attrs != ob.attrs or n.items != ob.items):
                yield oid, ('change', oid, None, None, '', o.st.pc, ()), o


def name_of(w, place):
    if place[0] == 'g':
        return '%s.%s' % place[1:]
    for oid, ob in w.st.heap.items():
        if oid[0] in ('mod', 'cls'):
            for k, v in ob.attrs.items():
                if isinstance(v, Ref) and v.oid == place:
                    return '%s.%s' % (oid[1], k)
    return '%s.%s' % place[:2] if place[0] == 'cls' else getattr(w.st.heap.get(place), 'cls', None) or place[0]


def memo(w, place, ev):
    ob = w.st.heap.get(place)
    return ev[0] == 'setitem' and ob is not None and isinstance(ob.items, dict) and not ob.items and name_of(w, place).split('.')[-1].startswith('_')


def writes(ctx, rule, inst, site, w, setup, names, op, b):
    built = ctx.build(w, setup, names, None, None, **b)
    if built is None:
        ctx.unk(rule, inst, site, 'entry objects not analysable')
        return
    judge.Limit.until = w.I.until = now() + 100
    judge.Clock.end = ctx.t0 + 600
    try:
        outs = ctx.observe(w, built, op, None, **b)
    except (Giveup, RecursionError):
        ctx.unk(rule, inst, site, 'analysis budget')
        return
    und = None
    for place, ev, o in shared_writes(w, built, outs):
        if ev[6] or place == ('mod', 'scenario'):
            continue                    # under a lock: the lock rule
        if ev[0] == 'setattr' and same(built[0], place, ev, o):
            continue
        if memo(w, place, ev):
            und = 'memo %s written at %s' % (name_of(w, place), ev[4])
            continue
        if judge.prove_false(ev[5], built[0].facts):
            continue
        r, u = judge.inhabitant(ev[5], lambda e: True, [], o.st.facts, None, ctx.seed)
        if r is None:
            und = 'write to %s at %s not excluded (%s)' % (name_of(w, place), ev[4], u)
            continue
        ctx.bad(rule, inst, '%s <- %s' % (ev[4], site), 'changes the shared %s without a lock' % name_of(w, place), r)
        return
    if not outs:
        und = 'no outcome'
    ctx.add(rule, inst, 'undetermined' if und else 'discharged', site, und or '')


def same(st0, place, ev, o):
    ob = st0.heap.get(place)
    return ob is not None and ev[2] in ob.attrs and judge.prove_eq(ob.attrs[ev[2]], ev[3], o.st.facts)


def makers(ctx, w):
    b = dict(E.DATE['short'][1], **E.TIME[1])
    b.update(m=S('m', 'int', 1, 19), tz=E.TZ, n=S('n', 'int', 78, 1097267), t=S('t', 'num'), q=S('q', 'int', -1439, 1439), g=S('g', 'int', 1, 3000), m0=S('m0', 'int', 1, 12), d0=S('d0', 'int', 1, 28), j=S('j', 'num'))
    for op in MAKE:
        ctx.defer(writes, ctx, 'tables', 'make/' + op, w.where(op.split('(')[0].replace('BahaiCalendar', 'BahaiCalendar.' + op.split('.')[1].split('(')[0] if '.' in op else '')) or '', w, 'u = 0', ['u'], op, b)
    zones(ctx, w, b)
    b2 = dict(b, v=S('v', 'int', 1, 19), yy=S('yy', 'int', 1, 19))
    for setup, ops in ARGS.items():
        for op in ops:
            ctx.defer(keeps, ctx, 'frozen', 'argument/%s/%s' % (setup, op), w.where('BahaiCalendar'), w, setup, ['b'], '(tuple(b), len(b))', op, b2)
    for f in ('%Y-%m-%d', '%d %B %Y %H:%M:%S.%f %z', '%G %V %u', '%Y %j', '%q'):
        ctx.defer(writes, ctx, 'tables', 'strptime/' + f, w.where('StrpTime'), w, 'u = 0', ['u'], "%s('x', %r)" % (SP, f), b)
        ctx.defer(writes, ctx, 'tables', 'strptime-text/' + f, w.where('StrpTime'), w, 'u = 0', ['u'], "%s(f'{y:04d}-{m:02d}-{d:02d}', %r)" % (SP, f), dict(b, y=S('y', 'int', 1, 1161)))


# ---------------------------------------------------------------- locks
def locks(ctx):
    w = strp.world(ctx)
    ordmodel(w)
    w.I.opaque['_getlang'] = lambda *a: Tup([S('lang', 'str'), NONE])
    src = {'one': "%s(t, '%%Y-%%m-%%d')" % SP, 'twice': "%s(t, '%%Y-%%m-%%d')\n%s(t, '%%Y-%%m-%%d')" % (SP, SP), 'bad-directive': "%s(t, '%%q')" % SP, 'stray': "%s(t, '%%Y%%')" % SP,
           'mismatch': "%s(t, '%%H')" % SP, 'many': '\n'.join('%s(t, %r)' % (SP, f) for f in ['%Y-%m-%d'] + ['%Y-%m-%d' + '%%' * k for k in range(7)]),
           'twice-the-same': "%s(t, '%%Y %%Y')" % SP, 'text-bad': "%s(5, '%%Y')" % SP}
    wrap = lambda s: '\n'.join('try:\n    %s\nexcept Exception:\n    pass' % l for l in s.split('\n'))
    src['mixed'] = wrap('\n'.join([src['bad-directive'], src['one'], src['twice-the-same'], src['stray'], src['mismatch'], src['twice']]))
    src['many'] = wrap(src['many'])
    ctx.defer(lockset, ctx, w, src)


def lockset(ctx, w, srcs):
    site = w.where('StrpTime._find_regex') or w.where('StrpTime')
    b = dict(y=S('y', 'int', 1, 1161), m=S('m', 'int', 1, 19), d=E.D)
    built = ctx.build(w, "t = f'{y:04d}-{m:02d}-{d:02d}'", ['t'], None, None, **b)
    if built is None:
        ctx.unk('lock', 'entry', site, 'entry objects not analysable')
        return
    runs = {}

    def go():
        for nm, s in srcs.items():
            judge.Limit.until = w.I.until = now() + 100
            judge.Clock.end = ctx.t0 + 600
            try:
                runs[nm] = ctx.observe(w, built, s, None)
            except (Giveup, RecursionError):
                runs[nm] = None
    w.I.watch = set()
    go()
    places = {}
    for nm, outs in runs.items():
        for place, ev, o in shared_writes(w, built, outs or ()):
            places.setdefault(place, ev)
    w.I.watch = set(places)
    go()
    w.I.watch = None
    n0 = len(built[0].events)
    for nm, outs in runs.items():
        if not outs:
            ctx.unk('lock', nm, site, 'analysis budget' if outs is None else 'no outcome')
            continue
        acc = {p: [] for p in places}
        stuck = again = None
        for o in outs:
            if o.st.held and not stuck:
                stuck = o
            for ev in o.st.events[n0:]:
                p = ev[1] if ev[0] != 'setglobal' else ('g', ev[1], ev[2])
                if ev[0] == 'reenter' and 'RLOCK' not in str(ev[1]) and not again:
                    again = ev
                elif p in acc:
                    acc[p].append(ev)
        for p, evs in sorted(acc.items(), key=lambda x: str(x[0])):
            lbl = '%s:%s' % (nm, name_of(w, p))
            if not evs:
                ctx.ok('lock', lbl, site)
                continue
            common = set(evs[0][6])
            for ev in evs:
                common &= set(ev[6])
            if common:
                ctx.ok('lock', lbl, site)
                continue
            bad = next((ev for ev in evs if not ev[6]), evs[-1])
            decide_(ctx, lbl, bad, built, '%s of the shared %s without its lock' % ('read' if bad[0] == 'touch' else 'write', name_of(w, p)), site)
        for lbl, ev, msg in (('released', stuck and ('', '', '', '', stuck.loc, stuck.st.pc), 'the lock stays held after the call'), ('reentered', again, 'the lock is taken again by its holder: the call never returns')):
            if ev:
                decide_(ctx, '%s:%s' % (nm, lbl), ev, built, msg, site)
            else:
                ctx.ok('lock', '%s:%s' % (nm, lbl), site)


def decide_(ctx, lbl, ev, built, msg, site):
    if judge.prove_false(ev[5], built[0].facts):
        ctx.ok('lock', lbl, site)
        return
    r, u = judge.inhabitant(ev[5], lambda e: True, [], built[0].facts, None, ctx.seed)
    if r is None:
        ctx.unk('lock', lbl, site, msg + ' not excluded')
    else:
        ctx.bad('lock', lbl, '%s <- %s' % (ev[4], site), msg, r)
