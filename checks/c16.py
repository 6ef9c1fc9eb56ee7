"""C16: time tuples carry the fields, the weekday, the day of the year and the timezone of their value."""
import zlib
from .lib import *
from . import entry as E
from .c02 import ordinals, INTERP

FIELDS = {'short': [('year', 'tm_year', 'y'), ('mon', 'tm_mon', 'm'), ('mday', 'tm_mday', 'd')],
          'long': [('kull', 'tm_kull_i_shay', 'k'), ('vahid', 'tm_vahid', 'v'), ('year', 'tm_year', 'yy'),
                   ('mon', 'tm_mon', 'm'), ('mday', 'tm_mday', 'd')]}
TIME = [('hour', 'tm_hour', 'h'), ('min', 'tm_min', 'mi'), ('sec', 'tm_sec', 'se')]
ORDER = {'short': ['tm_year', 'tm_mon', 'tm_mday'],
         'long': ['tm_kull_i_shay', 'tm_vahid', 'tm_year', 'tm_mon', 'tm_mday']}
TAIL = ['tm_hour', 'tm_min', 'tm_sec', 'tm_wday', 'tm_yday', 'tm_isdst', 'tm_zone', 'tm_gmtoff']
CONS = {'short': 'y, m, d, None, None', 'long': 'k, v, yy, m, d'}
YL = '361*(k - 1) + 19*(v - 1) + yy'
YEAR = {'short': 'y', 'long': YL}


def moment(I, o, h, fr):
    """the date and time of day a timezone is asked about, to the second, and its fold."""
    if isinstance(o, C):
        return [o]
    out = []
    d = I.getattr(o, 'b_date', h, fr)
    out += list(deref(d, h.st).items)
    for n in ('hour', 'minute', 'second', 'fold'):
        out.append(I.getattr(o, n, h, fr))
    return out


def whole(what, I, o, h, fr, lo, n):
    """a duration in a range: any function of the moment."""
    return TD(sub(mod(T(what, *moment(I, o, h, fr), typ='int'), C(n), h.st.facts), C(-lo)))


def zone(w, name, dst='some'):
    """a timezone whose answers are arbitrary functions of the moment."""
    def text(I, obj, a, kw, h, fr):
        return T('tzname', *moment(I, a[0], h, fr), typ='str')
    w.I.sym_methods[name] = {
        'utcoffset': lambda I, obj, a, kw, h, fr: whole('off', I, a[0], h, fr, -86399999999, 172799999999),
        'dst': (lambda I, obj, a, kw, h, fr: whole('dst', I, a[0], h, fr, -7200000000, 14400000001)) if dst == 'some' else
               (lambda I, obj, a, kw, h, fr: NONE if dst is None else TD(C(dst))),
        'tzname': text, '*classes': ('tzinfo', 'object')}


def some(*a):
    return zlib.crc32(repr([int(x) for x in a]).encode())


MEANS = {**INTERP, 'off': lambda *a: some(*a) * 9973, 'dst': lambda *a: some(*a) % 3 + 7199999999, 'tzname': lambda *a: 'Z%d' % (some(*a) % 99)}


def run(ctx):
    ctx.explanation = (
        'Symbolic dates and datetimes of both forms are built with a timezone whose offset, daylight saving and name are uninterpreted functions of the fields (to the second) and fold of the moment it is asked about. timetuple() is interpreted and each named field, and the tuple in its order, must equal the field, weekday() or answer of the value, as normal forms. struct_time is interpreted on every length from 0 to 15 and on each range outside the valid one, and must raise on every path.')
    ctx.assumptions = ['timezones are pure: the same moment gets the same answer', 'offsets are strictly inside one day and daylight saving within four hours (others are refused elsewhere)']
    ctx.rule('fields', 'a time tuple has the fields of its value, in the order of its form')
    ctx.rule('zone', 'daylight saving, name and offset of a time tuple are those of the timezone at that moment')
    ctx.rule('refuse', 'struct_time refuses other lengths, flags and dates')
    w = ctx.world()
    ordinals(w)
    zone(w, 'tz')
    zone(w, 'tzn', None)
    zone(w, 'tz0', 0)
    zone(w, 'tzm', -3600000000)
    site = w.where('datetime.timetuple')
    for form in ('short', 'long'):
        D, T1 = E.DATE[form][1], E.TIME[1]
        F = FIELDS[form]
        ctx.equal('fields', form + '/date', w.where('date.timetuple'), w, 'a = date(%s)' % E.DATE[form][0], ['a'],
                  [(n, 't.' + f, e) for n, f, e in F] + [(n, 't.' + f, '0') for n, f, _ in TIME] +
                  [('wday', 't.tm_wday', 'a.weekday()'), ('isdst', 't.tm_isdst', '-1'), ('zone', '(t.tm_zone, t.tm_gmtoff)', '(None, None)'),
                   ('short', 't.short', str(form == 'short'))],
                  pre='t = a.timetuple()', interp=MEANS, **D)
        for nm, tz, dst in (('naive', 'None', '-1'), ('aware', 'tz', '1 if a.dst() else 0'), ('aware-none', 'tzn', '-1'), ('aware-zero', 'tz0', '0'), ('aware-minus', 'tzm', '1')):
            b = dict(D, **T1)
            b.update(fo=E.FO)
            if tz != 'None':
                b['tz'] = S(tz, 'tz')
            mk = 'a = datetime(%s, h, mi, se, us, %s, fold=fo)' % (CONS[form], 'tz' if tz != 'None' else 'None')
            off = '(a.tzname(), a.utcoffset().total_seconds())' if tz != 'None' else '(None, None)'
            ctx.equal('zone' if tz != 'None' else 'fields', '%s/datetime/%s' % (form, nm), site, w, mk, ['a'],
                      [(n, 't.' + f, e) for n, f, e in F + TIME] +
                      [('wday', 't.tm_wday', 'a.weekday()'), ('isdst', 't.tm_isdst', dst), ('zone', '(t.tm_zone, t.tm_gmtoff)', off),
                       ('short', 't.short', str(form == 'short')),
                       ('order', 'tuple(t)', '(%s,)' % ', '.join('t.' + f for f in ORDER[form] + TAIL))],
                      pre='t = a.timetuple()', interp=MEANS, **b)
        # ---- tuples built directly
        tup = '(%s, h, mi, se, wd, yd, f)' % E.DATE[form][0]
        b = dict(D, **dict(T1, se=S('se', 'int', 0, 59)), wd=S('wd', 'int', 0, 6), yd=S('yd', 'int', 1, 366), f=S('f', 'int', -1, 1))
        st = w.where('struct_time.__new__')
        ok = 'datetime(%s, h, mi, se)\n' % CONS[form]      # the fields name a date and time
        ctx.equal('fields', form + '/direct', st, w, ok + 'n = 0', ['n'],
                  [(n, 't.' + f, e) for n, f, e in F + TIME] +
                  [('rest', '(t.tm_wday, t.tm_yday, t.tm_isdst, t.tm_zone, t.tm_gmtoff, t.short)', '(wd, yd, f, None, None, %s)' % (form == 'short'))],
                  pre='from badidatetime._structures import struct_time\nt = struct_time(%s)' % tup, interp=MEANS, **b)
        for lo, hi in ((-99, -2), (2, 99)):
            ctx.raises('refuse', '%s/isdst/%d' % (form, lo), st, w, ok + 'n = 0', ['n'],
                       'from badidatetime._structures import struct_time\nreturn struct_time(%s)' % tup, ('ValueError',), interp=MEANS, **dict(b, f=S('f', 'int', lo, hi)))
        for nm, kv in (('month', dict(m=S('m', 'int', 20, 99))), ('month-', dict(m=S('m', 'int', -99, -1))), ('day', dict(d=S('d', 'int', 20, 99))),
                       ('day0', dict(d=S('d', 'int', -99, 0))), ('ayyam', dict(m=C(0), d=S('d', 'int', 6, 19))), ('hour', dict(h=S('h', 'int', 25, 99))),
                       ('minute', dict(mi=S('mi', 'int', 60, 99))), ('second', dict(se=S('se', 'int', -99, -1)))):
            ctx.raises('refuse', '%s/%s' % (form, nm), st, w, 'n = 0', ['n'],
                       'from badidatetime._structures import struct_time\nreturn struct_time(%s)' % tup, ('ValueError', 'AssertionError'), interp=MEANS, **dict(b, **kv))
    for n in range(16):
        if n not in (9, 11):
            ctx.raises('refuse', 'length/%d' % n, w.where('struct_time.__new__'), w, 'n = 0', ['n'],
                       'from badidatetime._structures import struct_time\nreturn struct_time((1,) * %d)' % n, ('TypeError',))
    # ---- week dates
    for form in ('short', 'long'):
        for cls, cons in (('date', E.DATE[form][0]), ('datetime', CONS[form])):
            ctx.equal('fields', '%s/%s/isocalendar' % (form, cls), w.where('_IsoCalendarDate.__new__'), w, 'a = %s(%s)' % (cls, cons), ['a'],
                      [('year', 't.year', 't[0]'), ('week', 't.week', 't[1]'), ('weekday', 't.weekday', 't[2]'), ('len', 'len(t)', '3')],
                      pre='t = a.isocalendar()', interp=MEANS, **E.DATE[form][1])
