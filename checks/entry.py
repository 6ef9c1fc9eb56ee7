"""Entry objects of the scenarios: every object the public constructors can
build, as symbols over the public domain (never sampled)."""
from .lib import *

Y = S('y', 'int', -1842, 1161)
M = S('m', 'int', 0, 19)
D = S('d', 'int', 1, 19)
K = S('k', 'int', -5, 4)
V_ = S('v', 'int', 1, 19)
YY = S('yy', 'int', 1, 19)
H = S('h', 'int', 0, 24)
H23 = S('h', 'int', 0, 23)
MI = S('mi', 'int', 0, 59)
SE = S('se', 'int', 0, 59)
US = S('us', 'int', 0, 999999)
FO = S('fo', 'int', 0, 1)
TZ = S('tz', 'tz')

DATE = {'short': ('y, m, d', dict(y=Y, m=M, d=D)),
        'long': ('k, v, yy, m, d', dict(k=K, v=V_, yy=YY, m=M, d=D))}
TIME = ('h, mi, se, us', dict(h=H, mi=MI, se=SE, us=US))
TZS = {'naive': ('None', {}), 'aware': ('tz', dict(tz=TZ))}


def dates():
    for form, (args, b) in DATE.items():
        yield form, 'x = date(%s)' % args, dict(b)


def dt_args(form, tz, fold=True, hour=None):
    args, b = DATE[form]
    t, tb = TZS[tz]
    b = dict(b, **TIME[1])
    b.update(tb)
    if hour is not None:
        b['h'] = hour
    if form == 'short':
        args += ', None, None'
    args += ', h, mi, se, us, %s' % t
    if fold:
        args += ', fold=fo'
        b['fo'] = FO
    return args, b


def datetimes(fold=True, hour=None):
    for form in DATE:
        for tz in TZS:
            args, b = dt_args(form, tz, fold, hour)
            yield '%s/%s' % (form, tz), 'x = datetime(%s)' % args, b


def times(fold=True):
    for tz, (t, tb) in TZS.items():
        b = dict(TIME[1])
        b.update(tb)
        b['fo'] = FO
        yield tz, 'x = time(h, mi, se, us, %s, fold=fo)' % t, b


OBS_DATE = ['year', 'month', 'day', 'is_short', 'b_date']
OBS_LONG = ['kull_i_shay', 'vahid']
OBS_TIME = ['hour', 'minute', 'second', 'microsecond', 'tzinfo', 'fold']


def obs_attrs(kind, form=None):
    out = []
    if kind in ('date', 'datetime'):
        out += OBS_DATE
        if form == 'long':
            out += OBS_LONG
    if kind in ('time', 'datetime'):
        out += OBS_TIME
    if kind == 'datetime':
        out.append('b_time')
    return out
