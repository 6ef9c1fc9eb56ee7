"""The strptime module in the C locale and UTC."""
from .lib import *


def setter(**kv):
    def hook(I, fn, a, kw, h, fr):
        for k, v in kv.items():
            I.setattr(a[0], k, v(I, h) if callable(v) else v, h, fr)
        return NONE
    return hook


def strs(*x):
    return lambda I, h: I.new_list(h.st, [C(i) for i in x])


OPAQUE = {
    '_getlang': lambda *a: Tup([C('C'), NONE]),
    'LocaleTime.__calc_am_pm': setter(am_pm=strs('am', 'pm')),
    'LocaleTime.__calc_timezone': setter(tzname=Tup([C('UTC'), C('UTC')]), daylight=C(0), timezone=Tup([Tup([C('utc'), C('gmt')]), Tup([])])),
    'LocaleTime.__calc_date_time': setter(LC_date_time=C('%a %b %d %H:%M:%S %Y'), LC_date=C('%m/%d/%y'), LC_time=C('%H:%M:%S')),
}
CONST = {'time.tzname': Tup([C('UTC'), C('UTC')]), 'time.daylight': C(0)}


def world(ctx, **kw):
    return ctx.world(mods=('datetime', '_strptime'), opaque=OPAQUE, const=CONST, **kw)
