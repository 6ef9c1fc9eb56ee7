"""C01: serialisation round trip of every value object."""
from .lib import *
from . import entry as E


def run(ctx):
    ctx.explanation = (
        'Every object a public constructor can build is represented once, with one symbol per '
        'field; the reduce protocol (the callable and arguments an object reduces to, applied '
        'again, plus the state setter where one is returned) is interpreted abstractly from the '
        'current source into value-flow terms and each public attribute of the rebuilt object is '
        'required to have the same normal form as that of the original, for every protocol number.')
    ctx.assumptions = [
        'pickle and copy rebuild an object by applying the callable returned by __reduce_ex__ to '
        'its arguments and passing the third item, when there is one, to __setstate__',
        'symbols range over the validated field domains; the year-start table is an arbitrary map']
    ctx.rule('rebuild', 'every public attribute survives reduce + rebuild')
    ctx.rule('class', 'an object reduces to its own class')
    ctx.rule('zone', 'offset, name, key, coordinates and zoneinfo of a timezone survive')
    w = ctx.world()
    P = S('p', 'int', 0, 5)
    rebuild = ('r = x.__reduce_ex__(p)\nf = r[0]\na = r[1]\nz = f(*a)\n')
    for form, setup, b in E.dates():
        site = w.where('date.__reduce__')
        pre = 'r = x.__reduce__()\nf = r[0]\na = r[1]\nz = f(*a)'
        pairs = [(n, 'z.' + n, 'x.' + n) for n in E.obs_attrs('date', form)]
        pairs.append(('missing', "hasattr(z, '_kull_i_shay')", "hasattr(x, '_kull_i_shay')"))
        ctx.equal('rebuild', 'date/%s' % form, site, w, setup, ['x'], pairs, pre, **b)
        ctx.equal('class', 'date/%s' % form, site, w, setup, ['x'], [('cls', 'x.__reduce__()[0] is date', 'True')], **b)
    for tz, setup, b in E.times():
        site = w.where('time.__reduce_ex__')
        pairs = [(n, 'z.' + n, 'x.' + n) for n in E.obs_attrs('time') if n != 'fold']
        pairs.append(('fold', 'z.fold', 'x.fold if p > 3 else 0'))
        ctx.equal('rebuild', 'time/%s' % tz, site, w, setup + '\nq = p', ['x', 'p'], pairs, rebuild, p=P, **b)
        ctx.equal('class', 'time/%s' % tz, site, w, setup, ['x', 'p'], [('cls', 'x.__reduce_ex__(p)[0] is time', 'True')], p=P, **b)
        pre = 'r = x.__reduce__()\nz = r[0](*r[1])'
        ctx.equal('rebuild', 'time-reduce/%s' % tz, w.where('time.__reduce__'), w, setup, ['x'],
                  [(n, 'z.' + n, 'x.' + n) for n in E.obs_attrs('time') if n != 'fold'], pre, **b)
    for name, setup, b in E.datetimes():
        form = name.split('/')[0]
        site = w.where('datetime.__reduce_ex__')
        pairs = [(n, 'z.' + n, 'x.' + n) for n in E.obs_attrs('datetime', form) if n != 'fold']
        pairs.append(('fold', 'z.fold', 'x.fold if p > 3 else 0'))
        ctx.equal('rebuild', 'datetime/%s' % name, site, w, setup, ['x', 'p'], pairs, rebuild, p=P, **b)
        ctx.equal('class', 'datetime/%s' % name, site, w, setup, ['x', 'p'], [('cls', 'x.__reduce_ex__(p)[0] is datetime', 'True')], p=P, **b)
        pre = 'r = x.__reduce__()\nz = r[0](*r[1])'
        ctx.equal('rebuild', 'datetime-reduce/%s' % name, w.where('datetime.__reduce__'), w, setup, ['x'],
                  [(n, 'z.' + n, 'x.' + n) for n in E.obs_attrs('datetime', form) if n != 'fold'], pre, **b)
    zones(ctx, w)


def zones(ctx, w):
    LAT, LON = S('lat', 'num', -90, 90), S('lon', 'num', -180, 180)
    ZONE = S('zone', 'num', -23, 23)
    off = TD(S('off', 'int', -86340000000, 86340000000))
    site = w.where('timezone.__getinitargs__')
    obs = [('offset', 'z.utcoffset(None)', 'x.utcoffset(None)'), ('name', 'z.tzname(None)', 'x.tzname(None)')]
    ctx.equal('zone', 'timezone/named', site, w, 'x = timezone(off, n)', ['x'], obs,
              'z = timezone(*x.__getinitargs__())', off=off, n=C('NAME'))
    for label, lo, hi in (('east', 1, 86340000000), ('west', -86340000000, -1)):
        ctx.equal('zone', 'timezone/plain-' + label, site, w, 'x = timezone(off)', ['x'], obs,
                  'z = timezone(*x.__getinitargs__())', off=TD(S('off', 'int', lo, hi)))
    site = w.where('TZWithCoords.__reduce__')
    pre = 'r = x.__reduce__()\nz = r[0](*r[1])\nif len(r) > 2:\n    z.__setstate__(r[2])\n'
    attrs = ['lat', 'lon', 'zone', 'key', 'coordinates']
    obs = [(n, 'z.' + n, 'x.' + n) for n in attrs]
    obs += [('offset', 'z.utcoffset(None)', 'x.utcoffset(None)'),
            ('name', 'z.tzname(None)', 'x.tzname(None)'), ('text', 'str(z)', 'str(x)'),
            ('class', 'type(z) is type(x)', 'True')]
    for label, mk in (('keyed', "x = TZWithCoords(lat, lon, zone, key='Asia/Tehran')"),
                      ('unkeyed', 'x = TZWithCoords(lat, lon, zone)'),
                      ('zoneless', "x = TZWithCoords(lat, lon, key='UTC')"),
                      ('bare', 'x = TZWithCoords(lat, lon)')):
        ctx.equal('zone', 'TZWithCoords/' + label, site, w, mk, ['x'], obs, pre, lat=LAT, lon=LON, zone=ZONE)
    zi = S('zi', 'obj')
    w.I.sym_methods['zi'] = {'key': C('Asia/Tehran'), '*classes': ('tzinfo', 'ZoneInfo', 'object')}
    ctx.equal('zone', 'TZWithCoords/zoneinfo', site, w, 'x = TZWithCoords.fromzoneinfo(zi, lat, lon, zone)', ['x'],
              obs + [('zoneinfo', "getattr(z, '_zi', None)", "getattr(x, '_zi', None)")], pre,
              lat=LAT, lon=LON, zone=ZONE, zi=zi)
