"""C10: strftime prints, for every directive, the field it documents."""
from .lib import *
from . import entry as E
from .c06 import ordmodel
from .c02 import tz_model

NAMES = ['Jalál', 'Jamál', 'Kamál', 'Fiḍāl', '`Idāl', 'Istijlāl', 'Istiqlāl']
YP, YN = S('y', 'int', 0, 1161), S('y', 'int', -1842, -1)
Y4 = {'plus': "{y:04d}", 'minus': "-{-y:04d}"}
M_, MA, D_, DA = "_td_utils.MONTHNAMES[m]", "_td_utils.MONTHNAMES_ABV[m]", "_td_utils.DAYNAMES[x.weekday()]", "_td_utils.DAYNAMES_ABV[x.weekday()]"
ISO = 'tuple(x.isocalendar())'
# directive -> text, for dates (time fields 0) and datetimes
TEXT = {
    'a': "f'{%s}'" % DA, 'A': "f'{%s}'" % D_, 'b': "f'{%s}'" % MA, 'B': "f'{%s}'" % M_, 'h': "f'{%s}'" % MA,
    'd': "f'{d:02d}'", '-d': "f'{d:d}'", 'e': "f'{d:2d}'", 'j': "f'{x.timetuple().tm_yday:03d}'", '-j': "f'{x.timetuple().tm_yday:d}'",
    'm': "f'{m:02d}'", '-m': "f'{m:d}'", 'H': "f'{h:02d}'", '-H': "f'{h:d}'", 'M': "f'{mi:02d}'", '-M': "f'{mi:d}'",
    'S': "f'{se:02d}'", '-S': "f'{se:d}'", 'T': "f'{h:02d}:{mi:02d}:{se:02d}'", 'f': "f'{us:06d}'", 'n': "'\\n'", '%': "'%'",
    'K': "''", ':V': "f'{v:02d}'", ':K': "f'{k:d}'", 'u': "f'{x.isoweekday():d}'", 'w': "f'{x.weekday():d}'",
    'U': "f'{_td_utils._year_week_day(y, m, d, week0=True)[1]:02d}'", 'W': "f'{_td_utils._year_week_day(y, m, d, week0=True)[1]:02d}'",
}
YEARS = {'Y': "f'%s'"}
TEXT['c'] = "f'{%s} {%s} {d:02d} {h:02d}:{mi:02d}:{se:02d} {y:04d}'" % (DA, MA)
PLUS = {'y': "f'{y - y // 100 * 100:02d}'", '-y': "f'{y - y // 100 * 100:d}'", 'C': "f'{y // 100:02d}'"}
OTHER = set('GIlprXxzZk')         # %G below; others: zone (C07), locale, midday


def run(ctx):
    ctx.explanation = (
        'Each directive is interpreted on a symbolic date and datetime in both forms and its text must be the one '
        'documented for the fields of the object; the format scanner is interpreted for every character after %, %- '
        'and %:, and for every ordered pair of directives with literal text around them.')
    ctx.assumptions = ['day numbers are an arbitrary bijection', 'the C locale layout unless the scenario sets another one']
    ctx.rule('directive', 'a directive prints its documented text')
    ctx.rule('scan', 'formats are read left to right: literal text is copied, each directive expanded, %% is a percent sign')
    ctx.rule('accept', 'exactly the documented directives are accepted, anything else raises ValueError')
    ctx.rule('locale', 'localised dates and times print the fields in the order and with the separator of the locale')
    w = ctx.world()
    ordmodel(w)
    tz_model(w, 'tz', TD(scale(S('o1', 'int', -1439, 1439), 60000000)))
    directives(ctx, w)
    scan(ctx, w)
    locales(ctx)


def objects():
    """(name, setup, bindings, time part)"""
    T0 = dict(h=C(0), mi=C(0), se=C(0), us=C(0))
    T1 = dict(E.TIME[1], h=E.H23)
    S1, L1 = dict(m=E.M, d=E.D), dict(E.DATE['long'][1])
    for yn, y in (('plus', YP), ('minus', YN)):
        yield yn, 'date/' + yn, 'x = date(y, m, d)', dict(S1, y=y, **T0)
        yield yn, 'datetime/' + yn, 'x = datetime(y, m, d, None, None, h, mi, se, us)', dict(S1, y=y, **T1)
        yield yn, 'aware/' + yn, 'x = datetime(y, m, d, None, None, h, mi, se, us, tz)', dict(S1, y=y, tz=E.TZ, **T1)


def directives(ctx, w):
    for yn, name, mk, b in objects():
        site = w.where('TimeDateUtils.strftime')
        tab = {k: v for k, v in TEXT.items() if k not in (':V', ':K')}
        tab.update({k: v % Y4[yn] for k, v in YEARS.items()})
        if yn == 'plus':
            tab.update(PLUS)
        for c, text in tab.items():
            ctx.equal('directive', '%s/%%%s' % (name, c), w.where('TimeDateUtils.' + {'-': c[1:], ':': c[1:]}.get(c[0], c)) or site, w, mk, ['x'],
                      [('text', 'x.strftime(%r)' % ('%' + c), text)] + ([('format', 'format(x, %r)' % ('%' + c), text)] if c in 'YmdHB' else []), **b)
        ctx.equal('directive', '%s/weeks' % name, w.where('TimeDateUtils.U') or site, w, mk, ['x'],
                  [('%%%s' % c, "x.strftime('%%%s')" % c, "f'{(x.toordinal() - _td_utils._isoweek1jalal(y)) // 7 + 1:02d}'") for c in 'UW'], **b)
        # the ISO year and week, for each year the ISO year can be
        for g in ('y', 'y - 1', 'y + 1'):
            for c, text in (('V', "f'{%s[1]:02d}'" % ISO), ('G', "f'{%s[0]:04d}'" % ISO)):
                if yn == 'minus' and c == 'G':
                    continue
                ctx.equal('directive', '%s/%%%s/%s' % (name, c, g), w.where('TimeDateUtils.' + c) or site, w, mk, ['x'], [('text', "x.strftime('%%%s')" % c, text)],
                          pre='if x.isocalendar()[0] != %s or (%r == "G" and %s < 0):\n    raise OverflowError' % (g, c, g), allow=('OverflowError',), **b)
    # long form: the parts of the form itself
    L = dict(E.DATE['long'][1])
    for nm, mk, b in (('date', 'x = date(k, v, yy, m, d)', L), ('datetime', 'x = datetime(k, v, yy, m, d, h, mi, se, us)', dict(L, **dict(E.TIME[1], h=E.H23)))):
        for c in (':V', ':K', 'm', '-m', 'd', '-d', 'B', 'b', 'A', 'a', 'K', 'e', 'j', '-j', 'u', 'w'):
            ctx.equal('directive', '%s/long/%%%s' % (nm, c), w.where('TimeDateUtils.' + c.strip(':-')), w, mk, ['x'], [('text', 'x.strftime(%r)' % ('%' + c), TEXT[c])], **b)
    for nm, mk, b in (('time', 'x = time(h, mi, se, us)', dict(E.TIME[1], h=E.H23)), ('time-aware', 'x = time(h, mi, se, us, tz)', dict(E.TIME[1], h=E.H23, tz=E.TZ))):
        for c in ('H', '-H', 'M', '-M', 'S', '-S', 'T', 'f', 'n', '%'):
            ctx.equal('directive', '%s/%%%s' % (nm, c), w.where('TimeDateUtils.' + c.strip(':-')), w, mk, ['x'], [('text', 'x.strftime(%r)' % ('%' + c), TEXT[c])], **b)


DOC = set('aAbBcCdDefGhHIjklmMnprSTuUVwWxXyYzZ%') | {'K'}
MODS = {'-': set('dHjlmMSy'), ':': set('KVz')}


def scan(ctx, w):
    site = w.where('TimeDateUtils._check_format')
    b = dict(E.DATE['short'][1], **dict(E.TIME[1], h=E.H23))
    mk = 'x = datetime(y, m, d, None, None, h, mi, se, us)'
    chars = [chr(i) for i in range(33, 127) if chr(i) not in '-:'] + ['á', ' ']
    for c in chars:
        if c not in DOC:
            ctx.raises('accept', repr('%' + c), site, w, mk, ['x'], 'x.strftime(%r)' % ('%' + c), ('ValueError',), **b)
        for mod in '-:':
            if c not in MODS[mod]:
                ctx.raises('accept', repr('%' + mod + c), site, w, mk, ['x'], 'x.strftime(%r)' % ('%' + mod + c), ('ValueError',), **b)
    for f in ('', '%-', '%:', '%Y%', '%Y %:', '%q%Y'):
        if f not in ('%Y%',):
            ctx.raises('accept', repr(f), site, w, mk, ['x'], '_td_utils.strftime(%r, x.timetuple())' % f, ('ValueError',), **b)
    # every ordered pair of plain directives, with and without text between
    plain = ['Y', 'm', '-d', 'H', '%', 'f', 'B', ':K', 'j', 'n', 'T']
    site = w.where('TimeDateUtils.strftime')
    for c1 in plain:
        pairs = []
        for c2 in plain:
            for s in ('', 'x', '-', ':', ' '):
                pairs.append(('%s%s%s' % (c1, s, c2), 'x.strftime(%r)' % ('%' + c1 + s + '%' + c2),
                              "x.strftime(%r) + %r + x.strftime(%r)" % ('%' + c1, s, '%' + c2)))
        ctx.equal('scan', 'pair/%' + c1, site, w, mk, ['x'], pairs, **b)
    for t in ('abc', 'á 12:-', 'f', 'd-m', '-', ':', 'Y'):
        ctx.equal('scan', 'text/%r' % t, site, w, mk, ['x'],
                  [('copy', 'x.strftime(%r)' % t, repr(t)), ('after', 'x.strftime(%r)' % ('%m' + t), "x.strftime('%%m') + %r" % t),
                   ('before', 'x.strftime(%r)' % (t + '%m'), "%r + x.strftime('%%m')" % t), ('percent', 'x.strftime(%r)' % ('%%' + t), repr('%' + t))], **b)


LOCALES = {'en_US': ('%m/%d/%Y', '%r'), 'C': ('%m/%d/%y', '%H:%M:%S'), 'de_DE': ('%d.%m.%Y', '%T'), 'iso': ('%Y-%m-%d', '%H:%M:%S'), 'en_GB': ('%d/%m/%y', '%T')}


def locales(ctx):
    for nm, (df, tf) in LOCALES.items():
        w = ctx.world()
        ordmodel(w)
        site = w.where('TimeDateUtils._order_format')
        b = dict(m=E.M, d=E.D, y=YP, **dict(E.TIME[1], h=E.H23))
        sep = df[2]
        order = [df[1], df[4], df[7]]
        ctx.equal('locale', 'order/' + nm, site, w, 'u = _td_utils', ['u'],
                  [('fields', "u._order_format(%r, '%%m/%%d/%%y')" % df, repr([sep] + order))])
        txt = {'m': '{m:02d}', 'd': '{d:02d}', 'y': '{y - y // 100 * 100:02d}', 'Y': '{y:04d}'}
        two = {'m': '{m:02d}', 'd': '{d:02d}', 'y': '{y - y // 100 * 100:02d}', 'Y': '{y - y // 100 * 100:02d}'}
        mk = '_td_utils._locale_data["d_format"] = %r\n_td_utils._locale_data["t_format"] = %r\nx = datetime(y, m, d, None, None, h, mi, se, us)' % ([sep] + order, [':', 'H', 'M', 'S'])
        ctx.equal('locale', 'text/' + nm, w.where('TimeDateUtils.x'), w, mk, ['x'],
                  [('%x', "x.strftime('%x')", "f'%s'" % sep.join(txt[c] for c in order)), ('%D', "x.strftime('%D')", "f'%s'" % sep.join(two[c] for c in order)),
                   ('%X', "x.strftime('%X')", "f'{h:02d}:{mi:02d}:{se:02d}'")], **b)
    ctx.equal('locale', 'order/odd', site, w, 'u = _td_utils', ['u'], [('default', "u._order_format('%d %b, %Y', '%m/%d/%y')", "['/', 'm', 'd', 'y']")])
