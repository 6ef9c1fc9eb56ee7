"""C06: adding and subtracting durations."""
import zlib
from .lib import *
from . import entry as E
from .c02 import tz_model

OMIN, OMAX = 78, 1097267


def ordmodel(w):
    """ordinals are an opaque bijection: od(ymd(n)) = n; the calendar fields of
    day n are fresh symbols in their ranges."""
    names = {}

    def to(I, fn, a, kw, h, fr):
        y = a[-3]
        if isinstance(y, S) and y.name.startswith('ny@'):
            return names[y.name]
        if isinstance(y, Lin):
            for x in y.t:
                if isinstance(x, S) and x.name.startswith('nk@'):
                    return names[x.name]
        return S('od@%08x' % zlib.crc32('|'.join(rk(x) for x in a[-3:]).encode()), 'int', OMIN, OMAX)

    def frm(I, fn, a, kw, h, fr):
        n = a[-1]
        sh = kw.get('short', C(False))
        i = '%08x' % zlib.crc32(rk(n).encode())
        names['ny@' + i] = names['nk@' + i] = n
        if isinstance(sh, C) and sh.v:
            return Tup((S('ny@' + i, 'int', -1842, 1161), S('nm@' + i, 'int', 1, 19), S('nd@' + i, 'int', 1, 19)))
        return Tup((S('nk@' + i, 'int', -4, 3), S('nv@' + i, 'int', 1, 19), S('nz@' + i, 'int', 1, 19),
                    S('nm@' + i, 'int', 1, 19), S('nd@' + i, 'int', 1, 19)))
    w.I.opaque['_ymd2ord'] = to
    w.I.opaque['_ord2ymd'] = frm


def run(ctx):
    ctx.explanation = (
        'date and datetime addition and subtraction are interpreted with symbolic operands and a symbolic '
        'duration in microseconds; ordinals are an opaque bijection between days and day numbers. The result '
        'must denote the start plus the duration, carry the form and the timezone of its operand, and '
        'OverflowError must be raised exactly when the day number leaves the calendar.')
    ctx.assumptions = ['toordinal and fromordinal are inverse on day numbers %d..%d' % (OMIN, OMAX),
                       'timezone offsets are whole minutes and do not depend on the datetime']
    ctx.rule('add', 'x + p and x - p denote the day and time p later or earlier, in the form of x')
    ctx.rule('range', 'OverflowError exactly when the day number leaves the calendar')
    ctx.rule('diff', 'x - y is the duration from y to x')
    ctx.rule('inverse', '(x + p) - x == p and (x + p) - p == x')
    ctx.rule('type', 'other operands are refused')
    w = ctx.world()
    ordmodel(w)
    o1, o2 = S('o1', 'int', -1439, 1439), S('o2', 'int', -1439, 1439)
    tz_model(w, 'tz', TD(scale(o1, 60000000)))
    tz_model(w, 'tz2', TD(scale(o2, 60000000)))
    td = TD(S('tdus', 'int', -10**17, 10**17))
    DS, DL = E.DATE['short'][1], E.DATE['long'][1]
    T1 = E.TIME[1]
    B = {**DS, **DL}
    DATES = {'short': 'date(y, m, d)', 'long': 'date(k, v, yy, m, d)'}
    DTS = {'short': 'y, m, d, None, None', 'long': 'k, v, yy, m, d'}
    site = w.where('date.__add__')
    ops = (('a + p', 'p', ''), ('p + a', 'p', ''), ('a - p', '-p', '-'))
    for form, cons in DATES.items():
        mk = 'a = ' + cons
        for op, dp, sg in ops:
            ctx.equal('add', 'date/%s/%s' % (form, op.replace(' ', '')), site, w, mk, ['a'],
                      [('form', 'x.is_short', str(form == 'short')), ('type', 'type(x) is date', 'True'),
                       ('day', 'x.toordinal()', 'a.toordinal() + (%sp.days)' % sg)],
                      pre='x = ' + op, allow=('OverflowError',), p=td, **B)
            ctx.equal('range', 'date/%s/%s' % (form, op.replace(' ', '')), site, w, mk, ['a'],
                      [('overflow', 'r', 'not %d <= a.toordinal() + (%sp.days) <= %d' % (OMIN, sg, OMAX))],
                      pre='try:\n    x = %s\n    r = False\nexcept OverflowError:\n    r = True' % op, p=td, **B)
        ctx.equal('inverse', 'date/%s' % form, site, w, mk, ['a'],
                  [('diff', '(a + p) - a', 'timedelta(p.days)'), ('back', '((a + p) - timedelta(p.days)).toordinal()', 'a.toordinal()')],
                  allow=('OverflowError',), p=td, **B)
        for op in ('a + 5', '5 + a', 'a - 5', 'a + a', "a + 'x'", '5 - a'):
            ctx.raises('type', 'date/%s/%s' % (form, op.replace(' ', '')), site, w, mk, ['a'], op, ('TypeError',), **B)
    # ---- differences of dates
    from .c02 import sym2
    DATES2 = {'short': 'date(y2, m2, d2)', 'long': 'date(k2, v2, yy2, m2, d2)'}
    DTS2 = {'short': 'y2, m2, d2, None, None', 'long': 'k2, v2, yy2, m2, d2'}
    B2 = sym2(B)
    T2 = sym2(T1)
    site = w.where('date.__sub__')
    for f1 in DATES:
        for f2 in DATES:
            ctx.equal('diff', 'date/%s-%s' % (f1, f2), site, w, 'a = %s\nb = %s' % (DATES[f1], DATES2[f2]), ['a', 'b'],
                      [('days', 'a - b', 'timedelta(a.toordinal() - b.toordinal())'), ('anti', 'a - b', '-(b - a)'),
                       ('add', '(b + (a - b)).toordinal()', 'a.toordinal()')], **B, **B2)
    # ---- date-times
    site = w.where('datetime.__add__')
    tot = 'timedelta({0}.toordinal(), {0}.hour*3600 + {0}.minute*60 + {0}.second, {0}.microsecond)'
    for form, cons in DTS.items():
        for nm, tz in (('naive', 'None'), ('aware', 'tz')):
            mk = 'a = datetime(%s, h, mi, se, us, %s, fold=fo)' % (cons, tz)
            b = dict(p=td, tz=E.TZ, fo=E.FO, **B, **T1)
            for op, dp, sg in ops:
                lab = 'datetime/%s/%s/%s' % (form, nm, op.replace(' ', ''))
                ctx.equal('add', lab, site, w, mk, ['a'],
                          [('form', 'x.is_short', str(form == 'short')), ('type', 'type(x) is datetime', 'True'),
                           ('tz', 'x.tzinfo', tz), ('instant', tot.format('x'), tot.format('a') + ' + (%s)' % dp),
                           ('fields', '0 <= x.hour < 24 and 0 <= x.minute < 60 and 0 <= x.second < 60 and 0 <= x.microsecond < 1000000', 'True')],
                          pre='x = ' + op, allow=('OverflowError',), **b)
                ctx.equal('range', lab, site, w, mk, ['a'],
                          [('overflow', 'r', 'not timedelta(%d) <= %s + (%s) < timedelta(%d)' % (OMIN, tot.format('a'), dp, OMAX + 1))],
                          pre='try:\n    x = %s\n    r = False\nexcept OverflowError:\n    r = True' % op, **b)
            ctx.equal('inverse', 'datetime/%s/%s' % (form, nm), site, w, mk, ['a'],
                      [('diff', '(a + p) - a', 'p')],
                      allow=('OverflowError',), **b)
        mk = 'a = datetime(%s, h, mi, se, us)' % cons
        for op in ('a + 5', '5 + a', 'a - 5', 'a + a', "a + 'x'", '5 - a'):
            ctx.raises('type', 'datetime/%s/%s' % (form, op.replace(' ', '')), site, w, mk, ['a'], op, ('TypeError',), **B, **T1)
    site = w.where('datetime.__sub__')
    for f1 in DTS:
        for f2 in DTS:
            z = dict(tz=E.TZ, tz2=S('tz2', 'tz'), o1=o1, o2=o2, fo=E.FO, **B, **B2, **T1, **T2)
            for nm, za, zb, corr in (('naive', 'None', 'None', ''), ('same-tz', 'tz', 'tz', ''),
                                     ('two-tz', 'tz', 'tz2', ' - timedelta(minutes=o1) + timedelta(minutes=o2)')):
                ctx.equal('diff', 'datetime/%s-%s/%s' % (f1, f2, nm), site, w,
                          'a = datetime(%s, h, mi, se, us, %s, fold=fo)\nb = datetime(%s, h2, mi2, se2, us2, %s)' % (DTS[f1], za, DTS2[f2], zb),
                          ['a', 'b'], [('instants', 'a - b', '%s - %s%s' % (tot.format('a'), tot.format('b'), corr)),
                                       ('anti', 'a - b', '-(b - a)')], **z)
            for x, y in (('a', 'b'), ('b', 'a')):
                ctx.raises('type', 'datetime/%s-%s/naive-aware/%s-%s' % (f1, f2, x, y), site, w,
                           'a = datetime(%s, h, mi, se, us, fold=fo)\nb = datetime(%s, h2, mi2, se2, us2, tz2)' % (DTS[f1], DTS2[f2]),
                           ['a', 'b'], '%s - %s' % (x, y), ('TypeError',), **z)
