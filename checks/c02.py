"""C02: equality, hashing and ordering agree with each other."""
from .lib import *
from . import entry as E

REL = [('eq', '=='), ('ne', '!='), ('lt', '<'), ('le', '<='), ('gt', '>'), ('ge', '>=')]


def rels(ka, kb, ops=REL):
    return [(n, 'a %s b' % op, '%s %s %s' % (ka, op, kb)) for n, op in ops]


def sym2(b):
    """second, independent copy of the entry symbols."""
    out = {}
    for n, s in b.items():
        if isinstance(s, S) and s.kind == 'int':
            out[n + '2'] = S(s.name + '2', 'int', s.lo, s.hi)
    return out


def tz_model(w, name, off):
    """a tzinfo whose offset is a fixed whole number of minutes."""
    w.I.sym_methods[name] = {
        'utcoffset': lambda I, obj, args, kw, h, fr: off,
        'dst': lambda I, obj, args, kw, h, fr: NONE,
        '*classes': ('tzinfo', 'object')}


def ordinals(w):
    """the day number of a date is an opaque function of year, month, day."""
    def hook(I, fn, args, kw, h, fr):
        a = args[-3:]
        return T('ymd2ord', *a, typ='int')
    w.I.opaque['_ymd2ord'] = hook


def day_no(y, m, d):
    y, m, d = int(y), int(m), int(d)
    n = (m - 1) * 19 if 1 <= m <= 18 else 342 if m == 0 else 347
    return 366 * y + n + d


INTERP = {'ymd2ord': day_no}


def run(ctx):
    ctx.explanation = (
        'Two symbolic objects of each class are compared through the public operators; the six '
        'relations are interpreted abstractly and must be propositionally equivalent, gate by gate, '
        'to the relations of the day (and time) keys; objects with equal keys must have hash terms '
        'with one normal form. Forms (short, long), naive/aware and mixed classes are partitions.')
    ctx.assumptions = ['timezone offsets are whole minutes and do not depend on the datetime',
                       'day numbers of calendar dates are an arbitrary function of (year, month, day), ordered as the dates are']
    ctx.rule('order', 'the six relations equal the relations of the chronological keys')
    ctx.rule('hash', 'objects that compare equal hash equal')
    ctx.rule('mixed', 'unequal kinds are unequal and ordering them raises TypeError')
    w = ctx.world()
    ordinals(w)
    # ---- dates
    site = w.where('date._cmp') or w.where('date.__lt__')
    keys = {'short': '(y, m or 18.5, d)', 'long': '(361*(k - 1) + 19*(v - 1) + yy, m or 18.5, d)'}
    keys2 = {'short': '(y2, m2 or 18.5, d2)', 'long': '(361*(k2 - 1) + 19*(v2 - 1) + yy2, m2 or 18.5, d2)'}
    args2 = {f: ', '.join(n + '2' for n in E.DATE[f][0].split(', ')) for f in E.DATE}
    for f1 in E.DATE:
        for f2 in E.DATE:
            b = dict(E.DATE[f1][1], **sym2(E.DATE[f2][1]))
            setup = 'a = date(%s)\nb = date(%s)' % (E.DATE[f1][0], args2[f2])
            ctx.equal('order', 'date/%s-%s' % (f1, f2), site, w, setup, ['a', 'b'],
                      rels(keys[f1], keys2[f2]), interp=INTERP, **b)
    YL = '361*(k - 1) + 19*(v - 1) + yy'
    hs = w.where('date.__hash__')
    ctx.equal('hash', 'date/short-short', hs, w, 'a = date(y, m, d)\nb = date(y, m, d)', ['a', 'b'],
              [('hash', 'hash(a)', 'hash(b)'), ('eq', 'a == b', 'True')], **E.DATE['short'][1])
    ctx.equal('hash', 'date/long-short', hs, w, 'a = date(k, v, yy, m, d)\nb = date(%s, m, d)' % YL, ['a', 'b'],
              [('hash', 'hash(a)', 'hash(b)'), ('eq', 'a == b', 'True'), ('ge', 'a >= b', 'True'), ('lt', 'b < a', 'False')], **E.DATE['long'][1])
    ctx.equal('hash', 'date/stable', hs, w, 'a = date(y, m, d)\nn = hash(a)', ['a', 'n'],
              [('again', 'hash(a)', 'n')], **E.DATE['short'][1])
    # ---- times
    off1, off2 = S('o1', 'int', -1439, 1439), S('o2', 'int', -1439, 1439)
    t1, t2 = S('tz1', 'tz'), S('tz2', 'tz')
    tz_model(w, 'tz1', TD(scale(off1, 60000000)))
    tz_model(w, 'tz2', TD(scale(off2, 60000000)))
    T1 = dict(E.TIME[1])
    T2 = sym2(T1)
    site, hs = w.where('time._cmp') or w.where('time.__lt__'), w.where('time.__hash__')
    k1, k2 = '(h, mi, se, us)', '(h2, mi2, se2, us2)'
    f = dict(fo=E.FO, fo2=S('fo2', 'int', 0, 1))
    ctx.equal('order', 'time/naive', site, w, 'a = time(h, mi, se, us, fold=fo)\nb = time(h2, mi2, se2, us2, fold=fo2)',
              ['a', 'b'], rels(k1, k2), **T1, **T2, **f)
    ctx.equal('order', 'time/same-tz', site, w, 'a = time(h, mi, se, us, tz, fold=fo)\nb = time(h2, mi2, se2, us2, tz, fold=fo2)',
              ['a', 'b'], rels(k1, k2), tz=t1, **T1, **T2, **f)
    q1, q2 = '(h*60 + mi - o1, se, us)', '(h2*60 + mi2 - o2, se2, us2)'
    ctx.equal('order', 'time/two-tz', site, w, 'a = time(h, mi, se, us, tz, fold=fo)\nb = time(h2, mi2, se2, us2, tz2, fold=fo2)',
              ['a', 'b'], [(n, 'a %s b' % op, '((%s %s %s) if o1 == o2 else (%s %s %s))' % (k1, op, k2, q1, op, q2)) for n, op in REL], tz=t1, tz2=t2, o1=off1, o2=off2, **T1, **T2, **f)
    mk = 'a = time(h, mi, se, us, fold=fo)\nb = time(h2, mi2, se2, us2, tz, fold=fo2)'
    mixed(ctx, w, 'time/naive-aware', site, mk, dict(tz=t1, **T1, **T2, **f), ('<', '<=', '>', '>='))
    ok = 'if not -1440 < o1 + t2 - t < 1440:\n    raise ValueError\n'
    TT, TT2 = S('t', 'int', 0, 1439), S('t2', 'int', 0, 1439)
    shift = dict(t=TT, t2=TT2, o1=off1, se=E.SE, us=E.US, tz=t1, tz3=S('tz3', 'tz'), **f)
    tz_model(w, 'tz3', TD(scale(add(off1, sub(TT2, TT)), 60000000)))
    ctx.equal('hash', 'time/naive', hs, w, 'a = time(h, mi, se, us, fold=fo)\nb = time(h, mi, se, us, fold=fo2)', ['a', 'b'],
              [('hash', 'hash(a)', 'hash(b)'), ('eq', 'a == b', 'True')], **T1, **f)
    ctx.equal('hash', 'time/instant', hs, w,
              ok + 'a = time(t // 60, t % 60, se, us, tz, fold=fo)\nb = time(t2 // 60, t2 % 60, se, us, tz3, fold=fo2)', ['a', 'b'],
              [('hash', 'hash(a)', 'hash(b)'), ('eq', 'a == b', 'True')], **shift)
    # ---- datetimes
    site, hs = w.where('datetime._cmp') or w.where('datetime.__lt__'), w.where('datetime.__hash__')
    forms = {'short': 'y, m, d, None, None', 'long': 'k, v, yy, m, d'}
    forms2 = {'short': 'y2, m2, d2, None, None', 'long': 'k2, v2, yy2, m2, d2'}
    for f1, f2 in (('short', 'short'), ('long', 'long'), ('short', 'long'), ('long', 'short')):
        b = dict(E.DATE[f1][1], **sym2(E.DATE[f2][1]))
        ka, kb = keys[f1] + ' + ' + k1, keys2[f2] + ' + ' + k2
        for nm, tz in (('naive', 'None'), ('same-tz', 'tz')):
            mk = ('a = datetime(%s, h, mi, se, us, %s, fold=fo)\nb = datetime(%s, h2, mi2, se2, us2, %s, fold=fo2)'
                  % (forms[f1], tz, forms2[f2], tz))
            ctx.equal('order', 'datetime/%s-%s/%s' % (f1, f2, nm), site, w, mk, ['a', 'b'],
                      rels(ka, kb), interp=INTERP, tz=t1, **T1, **T2, **b, **f)
        mk = ('a = datetime(%s, h, mi, se, us, tz, fold=fo)\nb = datetime(%s, h2, mi2, se2, us2, tz2, fold=fo2)'
              % (forms[f1], forms2[f2]))
        ya = 'y' if f1 == 'short' else YL
        yb = 'y2' if f2 == 'short' else '361*(k2 - 1) + 19*(v2 - 1) + yy2'
        ins = lambda y, m, d, s, o: '(((_td_utils._ymd2ord(%s, %s, %s)*1440 + h%s*60 + mi%s - %s)*60 + se%s)*1000000 + us%s)' % (
            y, m, d, s, s, o, s, s)
        ia, ib = ins(ya, 'm', 'd', '', 'o1'), ins(yb, 'm2', 'd2', '2', 'o2')
        pairs = [(n, 'a %s b' % op, '((%s %s %s) if o1 == o2 else (%s %s %s))' % (ka, op, kb, ia, op, ib)) for n, op in REL]
        ctx.equal('order', 'datetime/%s-%s/two-tz' % (f1, f2), site, w, mk, ['a', 'b'], pairs, interp=INTERP,
                  tz=t1, tz2=t2, o1=off1, o2=off2, **T1, **T2, **b, **f)
        if f1 == f2 == 'short':
            mk = ('a = datetime(%s, h, mi, se, us, fold=fo)\nb = datetime(%s, h2, mi2, se2, us2, tz, fold=fo2)'
                  % (forms[f1], forms2[f2]))
            mixed(ctx, w, 'datetime/naive-aware', site, mk, dict(tz=t1, **T1, **T2, **b, **f), ('<', '<=', '>', '>='))
    DS, DL = E.DATE['short'][1], E.DATE['long'][1]
    ctx.equal('hash', 'datetime/naive', hs, w,
              'a = datetime(y, m, d, None, None, h, mi, se, us, fold=fo)\nb = datetime(y, m, d, None, None, h, mi, se, us, fold=fo2)',
              ['a', 'b'], [('hash', 'hash(a)', 'hash(b)'), ('eq', 'a == b', 'True')], **DS, **T1, **f)
    ctx.equal('hash', 'datetime/long-short', hs, w,
              'a = datetime(k, v, yy, m, d, h, mi, se, us, fold=fo)\nb = datetime(%s, m, d, None, None, h, mi, se, us, fold=fo2)' % YL,
              ['a', 'b'], [('hash', 'hash(a)', 'hash(b)'), ('eq', 'a == b', 'True')], **DL, **T1, **f)
    ctx.equal('hash', 'datetime/instant', hs, w,
              ok + 'a = datetime(y, m, d, None, None, t // 60, t % 60, se, us, tz, fold=fo)\n'
              'b = datetime(y, m, d, None, None, t2 // 60, t2 % 60, se, us, tz3, fold=fo2)', ['a', 'b'],
              [('hash', 'hash(a)', 'hash(b)'), ('eq', 'a == b', 'True')], interp=INTERP, **DS, **shift)
    ctx.equal('hash', 'datetime/instant-long', hs, w,
              (ok + 'a = datetime(k, v, yy, m, d, t // 60, t %% 60, se, us, tz, fold=fo)\n'
              'b = datetime(%s, m, d, None, None, t2 // 60, t2 %% 60, se, us, tz3, fold=fo2)').replace('%s', YL).replace('%%', '%'), ['a', 'b'],
              [('hash', 'hash(a)', 'hash(b)'), ('eq', 'a == b', 'True')], interp=INTERP, **DL, **shift)
    # ---- kinds
    mk = 'a = date(y, m, d)\nb = datetime(y2, m2, d2, None, None, h, mi, se, us)'
    bb = dict(DS, **sym2(DS), **T1)
    mixed(ctx, w, 'date-datetime', w.where('datetime.__eq__'), mk, bb, ('<', '<=', '>', '>='))
    for cls, mk, bb in (('date', 'a = date(y, m, d)\nb = 5', DS), ('time', 'a = time(h, mi, se, us)\nb = 5', T1),
                        ('datetime', 'a = datetime(y, m, d, None, None, h, mi, se, us)\nb = 5', dict(DS, **T1))):
        mixed(ctx, w, cls + '-int', w.where(cls + '.__eq__'), mk, bb, ('<', '<=', '>', '>='))
    # ---- timezones
    off = TD(S('off', 'int', -86340000000, 86340000000))
    offb = TD(S('offb', 'int', -86340000000, 86340000000))
    site = w.where('timezone.__eq__')
    ctx.equal('order', 'timezone', site, w, "a = timezone(p, 'A')\nb = timezone(q, 'B')", ['a', 'b'],
              [('eq', 'a == b', 'p == q'), ('ne', 'a != b', 'p != q')], p=off, q=offb)
    ctx.equal('hash', 'timezone', w.where('timezone.__hash__'), w, "a = timezone(p, 'A')\nb = timezone(p, 'B')", ['a', 'b'],
              [('hash', 'hash(a)', 'hash(b)')], p=off)


def mixed(ctx, w, inst, site, mk, binds, ops):
    ctx.equal('mixed', inst, site, w, mk, ['a', 'b'],
              [('eq', 'a == b', 'False'), ('ne', 'a != b', 'True'), ('eqr', 'b == a', 'False')], **binds)
    for x, y in (('a', 'b'), ('b', 'a')):
        for op in ops:
            ctx.raises('mixed', '%s:%s%s%s' % (inst, x, op, y), site, w, mk, ['a', 'b'],
                       '%s %s %s' % (x, op, y), ('TypeError',), **binds)
