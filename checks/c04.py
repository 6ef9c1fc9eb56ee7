"""C04: replacing, splitting and recombining parts keeps every other part."""
from .lib import *
from . import entry as E
from .c02 import tz_model

NEW = dict(kull_i_shay=S('nk', 'int', -4, 3), vahid=S('nv', 'int', 1, 19), month=S('nm', 'int', 1, 19),
           day=S('nd', 'int', 1, 19), hour=S('nh', 'int', 0, 23), minute=S('nmi', 'int', 0, 59),
           second=S('ns', 'int', 0, 59), microsecond=S('nus', 'int', 0, 999999), fold=S('nfo', 'int', 0, 1),
           tzinfo=S('ntz', 'tz'))
YEAR = {'short': S('ny', 'int', -1842, 1161), 'long': S('ny', 'int', 1, 19)}
# fields that keep every replacement valid: no intercalary days, years in range
OLD = {'short': dict(y=E.Y, m=S('m', 'int', 1, 19), d=E.D),
       'long': dict(k=S('k', 'int', -4, 3), v=E.V_, yy=E.YY, m=S('m', 'int', 1, 19), d=E.D)}
FIELDS = {'short': ['year', 'month', 'day'], 'long': ['kull_i_shay', 'vahid', 'year', 'month', 'day']}
TIME = ['hour', 'minute', 'second', 'microsecond', 'tzinfo', 'fold']
TDEF = {'tzinfo': 'None', 'fold': '0'}


def lam(e, fields):
    return '(lambda x: (%s,))(%s)' % (', '.join('x.' + f for f in fields), e)


def run(ctx):
    ctx.explanation = (
        'replace() is interpreted on a symbolic object of each class and form, once per field, for every pair of fields and for '
        'no field; each public field of the result must be the new value where given and the term of the old '
        'field elsewhere. combine(), date(), time() and timetz() are interpreted the same way.')
    ctx.assumptions = ['the replaced date stays inside the calendar (no intercalary day, no range error)']
    ctx.rule('replace', 'replace() changes the named fields and nothing else')
    ctx.rule('form', 'replace() refuses a field of the other form')
    ctx.rule('split', 'date(), time(), timetz() give exactly those parts')
    ctx.rule('combine', 'combine() joins the parts it was given')
    w = ctx.world()
    TM = dict(E.TIME[1], tz=E.TZ, fo=E.FO)
    for z in ('tz', 'ntz'):
        tz_model(w, z, TD(scale(S('o' + z, 'int', -1439, 1439), 60000000)))
    # ---- replace
    for cls in ('date', 'datetime', 'time'):
        for form in (('short', 'long') if cls != 'time' else ('',)):
            if cls == 'time':
                args, fields, binds = 'h, mi, se, us, tz, fold=fo', list(TIME), dict(TM)
            else:
                args = {'short': 'y, m, d', 'long': 'k, v, yy, m, d'}[form]
                fields, binds = list(FIELDS[form]), dict(OLD[form])
                if cls == 'datetime':
                    args += (', None, None' if form == 'short' else '') + ', h, mi, se, us, tz, fold=fo'
                    fields += TIME
                    binds.update(TM)
            mk = 'a = %s(%s)' % (cls, args)
            old = lambda f: 'a.' + f
            sets = [()] + [(f,) for f in fields] + [tuple(fields)]
            sets += [(f, g) for i, f in enumerate(fields) for g in fields[i + 1:]]
            for ch in sets:
                nb = {'n_' + f: YEAR[form] if f == 'year' else NEW[f] for f in ch}
                call = 'a.replace(%s)' % ', '.join('%s=n_%s' % (f, f) for f in ch)
                pairs = [(f, 'x.' + f, ('n_' + f) if f in ch else old(f)) for f in fields]
                if cls != 'time':
                    pairs += [('is_short', 'x.is_short', 'a.is_short')]
                    n = 3 if form == 'short' else 5
                    pairs += [('b_date', 'x.b_date', '(%s)' % ', '.join('x.' + f for f in fields[:n]))]
                    if cls == 'datetime':
                        pairs += [('b_time', 'x.b_time', '(x.hour, x.minute, x.second, x.microsecond)')]
                pairs += [('type', 'type(x) is %s' % cls, 'True')]
                ctx.equal('replace', '%s%s/%s' % (cls, '-' + form if form else '', '+'.join(ch) or 'nothing' if len(ch) < 3 else 'all'),
                          w.where(cls + '.replace'), w, mk, ['a'], pairs, pre='x = ' + call, **binds, **nb)
            if cls != 'time' and form == 'short':
                for f in ('kull_i_shay', 'vahid'):
                    for v, nm in ((S('nk', 'int', -5, 19), 'any'),):
                        ctx.raises('form', '%s/short/%s' % (cls, f), w.where(cls + '.replace'), w, mk, ['a'],
                                   'a.replace(%s=q)' % f, ('ValueError',), q=v, **binds)
            # a field set to None or a timezone removed
            if cls != 'date':
                ctx.equal('replace', '%s%s/tzinfo=None' % (cls, '-' + form if form else ''), w.where(cls + '.replace'), w, mk, ['a'],
                          [('tzinfo', 'a.replace(tzinfo=None).tzinfo is None', 'True')] +
                          [(f, 'a.replace(tzinfo=None).' + f, 'a.' + f) for f in fields if f != 'tzinfo'], **binds)
    # ---- split
    for form in ('short', 'long'):
        args = 'y, m, d, None, None' if form == 'short' else 'k, v, yy, m, d'
        mk = 'a = datetime(%s, h, mi, se, us, tz, fold=fo)' % args
        DF, binds = FIELDS[form], dict(E.DATE[form][1], **TM)
        dp = [(f, 'a.date().' + f, 'a.' + f) for f in DF + ['is_short', 'b_date']] + [('type', 'type(a.date()) is date', 'True')]
        ctx.equal('split', form + '/date', w.where('datetime.date'), w, mk, ['a'], dp, **binds)
        for fn, tz in (('time', 'None'), ('timetz', 'a.tzinfo')):
            ctx.equal('split', form + '/' + fn, w.where('datetime.' + fn), w, mk, ['a'],
                      [(f, 'a.%s().%s' % (fn, f), tz if f == 'tzinfo' else 'a.' + f) for f in TIME] +
                      [('type', 'type(a.%s()) is time' % fn, 'True')], **binds)
        # ---- combine
        mk = 'p = date(%s)\nq = time(h, mi, se, us, tz, fold=fo)' % args.replace(', None, None', '')
        for nm, call, tz in (('default', 'datetime.combine(p, q)', 'tz'), ('tz', 'datetime.combine(p, q, ntz)', 'ntz'),
                             ('keyword', 'datetime.combine(p, q, tzinfo=ntz)', 'ntz'), ('none', 'datetime.combine(p, q, None)', 'None')):
            ctx.equal('combine', form + '/' + nm, w.where('datetime.combine'), w, mk, ['p', 'q'],
                      [(f, 'x.' + f, 'p.' + f) for f in DF + ['is_short', 'b_date']] +
                      [(f, 'x.' + f, tz if f == 'tzinfo' else 'q.' + f) for f in TIME] +
                      [('type', 'type(x) is datetime', 'True')], pre='x = ' + call, ntz=NEW['tzinfo'], **binds)
        mk = 'a = datetime(%s, h, mi, se, us, tz, fold=fo)' % args
        ctx.equal('combine', form + '/of-parts', w.where('datetime.combine'), w, mk, ['a'],
                  [(f, 'x.' + f, 'a.' + f) for f in DF + TIME + ['is_short', 'b_date', 'b_time']],
                  pre='x = datetime.combine(a.date(), a.timetz())', **binds)
        ctx.equal('combine', form + '/of-datetime', w.where('datetime.combine'), w, mk, ['a'],
                  [(f, 'x.' + f, 'a.' + f) for f in DF + TIME + ['is_short', 'b_date', 'b_time']],
                  pre='x = datetime.combine(a, a.timetz())', **binds)
    for nm, call in (('date', 'datetime.combine(5, q)'), ('time', 'datetime.combine(p, 5)')):
        ctx.raises('combine', 'type/' + nm, w.where('datetime.combine'), w, 'p = date(y, m, d)\nq = time(h, mi, se, us)', ['p', 'q'],
                   call, ('TypeError',), **dict(E.DATE['short'][1], **E.TIME[1]))
