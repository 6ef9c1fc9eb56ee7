"""C15: answers depend on the arguments, not on earlier calls or other threads."""
import ast
import os
import zlib
from time import time as now
from sa import effects
from .lib import *
from . import entry as E
from . import strp
from .c02 import tz_model
from .c12 import DATE_OPS, DT_OPS, TIME_OPS, TZ_OPS, DURATION, NEW

CONFIG = {'__init__.init_leap_cache', '__init__.set_local_coordinates', '__init__._locale_config'}
BASELINE = set(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'names.txt')).read().split())
VALUES = ('datetime', '_timedateutils', '_structures')
RECV = {'GregorianCalendar': 'c._gc', 'TimeDateUtils': 'u'}
RAISES = ('AssertionError', 'ValueError', 'OverflowError', 'TypeError')


def meaning(op):
    """opaque operations mean something arbitrary but fixed at a point."""
    if op == 'item':
        return lambda a, i: a[int(i)] if isinstance(a, tuple) else arbitrary(op, a, i)
    if op == 'hash':
        return lambda x: arbitrary(op, x)
    if op == 'round':
        return lambda x, n=0: Fraction(round(x * 10 ** int(n)), 10 ** int(n))
    if op.startswith(('fn.', 'math.', 'time.')):
        return lambda *a: Fraction(arbitrary(op, *a), 7)
    if op.startswith('raises.'):
        return lambda *a: arbitrary(op, *a) % 5 == 0


def plain(v):
    """one form for equal numbers."""
    return mknum(lin_parts(v)[0]) if isinstance(v, C) and isinstance(v.v, float) and lin_parts(v) is not None else v


def arbitrary(*a):
    return zlib.crc32(repr(tuple(norm(x) for x in a)).encode()) % 100003


def run(ctx):
    ctx.explanation = (
        'A field-based effect analysis of all functions finds the places (attributes, module names, defaults, tables of cached '
        'functions) that change after construction and who touches them. Every function touching one is interpreted on '
        'symbolic arguments twice from the same state: at first use, and after an arbitrary call of each function that writes '
        'the place (or two calls); the outcomes must be the same on every pair of paths. Then it is interpreted with every read of the place '
        'preceded by any store another thread can make. Functions that touch no such place are opaque functions of their '
        'arguments: they cannot depend on earlier calls.')
    ctx.assumptions = ['arithmetic is exact: rounding of binary floating point is not modelled', 'a store or a dictionary operation is one step (no torn values)']
    ctx.rule('history', 'the answer of a call is the same whatever was called before')
    ctx.rule('threads', 'the answer of a call is the same whatever other threads store while it runs')
    ctx.rule('effects', 'no function but the configuration changes what other functions read, or its answers were compared')
    funcs, mutable, init = effects.analyse(ctx.root)
    ctx.facts_['functions_with_effects'] = len(funcs)
    ctx.facts_['mutable_places'] = {'.'.join(p): sorted(ws) for p, ws in sorted(mutable.items())}
    fam, val = {}, {}
    for p, ws in sorted(mutable.items()):
        mods = {funcs[q].mod for q in ws}
        if ws <= CONFIG or mods == {'_strptime'}:
            ctx.ok('effects', '%s %s' % ('.'.join(p), 'set by the configuration' if ws <= CONFIG else 'of the parser'), '%s:%s' % (sorted(mods)[0], min(funcs[q].sites.get(p, 0) for q in ws)))
            continue
        t = touching(funcs, p)
        w = {q for q in t if q in ws or (funcs[q].calls & {funcs[x].name for x in closure(funcs, ws)})}
        rest = {q for q in t if q in BASELINE and q not in init}
        (val if mods & set(VALUES) else fam)[p] = (rest, w & rest, t)
    if fam:
        family(ctx, funcs, init, fam)
    if val:
        values(ctx, funcs, init, val)
    if not fam and not val:
        ctx.ok('effects', 'no place changes after construction')


def closure(funcs, qs):
    """functions that reach one of qs through functions that are not of the baseline."""
    out = set(qs)
    while True:
        names = {funcs[q].name for q in out if q.rstrip("'") not in BASELINE}
        more = {q for q, f in funcs.items() if q not in out and f.calls & names}
        if not more:
            return out
        out |= more


def touching(funcs, p):
    return closure(funcs, {q for q, f in funcs.items() if p in f.reads or p in f.writes})


# ------------------------------------------------------------ the calendars
def arity(node):
    """the length of the tuples a function returns, or None."""
    ns = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Return) and n.value is not None:
            ns.add(len(n.value.elts) if isinstance(n.value, ast.Tuple) and not any(isinstance(e, ast.Starred) for e in n.value.elts) else 0)
    return ns.pop() if len(ns) == 1 else 0


def pure(f):
    """hook: a function of its arguments alone."""
    ann = ast.unparse(f.node.returns) if f.node.returns is not None else ''
    raising = [n for n in ast.walk(f.node) if isinstance(n, (ast.Assert, ast.Raise))]

    def hook(I, fn, a, kw, h, fr):
        env = I.bind_args(fn, a, kw, h, fr) or {}
        t = [simp(v, h.st.facts) for k, v in sorted(env.items()) if k not in ('self', 'cls')]
        t = [plain(deref(v, h.st)) for v in t]
        if raising:
            I.maybe_raise(T('raises.' + fn.qual, *t, typ='bool'), h, fr, 'AssertionError' if isinstance(raising[0], ast.Assert) else 'ValueError')
        if ann == 'None':
            return NONE
        if ann == 'bool':
            return T('raises.b.' + fn.qual, *t, typ='bool')
        if ann.startswith('tuple') or arity(f.node):
            return Tup([T('fn.%s.%d' % (fn.qual, i), *t, typ='num') for i in range(arity(f.node) or 6)])
        return T('fn.' + fn.qual, *t, typ='int' if ann == 'int' else 'num')
    return hook


def shapes(f):
    """argument lists of a function: (label, source of the arguments, binds by prefix)."""
    a = f.node.args
    ps = a.posonlyargs + a.args
    if f.kind != 'staticmethod' and f.owner and ps:
        ps = ps[1:]
    nd = len(ps) - len(a.defaults)
    plist = [(p, a.defaults[i - nd] if i >= nd else None, False) for i, p in enumerate(ps)] + [(p, d, True) for p, d in zip(a.kwonlyargs, a.kw_defaults)]

    def kind(p, d):
        ann = ast.unparse(p.annotation) if p.annotation is not None else ''
        if ann == 'bool' or isinstance(d, ast.Constant) and isinstance(d.value, bool):
            return 'bool'
        if ann.startswith('tuple') or p.arg in ('b_date', 'date', 'g_date', 'hms'):
            return 'tuple'
        if ann == 'str' or isinstance(d, ast.Constant) and isinstance(d.value, str):
            return 'str'
        return 'int' if ann == 'int' else 'num'
    kinds = [(p.arg, kind(p, d), d, ko) for p, d, ko in plist]
    tups = [('short', 'y:-1842:1161 m:1:19 d:1:19'), ('time', 'y:-1842:1161 m:1:19 d:1:19 h:0:23 mi:0:59 se:0:59'), ('long', 'k:-4:4 v:1:19 yy:1:19 m:1:19 d:1:19')] \
        if any(k == 'tuple' for _, k, _, _ in kinds) else [('', '')]

    def make(pre, tup, full):
        args, b = [], {}
        for nm, k, d, ko in kinds:
            if d is not None and not full:
                continue
            n = '%s_%s' % (pre, nm)
            if k == 'bool':
                b[n] = S(n, 'bool')
            elif k == 'tuple':
                ns = []
                for x in tup.split():
                    x, lo, hi = x.split(':')
                    b['%s_%s' % (n, x)] = S('%s_%s' % (n, x), 'int', int(lo), int(hi))
                    ns.append('%s_%s' % (n, x))
                args.append(('%s=(%s)' if ko else '%.0s(%s)') % (nm, ', '.join(ns)))
                continue
            elif k == 'str':
                if d is None:
                    args.append("%s'LAT'" % ('%s=' % nm if ko else ''))
                continue
            else:
                b[n] = S(n, k, *((-4000, 4000) if k == 'int' else ()))
            args.append('%s=%s' % (nm, n) if ko else n)
        return ', '.join(args), b
    for label, tup in tups:
        for full in ([True, False] if any(d is not None for _, _, d, _ in kinds) else [True]):
            yield '/'.join(x for x in (label, 'all arguments' if full else 'defaults') if x), (lambda pre, tup=tup, full=full: make(pre, tup, full))


def family(ctx, funcs, init, places):
    w = ctx.world(mods=('badi_calendar', '_timedateutils') if 'TimeDateUtils' in {funcs[q].owner for t in places.values() for q in t[0]} else ('badi_calendar',))
    touch = set().union(*[t[2] for t in places.values()])
    mro = set(w.I.mro('BahaiCalendar'))
    for q, f in funcs.items():
        if f.owner and (f.owner in mro or f.owner in RECV) and q in BASELINE and q not in touch and q not in init and f.kind == 'method' and f.name not in INIT_HELP:
            w.I.opaque[q] = pure(f)
    setup = 'c = BahaiCalendar()' + ('\nu = TimeDateUtils()' if w.attr('badi_calendar', 'TimeDateUtils') else '')
    names = ['c'] + (['u'] if 'u =' in setup else [])
    done = set()
    for p, (rest, ws, t) in sorted(places.items()):
        inst0 = '.'.join(p)
        readers = sorted(q for q in rest)
        if not readers:
            ctx.unk('effects', inst0, '', 'no function of the interface touches the place')
        for q in readers:
            f = funcs[q]
            if f.owner is None or not (f.owner in mro or f.owner in RECV):
                ctx.unk('effects', '%s in %s' % (inst0, q), '%s:%d' % (f.mod, f.node.lineno), 'receiver unknown')
                continue
            site = 'badidatetime/%s.py:%d' % (f.mod, f.node.lineno)
            for lf, mf in shapes(f):
                fa, fb = mf('a')
                ce = call(f, fa, mro)
                for g in sorted(ws):
                    gf = funcs[g]
                    if gf.owner is None or not (gf.owner in mro or gf.owner in RECV):
                        continue
                    for lg, mg in shapes(gf):
                        if lf.split('/')[0] != lg.split('/')[0] and '/' in lf and '/' in lg:
                            continue
                        ga, gb = mg('b')
                        inst = '%s(%s) after %s(%s)' % (q, lf, g, lg)
                        if inst in done:
                            continue
                        done.add(inst)
                        ctx.defer(history, ctx, 'history', inst, site, w, setup, names, ce, [call(gf, ga, mro)], dict(fb, **gb))
                if q in ws:
                    x, xb = mf('b')
                    y, yb = mf('e')
                    inst = '%s(%s) after two calls' % (q, lf)
                    if inst not in done:
                        done.add(inst)
                        ctx.defer(history, ctx, 'history', inst, site, w, setup, names, ce, [call(f, x, mro), call(f, y, mro)], dict(fb, **xb, **yb))
                hist = []
                for g in sorted(ws):
                    for lg, mg in shapes(funcs[g]):
                        if lf.split('/')[0] != lg.split('/')[0] and '/' in lf and '/' in lg:
                            continue
                        if lg.endswith('defaults') and not odd_defaults(funcs[g]):
                            continue
                        ga, gb = mg('o')
                        hist.append((call(funcs[g], ga, mro), gb))
                inst = '%s(%s)' % (q, lf)
                if ('thr', inst) not in done and hist:
                    done.add(('thr', inst))
                    ctx.defer(threads, ctx, 'threads', inst, site, w, setup, names, ce, hist, fb)


def odd_defaults(f):
    """a default the symbolic arguments do not cover."""
    ds = f.node.args.defaults + [d for d in f.node.args.kw_defaults if d is not None]
    return any(isinstance(d, ast.Constant) and not isinstance(d.value, (bool, int, float)) for d in ds)


INIT_HELP = {'__init__', '__new__'}


def call(f, args, mro):
    r = 'c' if f.owner in mro else RECV.get(f.owner, 'c')
    return '%s.%s' % (r, f.name) if f.kind == 'property' else '%s.%s(%s)' % (r, f.name, args)


# ------------------------------------------------------------------ deciding
def observed(o):
    """what a caller sees of an outcome."""
    if o.kind == 'raise':
        return ('raise', o.val.cls if isinstance(o.val, Exc) else '?')
    return ('return', view(o.val, o.st))


def runs(ctx, w, st, env, src, b):
    judge.Limit.until = w.I.until = now() + 100
    judge.Clock.end = ctx.t0 + 600
    return w.run(src, st=st, **dict(env, **b))


def history(ctx, rule, inst, site, w, setup, names, expr, before, b):
    built = ctx.build(w, setup, names, None, None, **b)
    if built is None:
        return ctx.unk(rule, inst, site, 'entry objects not analysable')
    pre = '\n'.join('try:\n    %s\nexcept Exception:\n    pass' % s for s in before)
    compare(ctx, rule, inst, site, w, built, expr, pre, b, None, 'the answer depends on what was called before')


def compare(ctx, rule, inst, site, w, built, expr, pre, b, others, msg):
    st0, env = built
    try:
        first = runs(ctx, w, st0, env, 'return ' + expr, b)
    except (Giveup, RecursionError):
        return ctx.unk(rule, inst, site, 'analysis budget')
    if not first:
        return ctx.unk(rule, inst, site, 'no outcome')
    und = None
    for o in first:
        kind, va = observed(o)
        st = st0.copy()
        st.pc, st.facts = o.st.pc, o.st.facts
        w.I.others = others
        try:
            st.facts = o.st.facts
            again = w.run(pre + '\nreturn ' + expr, facts=o.st.facts, st=st, **dict(env, **b))
        except (Giveup, RecursionError):
            und = 'analysis budget'
            continue
        finally:
            w.I.others = None
        if not again:
            und = und or 'no outcome after the calls'
        for o2 in again:
            k2, vb = observed(o2)
            if kind == k2 == 'raise' and va == vb and va != '?':
                continue
            if kind == k2 == 'return' and judge.prove_eq(va, vb, o2.st.facts):
                continue
            if judge.prove_false(o2.st.pc, built[0].facts):
                continue
            both, u = kind == k2 == 'return', None
            left = []
            if settle(o2.st.pc, va if both else None, vb if both else None, built[0].facts, now() + 8, left):
                continue
            r = None
            for lits, x, y, trail in left[:4]:
                r, u = judge.inhabitant(lits, (lambda e: differ(e, x, y)) if both else (lambda e: True), ([x, y] if both else []) + [t for m in trail for t in m.values()],
                                        None, judge.Meaning(meaning), ctx.seed, frac=(Fraction(1, 4), Fraction(1, 2)))
                if r is not None:
                    for m in reversed(trail):
                        r.update({k.name: judge.Ev(r, judge.Meaning(meaning, judge.BASE_INTERP))(v) for k, v in m.items()})
                    e = judge.Ev(r, judge.Meaning(meaning, judge.BASE_INTERP))
                    try:
                        if all(e.bool(c) == p for c, p in o2.st.pc) and (not both or differ(e, va, vb)) and all(within(s, r) for s in judge.symbols(*[c for c, _ in o2.st.pc], *([va, vb] if both else [])).values()):
                            break
                    except judge.Unknown:
                        pass
                    r, u = None, 'point not confirmed'
            if r is not None:
                loc = o2.val.loc if k2 == 'raise' and isinstance(o2.val, Exc) else ''
                return ctx.bad(rule, inst, '%s%s' % (loc and loc + ' <- ', site), '%s: %s, alone %s' % (
                    msg, 'raises %s' % vb if k2 == 'raise' else 'another value', 'raises %s' % va if kind == 'raise' else 'a value'), r)
            und = und or 'not related: %s' % (u or 'no distinguishing point')
            if DEBUG:
                print('UND', inst, und, '\n  ', str(va)[:600], '\n  ', str(vb)[:600], '\n  pc', str(o2.st.pc)[:900])
    ctx.add(rule, inst, 'undetermined' if und else 'discharged', site, und or '')


def stores(ctx, w, built, src, b, extra=()):
    """the stores a call makes to objects that existed before it. -> ({place: [...]}, reason or None)"""
    st0, env = built
    out, und = {}, None
    try:
        outs = runs(ctx, w, st0, env, 'try:\n    %s\nexcept Exception:\n    pass' % src, b)
    except (Giveup, RecursionError):
        return out, 'analysis budget'
    n0, p0 = len(st0.events), len(st0.pc)
    for o in outs:
        named = set()
        for ev in o.st.events[n0:]:
            kind, oid, key, v, loc, pc, held = ev[:7]
            if kind == 'setglobal':
                oid, kind, = ('mod', oid), 'setattr'
            if kind not in ('setattr', 'setitem', 'mutate') or oid not in st0.heap:
                continue
            named.add(oid)
            if held:
                continue
            if kind == 'mutate' or v is None or isinstance(v, Ref) and v.oid not in st0.heap:
                und = 'store at %s' % loc
                continue
            item = ('attr' if kind == 'setattr' else 'item', key, v, tuple(pc[p0:]), tuple(b.values()) + (extra if oid in w.st.heap else ()))
            l = out.setdefault(oid, [])
            if item not in l:
                l.append(item)
        for oid, ob in st0.heap.items():
            n = o.st.heap.get(oid)
            if oid[0] == 'cache' and n is not ob and isinstance(n.items, dict) and oid not in named:
                for k, v in n.items.items():
                    if k not in (ob.items or {}):
                        item = ('item', k, v, tuple(o.st.pc[p0:]), tuple(b.values()) + extra)
                        l = out.setdefault(oid, [])
                        if item not in l:
                            l.append(item)
    return out, und


def threads(ctx, rule, inst, site, w, setup, names, expr, hist, b, extra=()):
    built = ctx.build(w, setup, names, None, None, **b)
    if built is None:
        return ctx.unk(rule, inst, site, 'entry objects not analysable')
    others, und = {}, None
    for src, gb in hist:
        got, u = stores(ctx, w, built, src, gb, extra)
        und = und or u
        for k, l in got.items():
            cur = others.setdefault(k, [])
            cur += [x for x in l if x not in cur]
    if und:
        return ctx.unk(rule, inst, site, 'other threads: ' + und)
    compare(ctx, rule, inst, site, w, built, expr, '', b, others, 'the answer depends on what another thread stores meanwhile')


def within(s, r):
    x = r.get(s.name)
    return s.kind not in ('int', 'num') or x is not None and (s.lo is None or x >= s.lo) and (s.hi is None or x <= s.hi) and (s.kind == 'num' or x == int(x))


# ------------------------------------------------------------ case analysis
def atoms(f):
    if isinstance(f, T) and f.op in ('and', 'or', 'not'):
        for x in f.args:
            yield from atoms(x)
    elif isinstance(f, Ite):
        yield from atoms(f.c)
        yield from atoms(f.a)
        yield from atoms(f.b)
    elif isinstance(f, T):
        yield f


def conditions(v):
    for x in walk(v):
        if isinstance(x, Ite):
            yield from atoms(x.c)


def settle(lits, va, vb, F, until, left=None, trail=(), depth=0):
    """va equals vb wherever the literals hold (None, None: they never hold), by splitting on
    the conditions and replacing what an equation determines. Cases not settled go to `left`."""
    known = {}
    lits = list(lits)
    while True:
        if now() > until:
            return False
        todo, lits, eqs = lits, [], None
        while todo:
            f, pol = todo.pop()
            f = simp(f, F)
            if isinstance(f, C):
                if bool(f.v) != pol:
                    return True
                continue
            if isinstance(f, T) and f.op == 'not':
                todo.append((f.args[0], not pol))
            elif isinstance(f, T) and f.op == ('and' if pol else 'or'):
                todo += [(x, pol) for x in f.args]
            else:
                k = (f, pol)
                if known.get(f, pol) != pol:
                    return True
                known[f] = pol
                if isinstance(f, T) and f.op == 'eq0' and pol and eqs is None:
                    eqs = determined(f)
                    if eqs is not None:
                        continue
                if k not in lits:
                    lits.append(k)
        if eqs is None:
            m = {f: C(p) for f, p in known.items() if isinstance(f, T)}
            new = []
            for f, p in lits:
                memo = {g: c for g, c in m.items() if g != f}
                new.append((subst(f, {}, F, memo), p))
            if va is not None:
                va, vb = subst(va, {}, F, dict(m)), subst(vb, {}, F, dict(m))
            if new == lits:
                break
            lits = new
            known = {}
        else:
            memo = {}
            lits = [(subst(f, eqs, F, memo), p) for f, p in lits]
            if va is not None:
                va, vb = subst(va, eqs, F, memo), subst(vb, eqs, F, memo)
            known = {}
            trail += (eqs,)
    if va is not None and judge.prove_eq(simp(va, F), simp(vb, F), F):
        return True
    if judge.prove_false(lits, F):
        return True
    if depth > 40:
        return False
    done = {f for f, _ in lits if isinstance(f, T) and f.op not in ('and', 'or')}
    pick = next((a for f, _ in lits for a in atoms(f) if a not in done), None)
    if pick is None and va is not None:
        pick = next((a for v in (va, vb) for a in conditions(v) if a not in done), None)
    if pick is None:
        if left is not None:
            left.append((lits, va, vb, trail))
        return False
    return all([settle(lits + [(pick, p)], va, vb, F, until, left, trail, depth + 1) for p in (True, False) if not left or len(left) < 6])


def determined(f):
    """the replacement an equation allows."""
    p = lin_parts(f.args[0])
    if not p:
        return None
    for s, k in sorted(p[1].items(), key=lambda x: str(x[0])):
        if isinstance(s, S) and abs(k) == 1 and not any(y is not s and s in set(walk(y)) for y in p[1]):
            rest = mk_lin(-p[0] / k, {y: -c / k for y, c in p[1].items() if y is not s})
            return {s: rest}
    return None


# ------------------------------------------------------------------ values
DUNDER = {'Eq': '__eq__', 'NotEq': '__eq__', 'Lt': '__lt__', 'LtE': '__le__', 'Gt': '__gt__', 'GtE': '__ge__', 'In': '__eq__', 'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__'}
CALLS = {'hash': '__hash__', 'str': '__str__', 'repr': '__repr__', 'format': '__format__', 'date': '__new__', 'time': '__new__', 'datetime': '__new__', 'timezone': '__new__', 'TZWithCoords': '__new__'}
NUMS = dict(n=S('n', 'int', 78, 1097267), t=S('t', 'num'), q=S('q', 'int', -1439, 1439), c=S('c', 'int', 1, 1161))
PARSE = ["date.fromisoformat(f'{c:04d}-{m:02d}-{d:02d}')", "date.fromisoformat(f'{c:04d}-{m:02d}-{d:02d}', short=False)", "datetime.fromisoformat(f'{c:04d}-{m:02d}-{d:02d}T{h:02d}:{mi:02d}:{se:02d}.{us:06d}+03:30')",
         "datetime.fromisoformat(f'{c:04d}-{m:02d}-{d:02d}T{h:02d}:{mi:02d}')", "time.fromisoformat(f'T{h:02d}:{mi:02d}:{se:02d}')", 'date.fromordinal(n)', 'date.fromordinal(n, short=False)', 'datetime.fromordinal(n)',
         'date.fromtimestamp(t)', 'date.fromtimestamp(t, short=False)', 'datetime.fromtimestamp(t)', 'datetime.fromtimestamp(t, UTC)', 'datetime.fromtimestamp(t, BADI, short=False)', 'datetime.fromtimestamp(t, tz)',
         'date.fromisocalendar(c, m, 3)', 'timezone(timedelta(minutes=q))', "timezone(timedelta(minutes=q), 'X')", 'date(y, m, d)', 'datetime(y, m, d, None, None, h, mi, se, us, tz)', 'time(h, mi, se, us, tz)',
         'datetime.combine(date(y, m, d), time(h, mi, se, us, tz))', 'datetime.combine(date(y, m, d), time(h, mi, se, us))']


def kinds():
    """(name, constructor source with %s for the prefix of its symbols, symbols, operations)."""
    T1 = dict(E.TIME[1], h=E.H23, fo=E.FO)
    out = []
    for form, args in (('short', 'y{p}, m{p}, d{p}'), ('long', 'k{p}, v{p}, yy{p}, m{p}, d{p}')):
        b = dict(E.DATE[form][1], m=S('m', 'int', 1, 19))
        out.append(('date/' + form, 'date(%s)' % args, b, DATE_OPS + WEEKS))
        for z in ('naive', 'aware'):
            out.append(('datetime/%s/%s' % (form, z), 'datetime(%s%s, h{p}, mi{p}, se{p}, us{p}, %s, fold=fo{p})' % (args, ', None, None' if form == 'short' else '', 'None' if z == 'naive' else 'tz{p}'),
                        dict(b, **T1), DT_OPS + WEEKS))
    for z in ('naive', 'aware'):
        out.append(('time/' + z, 'time(h{p}, mi{p}, se{p}, us{p}, %s, fold=fo{p})' % ('None' if z == 'naive' else 'tz{p}'), T1, TIME_OPS))
    q = dict(q=S('q', 'int', -1439, 1439))
    tz_ops = [o for o in TZ_OPS if not re.search(r'\b[ab]\b', o)]
    out.append(('timezone', 'timezone(timedelta(minutes=q{p}))', q, tz_ops))
    out.append(('timezone/any', 'timezone(timedelta(microseconds=q{p}))', dict(q=S('q', 'int', -86399999999, 86399999999)), tz_ops))
    out.append(('timezone/name', "timezone(timedelta(minutes=q{p}), 'A')", q, tz_ops))
    out.append(('TZWithCoords', "TZWithCoords(1.5, 2.5, q{p} / 60, key='A/B')", q, tz_ops))
    return out


def renamed(b, p):
    return {k + p: (S(v.name + p, v.kind, v.lo, v.hi) if isinstance(v, S) else v) for k, v in b.items()}


def uses(op):
    """names an operation calls or reads."""
    out = set()
    for n in ast.walk(ast.parse(op)):
        if isinstance(n, ast.Attribute):
            out.add(n.attr)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
            out.add(CALLS.get(n.func.id, n.func.id))
        elif isinstance(n, (ast.Compare, ast.BinOp)):
            for o in getattr(n, 'ops', None) or [n.op]:
                d = DUNDER.get(type(o).__name__, '')
                out |= {d, d.replace('__', '__r', 1)} if d in ('__add__', '__sub__', '__mul__') else {d}
    return out


def reaches(funcs, memo, op, t):
    k = frozenset(uses(op))
    if k not in memo:
        memo[k] = effects.reach(funcs, k)
    return bool(memo[k] & t)


def ordinal(I, fn, a, kw, h, fr):
    return T('fn.od', *[plain(simp(deref(x, h.st), h.st.facts)) for x in a[-3:]], typ='int')


def from_ordinal(I, fn, a, kw, h, fr):
    sh = kw.get('short', a[2] if len(a) > 2 else C(False))
    fields = ('y', 'm', 'd') if isinstance(sh, C) and sh.v else ('k', 'v', 'z', 'm', 'd')
    return Tup(T('fn.n' + x, plain(simp(deref(a[1], h.st), h.st.facts)), typ='int') for x in fields)


def number(name, typ='num'):
    return lambda I, fn, a, kw, h, fr: T('fn.' + name, *[plain(simp(deref(x, h.st), h.st.facts)) for x in a if not isinstance(x, Ref)], typ=typ)


def date_of_jd(I, fn, a, kw, h, fr):
    t = bdate_tuple()(I, fn, a, kw, h, fr)
    env = I.bind_args(fn, a, kw, h, fr) or {}
    args = [plain(deref(simp(v, h.st.facts), h.st)) for k, v in sorted(env.items()) if k != 'self']
    return Tup(T('fn.b' + x.name, *args, typ='int') for x in t.items) if isinstance(t, Tup) else t


# day numbers: functions of the fields and back, whatever they are
WEEKS = ["x.strftime('%U %u')", "x.strftime('%V %G')"]
SUN = {n: number(n) for n in ('_get_day_coeff', '_sun_setting', '_sun_rising', '_meeus_from_exact', '_exact_from_meeus', 'midday')}
SUN.update(_days_in_years=number('_days_in_years', 'int'), badi_date_from_jd=date_of_jd)
DAYS = {'_ymd2ord': ordinal, '_ord2ymd': from_ordinal}


def values(ctx, funcs, init, places):
    w = strp.world(ctx)
    for name, hook in dict(SUN, **DAYS).items():
        w.I.opaque[name] = hook
    tz_model(w, 'tz', TD(scale(S('o1', 'int', -1439, 1439), 60000000)))
    tz_model(w, 'tz2', TD(scale(S('o2', 'int', -1439, 1439), 60000000)))
    w.st.heap[('mod', 'datetime')] = w.st.heap[('mod', 'datetime')].setattr('LOCAL_COORD', Tup((S('lat'), S('lon'), S('zone'))))
    for q in set().union(*[t for _, _, t in places.values()]):
        w.I.opaque.pop(funcs[q].name, None)
        w.I.opaque.pop(q, None)
    ks = kinds()
    memo, seen = {}, set()
    touch = {funcs[q].name for p, (_, _, t) in places.items() for q in t if q not in init or p in funcs[q].shared | funcs[q].deep}
    touched = probe_all(ctx, w, funcs, places, ks, touch)
    first, later, cross = [], [], []
    hidden = {p[1] for p in places if p[0] == 'attr'}, touch
    for p, (rest, ws, t) in sorted(places.items()):
        inst0 = '.'.join(p)
        found = 0
        for name, mk, b, ops in ks:
            mine = [o for o in dict.fromkeys(ops) if re.search(r'\bx\b', o) and reaches(funcs, memo, o, t)]
            found += len(mine)
            mine = [o for o in mine if touched.get((name, o), True)]
            for op in mine:
                site = w.where('.'.join([name.split('/')[0], op.split('(')[0].split('.')[-1]])) or w.where(name.split('/')[0])
                base = dict(b, tz=E.TZ, p=TD(DURATION), **NEW)
                hist = [('%s of another' % op, 'y', op), ('%s and of another' % op, 'xy', op)]
                hist += [('%s' % o2, 'x', o2) for o2 in mine if o2 != op]
                hist += [('%s of %s' % (op, n2), n2, op) for n2, m2, b2, ops2 in ks if n2 != name and op in ops2 and touched.get((n2, op), True)]
                for lbl, who, src in hist:
                    inst = '%s: %s after %s' % (name, op, lbl)
                    if inst in seen:
                        continue
                    seen.add(inst)
                    n2, m2, b2, _ = next(k for k in ks if k[0] == (name if who in ('x', 'y', 'xy') else who))
                    binds = dict(base, **renamed(dict(b2, tz=E.TZ), '2'))
                    binds.update({k: S(v.name + '2', v.kind, v.lo, v.hi) for k, v in {'nd2': NEW['nd'], 'nm2': NEW['nm'], 'nh2': NEW['nh']}.items()})
                    setup = 'x = %s\ny = %s' % (mk.format(p=''), m2.format(p='2'))
                    before = src if who == 'x' else re.sub(r'\b(nd|nm|nh)\b(?!=)', r'\g<1>2', swap(src))
                    (first if who in ('y', 'xy') else later if who == 'x' else cross).append((ctx, 'history', inst, site, w, setup, ['x', 'y'], op, ([src] if who == 'xy' else []) + [before], binds, hidden))
                inst = 'threads/%s: %s' % (name, op)
                if inst not in seen:
                    seen.add(inst)
                    binds = dict(base)
                    shared = [(re.sub(r'\b(nd|nm|nh)\b(?!=)', r'\g<1>2', o2 if s else swap(o2)), renamed(NEW, '2')) for o2 in ([op] + [o for o in mine if o != op][:3]) for s in (True, False)]
                    binds.update(renamed(dict(b, tz=E.TZ), '2'))
                    setup = 'x = %s\ny = %s' % (mk.format(p=''), mk.format(p='2'))
                    first.append((ctx, 'threads', inst, site, w, setup, ['x', 'y'], op, shared, dict(binds, **renamed(NEW, '2')), hidden, tuple(renamed(b, '2').values())))
        bm = dict(E.DATE['short'][1], m=S('m', 'int', 1, 19), tz=E.TZ, **NUMS)
        bm.update(E.TIME[1], h=E.H23)
        mine = [o for o in PARSE if reaches(funcs, memo, o, t)]
        for op in mine:
            found += 1
            site = w.where(op.split('(')[0]) or ''
            for o2 in mine:
                if o2.split('(')[0].split('.')[-1] != op.split('(')[0].split('.')[-1]:
                    continue
                inst = 'make %s after %s' % (op, o2)
                if inst in seen:
                    continue
                seen.add(inst)
                ren = re.sub(r'(?<![\w.\'])(y|m|d|h|mi|se|us|n|t|q|c|tz)\b(?!=)', r'\g<1>2', o2)
                first.append((ctx, 'history', inst, site, w, 'z = 0', ['z'], op, [ren], dict(bm, **renamed(bm, '2')), hidden))
        if not found:
            ctx.unk('effects', inst0, '', 'no operation is known to touch the place')
    groups = {}
    for a in first + later + cross:
        if DEBUG and os.environ.get('SA_ONLY', '') not in a[2]:
            continue
        l = groups.setdefault((a[2].split(' after ')[0].replace('threads/', '')), [])
        l.append((len(l), a))
    for _, a in sorted([x for l in groups.values() for x in l], key=lambda x: x[0]):
        ctx.defer(vone, *a)


def probe_all(ctx, w, funcs, places, ks, touch):
    """{(kind, operation): some path of it reaches a place that changes}."""
    memo, n0 = {}, len(ctx.obls)
    ctx.flush()
    reach = set().union(*[t for _, _, t in places.values()])
    keep = ctx.obls[:]
    for name, mk, b, ops in ks:
        for op in dict.fromkeys(ops):
            if re.search(r'\bx\b', op) and reaches(funcs, memo, op, reach):
                base = dict(b, tz=E.TZ, p=TD(DURATION), **NEW)
                setup, names = 'x = ' + mk.format(p=''), ['x']
                if re.search(r'\by\b', op):
                    setup, names = setup + '\ny = ' + mk.format(p='2'), ['x', 'y']
                    base.update(renamed(dict(b, tz=E.TZ), '2'))
                ctx.defer(probe, ctx, name, op, w, setup, names, base, touch)
    ctx.flush()
    new = ctx.obls[len(keep):]
    ctx.obls[:] = keep
    out = {}
    for o in new:
        key = tuple(o.inst.split('|', 1))
        if len(key) == 2:
            out[key] = o.status != 'discharged'
    for (name, op), t in out.items():
        if not t:
            ctx.ok('history', '%s: %s reaches no place that changes' % (name, op))
    return out


def probe(ctx, name, op, w, setup, names, b, touch):
    View.touch = touch
    built = ctx.build(w, setup, names, None, None, **b)
    free = built is not None and untouched(ctx, w, built, op, b)
    ctx.add('history', '%s|%s' % (name, op), 'discharged' if free else 'undetermined', '', '')


def swap(src):
    """the operation on y instead of x."""
    return re.sub(r'\b[xy]\b', lambda m: 'y' if m.group() == 'x' else 'x', src)


def vone(ctx, rule, inst, site, w, setup, names, expr, hist, b, hidden, *more):
    View.hidden, View.touch = hidden
    if now() > ctx.t0 + (900 if ctx.thorough else 330):
        return ctx.unk(rule, inst, site, 'time')
    (threads if rule == 'threads' else history)(ctx, rule, inst, site, w, setup, names, expr, hist, b, *more)


def untouched(ctx, w, built, expr, b):
    seen, w.I.fn_seen = w.I.fn_seen, set()
    try:
        outs = runs(ctx, w, built[0], built[1], 'return ' + expr, b)
    except (Giveup, RecursionError):
        return False
    finally:
        mine, w.I.fn_seen = w.I.fn_seen, seen | w.I.fn_seen
    return bool(outs) and not {q.split('.')[-1] for q in mine} & View.touch


class View:
    hidden = frozenset()   # attributes a caller cannot see
    touch = frozenset()    # names of the functions that touch a place that changes


def view(v, st, depth=0):
    """a value as a caller can see it: objects made by the call by their fields."""
    if isinstance(v, Tup):
        return Tup(view(i, st, depth + 1) for i in v.items)
    if isinstance(v, Ite):
        return ite(v.c, view(v.a, st, depth + 1), view(v.b, st, depth + 1))
    if not isinstance(v, Ref) or depth > 5:
        return v
    o = st.heap.get(v.oid)
    if o is None or o.kind not in ('list', 'inst'):
        return v
    items = [C(str(o.cls))]
    if isinstance(o.items, tuple):
        items += [view(i, st, depth + 1) for i in o.items]
    if o.kind == 'inst':
        for k, x in sorted(o.attrs.items()):
            if k in View.hidden:
                continue
            if isinstance(x, Ref) and st.heap.get(x.oid) is not None and st.heap[x.oid].kind == 'dict':
                continue
            items.append(Tup([C(k), view(x, st, depth + 1)]))
    return Tup(items)
