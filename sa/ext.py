"""Models of the builtins and standard-library operations the package uses.

Unmodelled operations yield Top carrying the names of the entry symbols the
arguments depend on; nothing is ever executed on behalf of the package other
than pure builtin operations on compile-time constants."""
import math
from fractions import Fraction
from .values import *
from .dom import *
from . import interp as I_
from .interp import (Exc, HObj, Holder, cells, cells_int, as_tup, is_strlike,
                     EXC_BASES, BUILTIN_TYPES, _has_undef, _undef_f, _defined, symkeys)

DAY = 86_400_000_000
TDU = {'days': DAY, 'seconds': 10 ** 6, 'microseconds': 1, 'milliseconds': 1000,
       'minutes': 60 * 10 ** 6, 'hours': 3600 * 10 ** 6, 'weeks': 7 * DAY}
TD_CONST = {'datetime.timedelta.resolution': 1,
            'datetime.timedelta.max': 999999999 * DAY + DAY - 1,
            'datetime.timedelta.min': -999999999 * DAY}
PURE_MATH = {'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2', 'radians',
             'degrees', 'sqrt', 'fmod', 'pow', 'exp', 'log', 'copysign'}


def ext_attr(I, name):
    if name in TD_CONST:
        return TD(C(TD_CONST[name]))
    if name in ('math.pi', 'math.inf', 'math.e'):
        return C(getattr(math, name.split('.')[1]))
    if name in ('re.IGNORECASE', 're.I'):
        return C(2)
    if name in I.ext_const:
        return I.ext_const[name]
    return None


def tyname(v, st):
    """class name of a value, or None when unknown."""
    if isinstance(v, C):
        if isinstance(v.v, Fraction):
            return 'float'
        return 'NoneType' if v.v is None else type(v.v).__name__
    if isinstance(v, S):
        return {'int': 'int', 'num': 'float', 'str': 'str', 'bool': 'bool',
                'td': 'timedelta', 'tz': 'tzinfo', 'dict': 'dict', 'obj': 'object'}.get(v.kind)
    if isinstance(v, Ref):
        o = st.heap[v.oid]
        return o.cls if o.kind == 'inst' else o.kind
    if isinstance(v, Tup):
        return 'tuple'
    if isinstance(v, TD):
        return 'timedelta'
    if isinstance(v, Bts):
        return 'bytes'
    if is_strlike(v):
        return 'str'
    if is_bool(v):
        return 'bool'
    if is_int(v):
        return 'int'
    if isinstance(v, Lin):
        return 'float'
    if isinstance(v, T) and v.typ == 'num':
        return None
    if isinstance(v, (ClsV,)):
        return 'type'
    if isinstance(v, Ext):
        return 'type' if v.name in BUILTIN_TYPES or v.name in EXC_BASES else None
    if isinstance(v, FnV):
        return 'function'
    if isinstance(v, Exc):
        return v.cls
    if isinstance(v, ModV):
        return 'module'
    return None


def isinst(I, v, k, h, fr):
    st = h.st
    if v.has_ite():
        v = simp(v, st.facts)
    if isinstance(v, Ite):
        return ite(v.c, isinst(I, v.a, k, h, fr), isinst(I, v.b, k, h, fr))
    if isinstance(k, Ite):
        return ite(k.c, isinst(I, v, k.a, h, fr), isinst(I, v, k.b, h, fr))
    if isinstance(k, Tup):
        return disj(*[isinst(I, v, x, h, fr) for x in k.items])
    if isinstance(k, T) and k.op == 'bor':
        return disj(*[isinst(I, v, x, h, fr) for x in k.args])
    if isinstance(k, ClsV):
        n = k.name
    elif isinstance(k, Ext):
        n = k.name.split('.')[-1]
    else:
        return T('isinst', v, k)
    t = tyname(v, st)
    if t is None:
        if isinstance(v, T) and v.typ == 'num' and n in ('str', 'tuple', 'bytes', 'list', 'dict', 'timedelta', 'tzinfo', 'NoneType'):
            return FALSE
        if isinstance(v, Top):
            I.uid += 1
            return T('choice', ('isinst', id(v), n, tuple(sorted(v.deps))))
        return T('isinst', v, k)
    if t == n or n == 'object':
        return TRUE
    if t == 'bool' and n == 'int':
        return TRUE
    if t in I.classes:
        return C(n in I.mro(t))
    if t in EXC_BASES:
        return C(n in EXC_BASES[t])
    if isinstance(v, S) and v.kind == 'tz':
        hs = I.sym_methods.get(v.name) or I.sym_methods.get('tz') or {}
        return C(n in hs.get('*classes', ('tzinfo',)))
    if isinstance(v, S) and v.kind == 'obj':
        return FALSE
    return FALSE


def floor_(I, x, h):
    F = h.st.facts
    return I.lift_num(x, lambda y: fdiv(y, C(1), F) if not is_int(y) else y, F)


def numeric_gate(I, x, F, f):
    return I.lift_num(x, f, F)


def call_ext(I, name, args, kw, h, fr):
    st = h.st
    F = st.facts
    hk = I.ext_hooks.get(name)
    if hk is not None:
        return hk(I, name, args, kw, h, fr)
    # distribute gates over non-numeric arguments
    for i, a in enumerate(args):
        if a.has_ite():
            a = simp(a, F)
            args = list(args)
            args[i] = a
        if isinstance(a, Ite) and not (is_numeric(a) and name not in
                                       ('len', 'hash', 'str', 'repr', 'type', 'float')) and name != 'isinstance':
            return I.over_ite(a, h, fr, lambda y, hh: call_ext(
                I, name, list(args[:i]) + [y] + list(args[i + 1:]), kw, hh, fr))
    f = FUNCS.get(name)
    if f is not None:
        return f(I, args, kw, h, fr)
    if name.startswith('math.'):
        n = name[5:]
        if n in PURE_MATH:
            if all(isnum(a) for a in args):
                try:
                    return C(getattr(math, n)(*[float(a.v) for a in args]))
                except (ValueError, OverflowError):
                    I.raise_(h, fr, 'ValueError')
            if any(isinstance(a, Top) for a in args):
                return I.top(name, *args)
            return T(name, *args, typ='num')
    last = name.split('.')[-1]
    if last in EXC_BASES:
        return Exc(last, tuple(args))
    if name.endswith('.__init__'):
        o = args[0] if args else None
        if isinstance(o, Ref) and name == 'dict.__init__':
            d = {}
            if len(args) > 1 and isinstance(args[1], Ref) and isinstance(st.heap[args[1].oid].items, dict):
                d.update(st.heap[args[1].oid].items)
            h.st.heap[o.oid] = st.heap[o.oid].with_items(d)
        return NONE
    if name.endswith('.__new__'):
        base = name[:-8]
        cls = args[0]
        if isinstance(cls, ClsV):
            oid = I.new_id('inst')
            items = None
            if 'tuple' in I.mro(cls.name):
                xs = I.iterate(args[1], h, fr) if len(args) > 1 else []
                items = tuple(xs) if xs is not None else I.top('tuple.__new__', args[1])
            elif 'dict' in I.mro(cls.name):
                items = {}
            h.st.heap[oid] = HObj('inst', cls.name, {}, items)
            return Ref(oid)
        return I.top(name, *args)
    return I.top('ext ' + name, *args, *kw.values())


def need1(f):
    def g(I, args, kw, h, fr):
        if any(isinstance(a, Top) for a in args[:1]):
            return I.top(f.__name__, *args)
        return f(I, args, kw, h, fr)
    g.__name__ = f.__name__
    return g


@need1
def f_len(I, args, kw, h, fr):
    v = args[0]
    st = h.st
    I.seen(v, h, fr)
    t = as_tup(v, st)
    if t is not None:
        return C(len(t))
    if isinstance(v, C):
        try:
            return C(len(v.v))
        except TypeError:
            I.raise_(h, fr, 'TypeError')
    if isinstance(v, Str):
        return C(len(v.cells))
    if isinstance(v, Bts):
        return C(len(v.items))
    if isinstance(v, Ref):
        o = st.heap[v.oid]
        if isinstance(o.items, tuple):
            return C(len(o.items))
        if isinstance(o.items, dict) and not any(_has_undef(x) for x in o.items.values()) and (len(o.items) < 2 or not symkeys(o.items)):
            return C(len(o.items))
        if isinstance(o.items, dict) and not symkeys(o.items):
            r = C(0)
            for x in o.items.values():
                r = I.binop('Add', r, ite(_undef_f(x), C(0), C(1)), h, fr)
            return r
        if o.kind == 'inst' and I.find_attr(st, o.cls, '__len__')[0] is not None:
            return I.call_method(v, '__len__', [], h, fr)
    if is_numeric(v) or isinstance(v, TD):
        I.raise_(h, fr, 'TypeError')
    return T('len', v, typ='int')


def f_isinstance(I, args, kw, h, fr):
    return isinst(I, args[0], args[1], h, fr)


def f_issubclass(I, args, kw, h, fr):
    a, b = args
    if isinstance(a, ClsV):
        ks = b.items if isinstance(b, Tup) else (b,)
        return C(any((k.name if isinstance(k, ClsV) else k.name.split('.')[-1]) in I.mro(a.name)
                     for k in ks if isinstance(k, (ClsV, Ext))))
    import builtins
    ks = b.items if isinstance(b, Tup) else (b,)
    ts = [getattr(builtins, k.name, None) if isinstance(k, Ext) else None for k in (a,) + tuple(ks)]
    if all(isinstance(t, type) for t in ts):
        return C(issubclass(ts[0], tuple(ts[1:])))
    return I.top('issubclass', *args)


@need1
def f_int(I, args, kw, h, fr):
    if not args:
        return C(0)
    x = args[0]
    F = h.st.facts
    if len(args) > 1:
        if all(isinstance(a, C) for a in args):
            try:
                return C(int(x.v, args[1].v))
            except (ValueError, TypeError):
                I.raise_(h, fr, 'ValueError')
        return I.top('int', *args)
    if isinstance(x, C):
        try:
            return C(int(x.v))
        except ValueError:
            I.raise_(h, fr, 'ValueError')
        except TypeError:
            I.raise_(h, fr, 'TypeError')
        except OverflowError:
            I.raise_(h, fr, 'OverflowError')
    cs = cells(x)
    if cs is not None:
        sg = 1
        while cs and isinstance(cs[0], str) and cs[0].isspace():
            cs = cs[1:]
        while cs and isinstance(cs[-1], str) and cs[-1].isspace():
            cs = cs[:-1]
        if cs and cs[0] in ('-', '+'):
            sg = -1 if cs[0] == '-' else 1
            cs = cs[1:]
        r = cells_int(cs, F) if cs else None
        if r is None:
            I.raise_(h, fr, 'ValueError')
        return scale(r, sg)
    if isinstance(x, (Tup, TD, Ref)):
        I.raise_(h, fr, 'TypeError')
    if is_int(x):
        return x
    if is_numeric(x) or isinstance(x, (Lin,)):
        def tr(y):
            if is_int(y):
                return y
            lo, hi = rng(y, F)
            if lo is not None and lo >= 0:
                return fdiv(y, C(1), F)
            if hi is not None and hi <= 0:
                r = fdiv(scale(y, -1), C(1), F)
                return None if r is None else scale(r, -1)
            a, b = fdiv(y, C(1), F), fdiv(scale(y, -1), C(1), F)
            return ite(lt0(y), scale(b, -1), a)
        r = I.lift_num(x, tr, F)
        if r is not None:
            return r
    return T('int', x, typ='int')


@need1
def f_float(I, args, kw, h, fr):
    x = args[0] if args else C(0.0)
    F = h.st.facts
    if isinstance(x, C):
        if isinstance(x.v, Fraction):
            return x
        try:
            return C(float(x.v))
        except ValueError:
            I.raise_(h, fr, 'ValueError')
        except TypeError:
            I.raise_(h, fr, 'TypeError')
    cs = cells(x)
    if cs is not None:
        sg = 1
        while cs and isinstance(cs[0], str) and cs[0].isspace():
            cs = cs[1:]
        while cs and isinstance(cs[-1], str) and cs[-1].isspace():
            cs = cs[:-1]
        if cs and cs[0] in ('-', '+'):
            sg = -1 if cs[0] == '-' else 1
            cs = cs[1:]
        ip, fp = cs, ()
        if '.' in cs:
            i = cs.index('.')
            ip, fp = cs[:i], cs[i + 1:]
        a = cells_int(ip, F) if ip else C(0)
        b = cells_int(fp, F) if fp else C(0)
        if a is None or b is None:
            I.raise_(h, fr, 'ValueError')
        return scale(add(a, scale(b, Fraction(1, 10 ** len(fp)))), sg)
    if is_numeric(x):
        return x
    return T('float', x, typ='num')


def f_str(I, args, kw, h, fr):
    if not args:
        return C('')
    if len(args) > 1:
        return I.top('str', *args)
    return I.str_(args[0], h, fr)


def f_repr(I, args, kw, h, fr):
    return I.repr_(args[0], h, fr)


def f_format(I, args, kw, h, fr):
    return I.format_(args[0], args[1] if len(args) > 1 else C(''), h, fr)


def f_tuple(I, args, kw, h, fr):
    if not args:
        return Tup(())
    def go(v, hh):
        xs = I.iterate(v, hh, fr, soft=True)
        if xs is None:
            return I.top('tuple', *_cont(I, v, hh))
        return Tup(xs)
    return I.over_ite(args[0], h, fr, go)


def _cont(I, v, h):
    if isinstance(v, Ref):
        o = h.st.heap[v.oid]
        if isinstance(o.items, V):
            return [o.items]
        if isinstance(o.items, dict):
            return [x for kv in o.items.items() for x in kv if isinstance(x, V)]
        return [x for x in (o.items or ()) if isinstance(x, V)]
    return [v]


def f_list(I, args, kw, h, fr):
    if not args:
        return I.new_list(h.st, ())
    xs = I.iterate(args[0], h, fr, soft=True)
    if xs is None:
        oid = I.new_id('list')
        h.st.heap[oid] = HObj('list', items=I.top('list', *_cont(I, args[0], h)))
        return Ref(oid)
    return I.new_list(h.st, xs)


def f_set(I, args, kw, h, fr):
    xs = I.iterate(args[0], h, fr, soft=True) if args else []
    if xs is None:
        return I.top('set', *args)
    oid = I.new_id('set')
    out = []
    for x in xs:
        if x not in out:
            out.append(x)
    h.st.heap[oid] = HObj('set', items=tuple(out))
    return Ref(oid)


def f_dict(I, args, kw, h, fr):
    d = {}
    if args:
        o = args[0]
        if isinstance(o, Ref) and isinstance(h.st.heap[o.oid].items, dict):
            d.update(h.st.heap[o.oid].items)
        else:
            xs = I.iterate(o, h, fr, soft=True)
            if xs is None or any(not isinstance(x, Tup) or len(x.items) != 2 for x in xs):
                return I.top('dict', *args)
            for x in xs:
                d[x.items[0]] = x.items[1]
    for k, v in kw.items():
        d[C(k)] = v
    return I.new_dict(h.st, d)


def f_range(I, args, kw, h, fr):
    a = list(args)
    if len(a) == 1:
        a = [C(0), a[0], C(1)]
    elif len(a) == 2:
        a = a + [C(1)]
    return T('range', *a)


def _minmax(which):
    def f(I, args, kw, h, fr):
        xs = list(args)
        if len(xs) == 1:
            xs = I.iterate(xs[0], h, fr, soft=True)
        if not xs or kw:
            return I.top(which, *args)
        if any(isinstance(x, Top) for x in xs):
            return I.top(which, *xs)
        r = xs[0]
        for x in xs[1:]:
            c = I.truth(I.compare('Lt', x, r, h, fr), h, fr) if which == 'min' else \
                I.truth(I.compare('Gt', x, r, h, fr), h, fr)
            r = ite(c, x, r)
        return r
    f.__name__ = which
    return f


@need1
def f_abs(I, args, kw, h, fr):
    x = args[0]
    F = h.st.facts
    if isinstance(x, C):
        return C(abs(x.v))
    if isinstance(x, TD):
        r = f_abs(I, [x.us], {}, h, fr)
        return TD(r)
    if lin_parts(x) is None:
        return I.top('abs', x)

    def ab(y):
        lo, hi = rng(y, F)
        if lo is not None and lo >= 0:
            return y
        if hi is not None and hi <= 0:
            return scale(y, -1)
        c = lt0(y)
        return ite(c, scale(y, -1), y)
    return I.lift_num(x, ab, F) or I.top('abs', x)


def f_divmod(I, args, kw, h, fr):
    a, b = args
    if isinstance(a, Top) or isinstance(b, Top):
        t = I.top('divmod', a, b)
        return Tup((t, t))
    return Tup((I.binop('FloorDiv', a, b, h, fr), I.binop('Mod', a, b, h, fr)))


@need1
def f_round(I, args, kw, h, fr):
    x = args[0]
    n = args[1] if len(args) > 1 else kw.get('ndigits', NONE)
    F = h.st.facts
    if isinstance(x, C) and isinstance(n, C):
        if isinstance(x.v, Fraction):
            try:
                r = round(x.v, n.v) if n.v is not None else round(x.v)
                return mknum(Fraction(r))
            except TypeError:
                pass
        else:
            try:
                return C(round(x.v, n.v)) if n.v is not None else C(round(x.v))
            except TypeError:
                I.raise_(h, fr, 'TypeError')
    if isinstance(n, C):
        k = 0 if n.v is None else int(n.v)

        def rd(y):
            s = scale(y, Fraction(10) ** k)
            if s is not None and is_int(s):
                return y
            p = lin_parts(s) if s is not None else None
            if p is not None and p[1] and all(is_int(a) for a in p[1]):
                d = p[0].denominator if isinstance(p[0], Fraction) else 1
                for q in p[1].values():
                    d = math.lcm(d, Fraction(q).denominator)
                n2 = add(scale(s, 2 * d), C(d))          # half to even, exactly
                r = fdiv(n2, C(2 * d), F)
                if d % 2 == 0 and r is not None:
                    r = I.lift_num(mod(n2, C(2 * d), F), lambda z: ite(
                        conj(eq0(z), neg(eq0(mod(r, C(2), F)))), sub(r, C(1)), r), F)
                if r is not None:
                    return scale(r, Fraction(10) ** -k)
            return T('round', y, C(k), typ='int' if k <= 0 else 'num')
        r = I.lift_num(x, rd, F) if is_numeric(x) or lin_parts(x) is not None else None
        if r is not None:
            return r
    return T('round', x, n, typ='num')


def f_bytes(I, args, kw, h, fr):
    if not args:
        return C(b'')
    xs = I.iterate(args[0], h, fr, soft=True)
    if xs is None:
        return I.top('bytes', *args)
    for x in xs:
        if is_numeric(x):
            F = h.st.facts
            bad = disj(lift(x, lt0, F) or FALSE, lift(sub(C(255), x), lt0, F) or FALSE)
            I.maybe_raise(bad, h, fr, 'ValueError')
    if all(isinstance(x, C) for x in xs):
        try:
            return C(bytes(int(x.v) for x in xs))
        except (ValueError, TypeError):
            I.raise_(h, fr, 'ValueError')
    return Bts(xs)


def f_ord(I, args, kw, h, fr):
    if isinstance(args[0], C):
        try:
            return C(ord(args[0].v))
        except TypeError:
            I.raise_(h, fr, 'TypeError')
    if isinstance(args[0], Bts):
        if len(args[0].items) != 1:
            I.raise_(h, fr, 'TypeError')
        return args[0].items[0]
    return T('ord', args[0], typ='int')


def f_hash(I, args, kw, h, fr):
    x = args[0]
    if isinstance(x, Ref) and h.st.heap[x.oid].kind == 'inst':
        ob = h.st.heap[x.oid]
        m, _ = I.find_attr(h.st, ob.cls, '__hash__')
        if m is not None:
            return I.call_method(x, '__hash__', [], h, fr)
    if isinstance(x, Top):
        return I.top('hash', x)
    t = as_tup(x, h.st)
    if t is not None:
        x = Tup(hashable(I, y, h, fr) for y in t)
    return T('hash', x, typ='int')


def hashable(I, y, h, fr):
    if isinstance(y, Ref) and h.st.heap[y.oid].kind == 'inst' and h.st.heap[y.oid].items is None:
        return f_hash(I, [y], {}, h, fr)
    t = as_tup(y, h.st)
    if t is not None:
        return Tup(hashable(I, z, h, fr) for z in t)
    return y


SENT = C('\0sentinel')


def f_hasattr(I, args, kw, h, fr):
    o, n = args
    if isinstance(n, C):
        r = I.getattr(o, n.v, h, fr, default=SENT)
        if r == SENT:
            return FALSE
        if isinstance(r, Top):
            return T('hasattr', o, n)
        if isinstance(o, BM) or isinstance(o, T):
            return T('hasattr', o, n)
        return TRUE
    return T('hasattr', o, n)


def f_getattr(I, args, kw, h, fr):
    o, n = args[:2]
    if isinstance(n, C) and isinstance(n.v, str):
        return I.getattr(o, n.v, h, fr, default=args[2] if len(args) > 2 else None)
    return I.top('getattr', *args)


def f_setattr(I, args, kw, h, fr):
    o, n, v = args
    if isinstance(n, C):
        I.setattr(o, n.v, v, h, fr)
    return NONE


def f_type(I, args, kw, h, fr):
    x = args[0]
    if isinstance(x, Ref) and h.st.heap[x.oid].kind == 'inst':
        return ClsV(h.st.heap[x.oid].cls)
    t = tyname(x, h.st)
    if t is None or isinstance(x, S) and x.kind in ('tz', 'obj', 'any'):
        return T('type', x)
    if t in I.classes:
        return ClsV(t)
    if t == 'timedelta':
        return Ext('datetime.timedelta')
    return Ext(t)


def f_any(I, args, kw, h, fr):
    xs = I.iterate(args[0], h, fr, soft=True)
    if xs is None:
        return T('choice', ('any', I.new_id('c')[1], tuple(sorted(set().union(*[deps(x) for x in _cont(I, args[0], h)]) if _cont(I, args[0], h) else ()))))
    return disj(*[I.truth(x, h, fr) for x in xs])


def f_all(I, args, kw, h, fr):
    xs = I.iterate(args[0], h, fr, soft=True)
    if xs is None:
        return T('choice', ('all', I.new_id('c')[1], tuple(sorted(set().union(*[deps(x) for x in _cont(I, args[0], h)]) if _cont(I, args[0], h) else ()))))
    return conj(*[I.truth(x, h, fr) for x in xs])


def f_sum(I, args, kw, h, fr):
    xs = I.iterate(args[0], h, fr, soft=True)
    if xs is None:
        return I.top('sum', *_cont(I, args[0], h))
    r = args[1] if len(args) > 1 else kw.get('start', C(0))
    for x in xs:
        r = I.binop('Add', r, x, h, fr)
    return r


def f_enumerate(I, args, kw, h, fr):
    xs = I.iterate(args[0], h, fr, soft=True)
    if xs is None:
        return I.top('enumerate', *_cont(I, args[0], h))
    s = args[1] if len(args) > 1 else kw.get('start', C(0))
    if not isinstance(s, C):
        return I.top('enumerate', *xs)
    return Tup(Tup((C(s.v + i), x)) for i, x in enumerate(xs))


def f_zip(I, args, kw, h, fr):
    ls = [I.iterate(a, h, fr, soft=True) for a in args]
    if any(x is None for x in ls):
        return I.top('zip', *args)
    return Tup(Tup(x) for x in zip(*ls))


def f_sorted(I, args, kw, h, fr):
    xs = I.iterate(args[0], h, fr, soft=True)
    if xs is None or not all(isinstance(x, C) for x in xs):
        if xs is not None and isinstance(kw.get('reverse', FALSE), C):
            ks = [I.call(kw['key'], [x], {}, h, fr) if kw.get('key', NONE) != NONE else x for x in xs]
            ks = [tuple(y.v for y in k.items) if isinstance(k, Tup) and all(isinstance(y, C) for y in k.items) else
                  (k.v,) if isinstance(k, C) else None for k in ks]
            if None not in ks:
                try:
                    ys = sorted(range(len(xs)), key=lambda i: ks[i], reverse=bool(kw.get('reverse', FALSE).v))
                    return I.new_list(h.st, [xs[i] for i in ys])
                except TypeError:
                    I.raise_(h, fr, 'TypeError')
        return I.top('sorted', *(xs or _cont(I, args[0], h)))
    key = kw.get('key')
    rev = kw.get('reverse', FALSE)
    if key is None:
        ys = sorted((x.v for x in xs), reverse=bool(getattr(rev, 'v', False)))
        return I.new_list(h.st, [C(y) for y in ys])
    ks = [I.call(key, [x], {}, h, fr) for x in xs]
    if all(isinstance(k, C) for k in ks):
        o = sorted(range(len(xs)), key=lambda i: ks[i].v, reverse=bool(getattr(rev, 'v', False)))
        return I.new_list(h.st, [xs[i] for i in o])
    return I.top('sorted', *xs)


def f_reversed(I, args, kw, h, fr):
    xs = I.iterate(args[0], h, fr, soft=True)
    if xs is None:
        return I.top('reversed', *_cont(I, args[0], h))
    return Tup(reversed(xs))


def f_filter(I, args, kw, h, fr):
    xs = I.iterate(args[1], h, fr, soft=True)
    if xs is None:
        return I.top('filter', *_cont(I, args[1], h))
    out = []
    for x in xs:
        c = x if args[0] == NONE else I.call(args[0], [x], {}, h, fr)
        d = decide(simp(I.truth(c, h, fr), h.st.facts), h.st.facts)
        if d is None:
            return I.top('filter', *xs)
        if d:
            out.append(x)
    return Tup(out)


def f_map(I, args, kw, h, fr):
    ls = [I.iterate(a, h, fr, soft=True) for a in args[1:]]
    if any(x is None for x in ls):
        return I.top('map', *args)
    return Tup(I.call(args[0], list(t), {}, h, fr) for t in zip(*ls))


def f_callable(I, args, kw, h, fr):
    x = args[0]
    if isinstance(x, (FnV, ClsV, BM, Ext)):
        return TRUE
    if isinstance(x, C) or is_numeric(x) or is_strlike(x):
        return FALSE
    return T('callable', x, typ='bool')


def f_timedelta(I, args, kw, h, fr):
    names = ['days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours', 'weeks']
    tot = C(0)
    for n, v in list(zip(names, args)) + list(kw.items()):
        if isinstance(v, Top) or n not in TDU:
            return I.top('timedelta', *args, *kw.values())
        if lin_parts(v) is None:
            I.raise_(h, fr, 'TypeError')
        s = scale(v, TDU[n])
        tot = add(tot, s)
        if tot is None:
            return I.top('timedelta', *args, *kw.values())
    if not is_int(tot):
        tot = call_ext(I, 'round', [tot], {}, h, fr)
    return TD(tot)


def f_floor(I, args, kw, h, fr):
    x = args[0]
    if isinstance(x, Top):
        return I.top('floor', x)
    if isinstance(x, C):
        try:
            return C(math.floor(x.v))
        except TypeError:
            I.raise_(h, fr, 'TypeError')
    if lin_parts(x) is None:
        return I.top('floor', x)
    return floor_(I, x, h) or I.top('floor', x)


def f_ceil(I, args, kw, h, fr):
    x = args[0]
    if isinstance(x, C):
        return C(math.ceil(x.v))
    if isinstance(x, Top) or lin_parts(x) is None:
        return I.top('ceil', x)
    r = floor_(I, scale(x, -1), h)
    return scale(r, -1) if r is not None else I.top('ceil', x)


def f_import_module(I, args, kw, h, fr):
    if isinstance(args[0], C):
        return I.import_module(args[0].v, h.st)
    return I.top('import_module', *args)


def f_object(I, args, kw, h, fr):
    I.uid += 1
    return S(f'obj{I.uid}', 'obj')


def f_recompile(I, args, kw, h, fr):
    import re
    if args and isinstance(args[0], C) and isinstance(args[0].v, str):
        try:
            re.compile(args[0].v)
        except re.error:
            I.raise_(h, fr, 're.error')
    return T('re', *args)


def re_method(I, o, name, args, h, fr):
    import re
    from . import rematch
    if not isinstance(o.args[0], C) or not args:
        return None
    pat, flags = o.args[0].v, 0
    if len(o.args) > 1:
        fl = o.args[1]
        if isinstance(fl, Ext) and fl.name.startswith('re.') and hasattr(re, fl.name[3:]):
            flags = int(getattr(re, fl.name[3:]))
        elif isinstance(fl, C) and isinstance(fl.v, int):
            flags = int(fl.v)
        else:
            return None
    if name == 'sub' and all(isinstance(a, C) and isinstance(a.v, str) for a in args) and len(args) == 2:
        return C(re.compile(pat, flags).sub(args[0].v, args[1].v))
    if name in ('match', 'fullmatch') and len(args) == 1:
        def one(x, hh):
            cs = cells(x)
            if cs is None:
                return T('re.' + name, o, x)
            try:
                return rematch.match(pat, flags, cs, hh.st.facts, name)
            except (rematch.Unsupported, re.error):
                return T('re.' + name, o, x)
        return I.over_ite(args[0], h, fr, one)
    return None


def match_method(I, o, name, args, kw, h, fr):
    end, groups, whole = o.args
    gs = [g.items for g in groups.items]
    if name == 'groupdict':
        return I.new_dict(h.st, {n: v for _, n, v in gs if n.v is not None})
    if name == 'groups':
        return Tup(v for _, _, v in gs)
    if name == 'end' and not args:
        return end
    if name == 'start' and not args:
        return C(0)
    if name in ('group', '__getitem__') and len(args) <= 1:
        k = args[0] if args else C(0)
        if k == C(0):
            return whole
        for i, n, v in gs:
            if k in (i, n):
                return v
    return None


def f_reescape(I, args, kw, h, fr):
    import re
    if isinstance(args[0], C):
        return C(re.escape(args[0].v))
    return I.top('escape', *args)


def f_iter(I, args, kw, h, fr):
    return args[0]


def f_next(I, args, kw, h, fr):
    xs = I.iterate(args[0], h, fr, soft=True)
    if xs is None:
        return I.top('next', *_cont(I, args[0], h))
    if xs:
        return xs[0]
    if len(args) > 1:
        return args[1]
    I.raise_(h, fr, 'StopIteration')


def f_bool(I, args, kw, h, fr):
    return I.truth(args[0], h, fr) if args else FALSE


def f_frozenset(I, args, kw, h, fr):
    return f_set(I, args, kw, h, fr)


def f_print(I, args, kw, h, fr):
    return NONE


def f_ordereddict(I, args, kw, h, fr):
    return f_dict(I, args, kw, h, fr)


def f_isclose(I, args, kw, h, fr):
    return I.top('isclose', *args)


def f_globals(I, args, kw, h, fr):
    return T('ns', ModV(fr.module))


def f_vars(I, args, kw, h, fr):
    if len(args) == 1 and isinstance(args[0], ModV):
        return T('ns', args[0])
    return I.top('vars', *args)


def f_cache(I, args, kw, h, fr):
    return I.cached(args[0], h.st) if args and isinstance(args[0], (FnV, Desc)) else Ext('functools.cache')


FUNCS = {
    'functools.cache': f_cache, 'functools.lru_cache': f_cache, 'functools.wraps': lambda I, a, k, h, fr: Ext('identity'),
    'identity': lambda I, a, k, h, fr: a[0], 'globals': f_globals,
    'len': f_len, 'isinstance': f_isinstance, 'issubclass': f_issubclass, 'int': f_int,
    'float': f_float, 'str': f_str, 'repr': f_repr, 'format': f_format, 'tuple': f_tuple,
    'list': f_list, 'set': f_set, 'frozenset': f_frozenset, 'dict': f_dict, 'range': f_range,
    'min': _minmax('min'), 'max': _minmax('max'), 'abs': f_abs, 'divmod': f_divmod,
    'round': f_round, 'bytes': f_bytes, 'ord': f_ord, 'hash': f_hash, 'hasattr': f_hasattr,
    'getattr': f_getattr, 'setattr': f_setattr, 'type': f_type, 'any': f_any, 'all': f_all,
    'sum': f_sum, 'enumerate': f_enumerate, 'zip': f_zip, 'sorted': f_sorted,
    'reversed': f_reversed, 'filter': f_filter, 'map': f_map, 'callable': f_callable,
    'datetime.timedelta': f_timedelta, 'math.floor': f_floor, 'math.ceil': f_ceil,
    'importlib.import_module': f_import_module, 'object': f_object, 're.compile': f_recompile,
    're.escape': f_reescape, 'iter': f_iter, 'next': f_next, 'bool': f_bool, 'print': f_print,
    'collections.OrderedDict': f_ordereddict, 'math.isclose': f_isclose, 'vars': f_vars,
    '_thread.allocate_lock': lambda I, a, k, h, fr: S('LOCK%d' % I.new_id('lock')[1], 'obj'),
    'threading.Lock': lambda I, a, k, h, fr: S('LOCK%d' % I.new_id('lock')[1], 'obj'),
    'threading.RLock': lambda I, a, k, h, fr: S('RLOCK%d' % I.new_id('lock')[1], 'obj'),
}


# ------------------------------------------------------------ bound methods
def call_bm(I, o, name, args, kw, h, fr):
    st = h.st
    if I.watch is not None and isinstance(o, Ref) and o.oid in I.watch:
        I.touch(o.oid, st, fr)
    if I.others is not None and isinstance(o, Ref):
        I.interfere(o.oid, st)
    if isinstance(o, S) and o.kind == 'obj' and 'LOCK' in o.name:
        if name in ('acquire', '__enter__'):
            if o in st.held:
                st.events = st.events + (('reenter', o, None, None, fr.loc(), st.pc, st.held),)
            st.held = st.held + (o,)
            return C(True)
        if name in ('release', '__exit__'):
            if o in st.held:
                i = st.held.index(o)
                st.held = st.held[:i] + st.held[i + 1:]
            return NONE
    F = st.facts
    if o.has_ite():
        o = simp(o, F)
    if isinstance(o, Ite):
        return I.over_ite(o, h, fr, lambda y, hh: I.call(I.getattr(y, name, hh, fr), args, kw, hh, fr))
    if isinstance(o, S):
        hs = I.sym_methods.get(o.name) or I.sym_methods.get(o.kind) or {}
        f = hs.get(name)
        if f is not None and not isinstance(f, V):
            return f(I, o, args, kw, h, fr)
        if o.kind == 'dict' and name == 'get':
            return T('getitem', o, args[0], typ='int')
        if o.kind == 'str':
            return T('strm.' + name, o, *args, typ='str' if name in STR_TO_STR else 'bool' if name in STR_TO_BOOL else None)
        return I.top(f'{o!r}.{name}', o, *args, *kw.values())
    for i, a in enumerate(args):
        if a.has_ite():
            a = simp(a, F)
            args = list(args)
            args[i] = a
        if isinstance(a, Ite) and not isinstance(o, Ref):
            return I.over_ite(a, h, fr, lambda y, hh: call_bm(
                I, o, name, list(args[:i]) + [y] + list(args[i + 1:]), kw, hh, fr))
    if isinstance(o, Top):
        return I.top('method of unknown', o, *args, *kw.values())
    if isinstance(o, TD):
        if name == 'total_seconds':
            return scale(o.us, Fraction(1, 10 ** 6))
        return I.top('td.' + name, o)
    if isinstance(o, C):
        if all(isinstance(a, C) for a in args) and all(isinstance(a, C) for a in kw.values()):
            if isinstance(o.v, (str, bytes, int, float, tuple)):
                try:
                    return lift_const(I, getattr(o.v, name)(*[a.v for a in args], **{k: a.v for k, a in kw.items()}), st)
                except Exception as e:
                    I.raise_(h, fr, type(e).__name__)
        if isinstance(o.v, str):
            if name == 'join' and len(args) == 1:
                xs = I.iterate(args[0], h, fr, soft=True)
                if xs is None:
                    return I.top('join', o, *_cont(I, args[0], h))
                parts = []
                for i, x in enumerate(xs):
                    if i:
                        parts.append(o)
                    parts.append(x)
                return I.concat(parts, h, fr) if parts else C('')
            if name in ('startswith', 'endswith') and isinstance(args[0], Tup) and all(isinstance(a, C) for a in args[0].items):
                return C(getattr(o.v, name)(tuple(a.v for a in args[0].items)))
            if name == 'format':
                return fmt_method(I, o.v, args, kw, h, fr)
            return str_method(I, o, name, args, kw, h, fr)
        if isinstance(o.v, bytes):
            return I.top('bytes.' + name, *args)
        return I.top('const method', *args)
    if isinstance(o, Str):
        return str_method(I, o, name, args, kw, h, fr)
    if isinstance(o, T) and o.typ == 'str':
        if any(isinstance(a, Top) for a in args):
            return I.top('str.' + name, o, *args)
        r = cat_method(I, o, name, args, kw, h)
        if r is not None:
            return r
        return T('strm.' + name, o, *args, typ='str' if name in STR_TO_STR else
                 'bool' if name in STR_TO_BOOL else 'int' if name in ('find', 'count', 'index', 'rfind') else None)
    if isinstance(o, Ref):
        ob = st.heap[o.oid]
        if ob.kind == 'inst':
            base = name.split('.')[-1]
            if 'NamedTuple' in I.mro(ob.cls):
                if base == '_replace':
                    a = dict(ob.attrs)
                    fields = list(a)
                    a.update(kw)
                    oid = I.new_id('inst')
                    st.heap[oid] = HObj('inst', ob.cls, a, tuple(a[n] for n in fields))
                    return Ref(oid)
                if base == '_asdict':
                    return I.new_dict(st, {C(k): v for k, v in ob.attrs.items()})
            if base in ('__init__', '__setattr__'):
                if base == '__setattr__' and len(args) == 2 and isinstance(args[0], C):
                    st.events = st.events + (('setattr', o.oid, args[0].v, args[1], fr.loc(), st.pc, st.held),)
                    st.heap[o.oid] = ob.setattr(args[0].v, args[1])
                if base == '__init__' and 'dict' in I.mro(ob.cls):
                    d = {}
                    if args and isinstance(args[0], Ref) and isinstance(st.heap[args[0].oid].items, dict):
                        d.update(st.heap[args[0].oid].items)
                    st.heap[o.oid] = ob.with_items(d)
                return NONE
            if base == '__eq__':
                return C(o == args[0])
            if base == '__ne__':
                return neg(I.truth(I.eq(o, args[0], h, fr), h, fr))
            if base == '__hash__':
                t = as_tup(o, st)
                return T('hash', Tup(t) if t is not None else o, typ='int')
            if isinstance(ob.items, dict):
                return dict_method(I, o, base, args, kw, h, fr)
            t = as_tup(o, st)
            if t is not None:
                if base == '__repr__':
                    return I.top('tuple repr', *t)
                if base in ('__getitem__',):
                    return I.getitem(Tup(t), args[0], h, fr)
                return I.top('tuple.' + base, *t)
            if 'tzinfo' in I.mro(ob.cls) and base == 'fromutc':
                return I.top('tzinfo.fromutc', *args)
            return I.top(f'{ob.cls}.{name}', *args)
        if ob.kind == 'list':
            return list_method(I, o, name, args, kw, h, fr)
        if ob.kind == 'set':
            return set_method(I, o, name, args, kw, h, fr)
        if ob.kind == 'dict':
            return dict_method(I, o, name, args, kw, h, fr)
    if isinstance(o, Tup):
        if name == 'index' and len(args) == 1:
            for i, x in enumerate(o.items):
                d = decide(I.truth(I.eq(x, args[0], h, fr), h, fr), F)
                if d:
                    return C(i)
                if d is None:
                    return I.top('tuple.index', *args)
            I.raise_(h, fr, 'ValueError')
        if name == 'count':
            r = C(0)
            for x in o.items:
                r = I.binop('Add', r, I.truth(I.eq(x, args[0], h, fr), h, fr), h, fr)
            return r
        if name == '__getitem__':
            return I.getitem(o, args[0], h, fr)
    if isinstance(o, T) and o.op == 'mo':
        r = match_method(I, o, name, args, kw, h, fr)
        if r is not None:
            return r
    if isinstance(o, T) and o.op == 're':
        r = re_method(I, o, name, args, h, fr)
        if r is not None:
            return r
        if any(isinstance(a, Top) for a in args):
            return I.top('re.' + name, *args)
        return T('re.' + name, o, *args)
    if isinstance(o, T):
        if any(isinstance(a, Top) for a in args):
            return I.top('m.' + name, o, *args)
        return T('m.' + name, o, *args)
    return I.top(f'method {name}', *[x for x in (o, *args) if isinstance(x, V)])


STR_TO_STR = {'upper', 'lower', 'strip', 'replace', 'join', 'format', 'lstrip', 'rstrip',
              'capitalize', 'title', 'zfill', 'ljust', 'rjust', 'center'}
STR_TO_BOOL = {'startswith', 'endswith', 'isdigit', 'isnumeric', 'isalpha', 'isspace'}


def lift_const(I, v, st):
    if isinstance(v, list):
        return I.new_list(st, [C(x) for x in v])
    if isinstance(v, tuple):
        return Tup(C(x) for x in v)
    return C(v)


def fmt_method(I, s, args, kw, h, fr):
    import string
    parts = []
    auto = 0
    try:
        for lit, fld, spec, conv in string.Formatter().parse(s):
            if lit:
                parts.append(C(lit))
            if fld is None:
                continue
            if fld == '':
                v = args[auto]
                auto += 1
            elif fld.isdigit():
                v = args[int(fld)]
            elif fld in kw:
                v = kw[fld]
            else:
                return I.top('format', *args, *kw.values())
            if conv == 'r':
                v = I.repr_(v, h, fr)
            parts.append(I.format_(v, C(spec or ''), h, fr))
    except (IndexError, ValueError):
        return I.top('format', *args, *kw.values())
    return I.concat(parts, h, fr) if parts else C('')


def str_method(I, o, name, args, kw, h, fr):
    cs = cells(o)
    a0 = args[0] if args else None
    if name in ('upper', 'lower', 'casefold') and cs is not None:
        return mkstr(getattr(c, name)() if isinstance(c, str) else c for c in cs)
    if name in ('isdigit', 'isnumeric', 'isdecimal'):
        return C(bool(cs) and all(not isinstance(c, str) or c.isdigit() for c in cs))
    if name == 'isalpha':
        return C(bool(cs) and all(isinstance(c, str) and c.isalpha() for c in cs))
    if name in ('strip', 'lstrip', 'rstrip') and not args:
        l = list(cs)
        if name != 'rstrip':
            while l and isinstance(l[0], str) and l[0].isspace():
                l.pop(0)
        if name != 'lstrip':
            while l and isinstance(l[-1], str) and l[-1].isspace():
                l.pop()
        return mkstr(l)
    if isinstance(a0, Tup) and name in ('startswith', 'endswith'):
        return disj(*[str_method(I, o, name, [x], kw, h, fr) for x in a0.items])
    if name in ('find', 'rfind', 'index', 'count', 'split', 'startswith', 'endswith', 'replace',
                'partition', 'rpartition', 'rsplit') and isinstance(a0, C) and isinstance(a0.v, str) \
            and a0.v and not any(ch.isdigit() for ch in a0.v):
        # digits never match a digit-free needle
        proxy = ''.join(c if isinstance(c, str) else '\0' for c in cs)
        if name in ('find', 'rfind', 'index', 'count', 'startswith', 'endswith') and all(isinstance(a, C) for a in args):
            try:
                return C(getattr(proxy, name)(*[a.v for a in args]))
            except ValueError:
                I.raise_(h, fr, 'ValueError')
        if name in ('split', 'rsplit', 'partition', 'rpartition') and all(isinstance(a, C) for a in args):
            ps = getattr(proxy, name)(*[a.v for a in args])
            out, pos = [], 0
            for i, p in enumerate(ps):
                if name in ('split', 'rsplit'):
                    out.append(mkstr(cs[pos:pos + len(p)]))
                    pos += len(p) + len(a0.v)
                else:
                    out.append(mkstr(cs[pos:pos + len(p)]))
                    pos += len(p)
            return I.new_list(h.st, out) if 'split' in name else Tup(out)
        if name == 'replace':
            rc = cells(args[1])
            if rc is not None and len(args) == 2:
                ps = proxy.split(a0.v)
                out, pos = (), 0
                for i, p in enumerate(ps):
                    if i:
                        out += rc
                    out += tuple(cs[pos:pos + len(p)])
                    pos += len(p) + len(a0.v)
                return mkstr(out)
    if name == 'zfill' and isinstance(a0, C):
        n = int(a0.v) - len(cs)
        if n <= 0:
            return o
        if cs and cs[0] in ('+', '-'):
            return mkstr((cs[0],) + ('0',) * n + tuple(cs[1:]))
        return mkstr(('0',) * n + tuple(cs))
    if name in ('ljust', 'rjust') and isinstance(a0, C):
        fill = args[1].v if len(args) > 1 and isinstance(args[1], C) else ' '
        n = max(int(a0.v) - len(cs), 0)
        pad = (fill,) * n
        return mkstr(tuple(cs) + pad if name == 'ljust' else pad + tuple(cs))
    if any(isinstance(a, Top) for a in args):
        return I.top('str.' + name, o, *args)
    return T('strm.' + name, o, *args, typ='str' if name in STR_TO_STR else
             'bool' if name in STR_TO_BOOL else None)


def cat_method(I, o, name, args, kw, h):
    """a text operation decided by the constant a concatenation begins with."""
    if not (o.op == 'cat' and isinstance(o.args[0], C) and isinstance(o.args[0].v, str)) or kw or \
            not args or not all(isinstance(a, C) for a in args) or not isinstance(args[0].v, str):
        return None
    c, a = o.args[0].v, [x.v for x in args]

    def rest(t):
        parts = ((C(t),) if t else ()) + o.args[1:]
        return parts[0] if len(parts) == 1 else T('cat', *parts, typ='str')
    if name in ('startswith', 'removeprefix') and len(a) == 1:
        if len(a[0]) <= len(c) or not a[0].startswith(c):
            hit = c.startswith(a[0])
            return C(hit) if name == 'startswith' else rest(c[len(a[0]):]) if hit else o
    if a[0] and a[0] in c:
        if name in ('find', 'index') and len(a) == 1:
            return C(c.index(a[0]))
        if name == 'partition':
            x, y, z = c.partition(a[0])
            return Tup([C(x), C(y), rest(z)])
        if name == 'split' and len(a) == 2 and a[1] == 1:
            x, y = c.split(a[0], 1)
            return I.new_list(h.st, [C(x), rest(y)])
        if name == 'replace' and len(a) == 3 and a[2] == 1:
            return rest(c.replace(*a))
    return None


def list_method(I, o, name, args, kw, h, fr):
    st = h.st
    ob = st.heap[o.oid]
    it = ob.items
    known = isinstance(it, tuple)
    mut = name in ('append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse')
    if mut:
        st.events = st.events + (('mutate', o.oid, name, None, fr.loc(), st.pc, st.held),)
    if known:
        if name == 'append':
            st.heap[o.oid] = ob.with_items(it + (args[0],))
            return NONE
        if name == 'extend':
            xs = I.iterate(args[0], h, fr, soft=True)
            if xs is not None:
                st.heap[o.oid] = ob.with_items(it + tuple(xs))
                return NONE
        if name == 'insert' and isinstance(args[0], C):
            l = list(it)
            l.insert(args[0].v, args[1])
            st.heap[o.oid] = ob.with_items(tuple(l))
            return NONE
        if name == 'pop':
            i = args[0].v if args and isinstance(args[0], C) else (-1 if not args else None)
            if i is not None:
                l = list(it)
                try:
                    v = l.pop(i)
                except IndexError:
                    I.raise_(h, fr, 'IndexError')
                st.heap[o.oid] = ob.with_items(tuple(l))
                return v
        if name == 'clear':
            st.heap[o.oid] = ob.with_items(())
            return NONE
        if name == 'copy':
            return I.new_list(st, it)
        if name == 'reverse':
            st.heap[o.oid] = ob.with_items(tuple(reversed(it)))
            return NONE
        if name == 'sort' and not kw and all(isinstance(x, C) for x in it):
            st.heap[o.oid] = ob.with_items(tuple(C(v) for v in sorted(x.v for x in it)))
            return NONE
        if name in ('index', 'count', '__getitem__'):
            return call_bm(I, Tup(it), name, args, kw, h, fr)
    if mut:
        st.heap[o.oid] = ob.with_items(I.top('list.' + name, *_cont(I, o, h), *args))
        return I.top('list.' + name, *_cont(I, o, h), *args)
    return I.top('list.' + name, *_cont(I, o, h), *args)


def set_method(I, o, name, args, kw, h, fr):
    st = h.st
    ob = st.heap[o.oid]
    if isinstance(ob.items, tuple):
        if name == 'add':
            if args[0] not in ob.items:
                st.heap[o.oid] = ob.with_items(ob.items + (args[0],))
            return NONE
        if name == 'copy':
            oid = I.new_id('set')
            st.heap[oid] = HObj('set', items=ob.items)
            return Ref(oid)
        if name in ('issubset', 'issuperset', 'union', 'intersection', 'difference') and args:
            xs = I.iterate(args[0], h, fr, soft=True)
            if xs is not None and all(isinstance(x, C) for x in list(ob.items) + list(xs)):
                r = getattr({x.v for x in ob.items}, name)({x.v for x in xs})
                if isinstance(r, bool):
                    return C(r)
                oid = I.new_id('set')
                st.heap[oid] = HObj('set', items=tuple(C(x) for x in r))
                return Ref(oid)
    return I.top('set.' + name, *_cont(I, o, h), *args)


def dict_method(I, o, name, args, kw, h, fr):
    st = h.st
    ob = st.heap[o.oid]
    d = ob.items
    if isinstance(d, dict):
        if name in ('__setitem__',):
            I.setitem(o, args[0], args[1], h, fr)
            return NONE
        if name == '__getitem__':
            if symkeys(d):
                return I.getitem(o, args[0], h, fr)
            if args[0] in d and not _has_undef(d[args[0]]):
                return d[args[0]]
            return I.top('dict item', args[0])
        if name == 'get':
            k = args[0]
            dflt = args[1] if len(args) > 1 else NONE
            if symkeys(d) or not isinstance(k, C) and 0 < len(d) < 5 and not is_int(k):
                return _repl_undef(I.dict_find(d, k, h, fr), dflt)
            if k in d:
                v = d[k]
                if _has_undef(v):
                    return _repl_undef(v, dflt)
                return v
            if isinstance(k, C) and all(isinstance(x, C) for x in d):
                return dflt
            if isinstance(k, Ite):
                return I.over_ite(k, h, fr, lambda y, hh: dict_method(I, o, name, [y] + list(args[1:]), kw, hh, fr))
            if len(d) == 0:
                return dflt
            return T('dictget', o, k, dflt)
        if name in ('keys', 'values', 'items'):
            if not any(_has_undef(x) for x in d.values()) and (len(d) < 2 or not symkeys(d)):
                return {'keys': lambda: Tup(d), 'values': lambda: Tup(d.values()),
                        'items': lambda: Tup(Tup(kv) for kv in d.items())}[name]()
            return I.top('dict.' + name, *d, *d.values())
        if name == 'copy':
            return I.new_dict(st, d)
        if name in ('update', 'clear', 'pop', 'setdefault', 'popitem'):
            st.events = st.events + (('mutate', o.oid, name, None, fr.loc(), st.pc, st.held),)
        if name == 'clear':
            st.heap[o.oid] = ob.with_items({})
            return NONE
        if name == 'update':
            nd = dict(d)
            ok = True
            if args:
                x = args[0]
                if isinstance(x, Ref) and isinstance(st.heap[x.oid].items, dict):
                    nd.update(st.heap[x.oid].items)
                else:
                    xs = I.iterate(x, h, fr, soft=True)
                    if xs is None:
                        ok = False
                    else:
                        for kv in xs:
                            t = as_tup(kv, st)
                            if t is None or len(t) != 2:
                                ok = False
                                break
                            nd[t[0]] = t[1]
            for k, v in kw.items():
                nd[C(k)] = v
            if ok:
                st.heap[o.oid] = ob.with_items(nd)
                return NONE
        if name == 'pop':
            k = args[0]
            if k in d and not _has_undef(d[k]) and not symkeys(d):
                nd = dict(d)
                v = nd.pop(k)
                st.heap[o.oid] = ob.with_items(nd)
                return v
            if isinstance(k, C) and all(isinstance(x, C) for x in d) and len(args) > 1 and k not in d:
                return args[1]
        if name == 'setdefault':
            k = args[0]
            if k in d and not _has_undef(d[k]) and not symkeys(d):
                return d[k]
            old = I.dict_find(d, k, h, fr)
            new = args[1] if len(args) > 1 else NONE
            r = _repl_undef(old, new)
            I.setitem(o, k, r, h, fr)
            return r
        if name == '__contains__':
            return I.contains(o, args[0], h, fr)
        if name == '__len__':
            return C(len(d))
    if name in ('__setitem__', 'update', 'clear', 'pop', 'setdefault'):
        st.heap[o.oid] = ob.with_items(I.top('dict.' + name, *_cont(I, o, h), *args))
    return I.top('dict.' + name, *_cont(I, o, h), *[a for a in args if isinstance(a, V)])


def _repl_undef(v, d):
    from .values import Undef
    if isinstance(v, Undef):
        return d
    if isinstance(v, Ite):
        return ite(v.c, _repl_undef(v.a, d), _repl_undef(v.b, d))
    return v
