"""Numeric/boolean domain: linear normal forms, interval facts, gating."""
import math
from fractions import Fraction
from .values import *


class Facts:
    __slots__ = ('rng', 'bools', 'memo')

    def __init__(self, rng=None, bools=None):
        self.rng = rng if rng is not None else {}
        self.bools = bools if bools is not None else {}
        self.memo = {}

    def copy(self):
        return Facts(dict(self.rng), dict(self.bools))


NOFACTS = Facts()


def isnum(v):
    return isinstance(v, C) and isinstance(v.v, (int, float, Fraction))


def lin_parts(v):
    """(const, {atom: coef}) of a numeric value, or None."""
    if isinstance(v, Lin):
        return v.c, v.t
    if isinstance(v, C):
        if isinstance(v.v, bool):
            return Fraction(int(v.v)), {}
        if isinstance(v.v, (int, Fraction)):
            return Fraction(v.v), {}
        if isinstance(v.v, float):
            if v.v != v.v or v.v in (math.inf, -math.inf):
                return None
            # decimal literals mean the decimal, not its binary neighbour
            return Fraction(repr(v.v)), {}
        return None
    if isinstance(v, (S, T, Ite)):
        return Fraction(0), {v: Fraction(1)}
    return None


def mk_lin(c, t):
    t = {a: k for a, k in t.items() if k != 0}
    if not t:
        return mknum(c)
    # c*fdiv(x,c)+mod(x,c) -> x
    changed = True
    while changed:
        changed = False
        for a in list(t):
            if isinstance(a, T) and a.op == 'mod':
                x0 = a.args[0]
                if isinstance(x0, T) and x0.op == 'fdiv' and x0 not in t:
                    # fdiv(fdiv(y, c), m) is kept as fdiv(y, c*m)
                    f = T('fdiv', x0.args[0], mknum(Fraction(x0.args[1].v) * Fraction(a.args[1].v)), typ='int')
                else:
                    f = T('fdiv', x0, a.args[1], typ='int')
                k = t.get(a)
                m = Fraction(a.args[1].v)
                if k is not None and f in t and t[f] == k * m:
                    del t[a]
                    del t[f]
                    p = lin_parts(a.args[0])
                    c += p[0] * k
                    for a2, k2 in p[1].items():
                        t[a2] = t.get(a2, 0) + k2 * k
                        if t[a2] == 0:
                            del t[a2]
                    changed = True
                    break
    if not t:
        return mknum(c)
    if c == 0 and len(t) == 1:
        (a, k), = t.items()
        if k == 1:
            return a
    return Lin(c, t)


def mknum(c):
    if isinstance(c, Fraction):
        return C(int(c)) if c.denominator == 1 else C(c)
    return C(c)


def add(a, b, sign=1):
    if isnum(a) and isnum(b) and not isinstance(a.v, Fraction) and not isinstance(b.v, Fraction):
        return C(a.v + b.v if sign == 1 else a.v - b.v)
    pa, pb = lin_parts(a), lin_parts(b)
    if pa is None or pb is None:
        return None
    t = dict(pa[1])
    for x, k in pb[1].items():
        t[x] = t.get(x, 0) + k * sign
    return mk_lin(pa[0] + sign * pb[0], t)


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    pa = lin_parts(a)
    if pa is None:
        return None
    k = Fraction(k)
    return mk_lin(pa[0] * k, {x: q * k for x, q in pa[1].items()})


def mul(a, b):
    if isnum(a) and isnum(b):
        try:
            return C(a.v * b.v)
        except TypeError:
            pass
    for x, y in ((a, b), (b, a)):
        if isnum(x):
            if isinstance(x.v, float) and x.v != x.v:
                return T('mul', a, b, typ='num')
            return scale(y, lin_parts(x)[0])
    if lin_parts(a) is None or lin_parts(b) is None:
        return None
    # factor out signs so that (-x)*y == -(x*y)
    x, y = sorted((a, b), key=rk)
    return T('mul', x, y, typ='int' if is_int(a) and is_int(b) else 'num')


INT_OPS = {'fdiv', 'len', 'ord', 'floor', 'ceil', 'int', 'and', 'or', 'xor',
           'not', 'lt0', 'le0', 'eq0', 'isnone', 'isinst', 'truthy', 'eq',
           'in', 'is', 'hasattr', 'hash'}
BOOL_OPS = {'and', 'or', 'not', 'lt0', 'le0', 'eq0', 'isnone', 'isinst',
            'truthy', 'eq', 'in', 'is', 'hasattr', 'choice', 'ltx'}


def is_bool(v):
    try:
        return v._bool
    except AttributeError:
        r = v._bool = _is_bool(v)
        return r


def _is_bool(v):
    if isinstance(v, C):
        return isinstance(v.v, bool)
    if isinstance(v, T):
        return v.op in BOOL_OPS or v.typ == 'bool'
    if isinstance(v, S):
        return v.kind == 'bool'
    if isinstance(v, Ite):
        return is_bool(v.a) and is_bool(v.b)
    return False


def is_int(v):
    try:
        return v._int
    except AttributeError:
        r = v._int = _is_int(v)
        return r


def _is_int(v):
    if isinstance(v, C):
        return isinstance(v.v, (int, bool)) or (
            isinstance(v.v, (float, Fraction)) and v.v == v.v and
            v.v not in (math.inf, -math.inf) and Fraction(v.v).denominator == 1)
    if isinstance(v, S):
        return v.kind in ('int', 'bool')
    if isinstance(v, T):
        if v.op == 'mod':
            return is_int(v.args[0]) and is_int(v.args[1])
        return v.typ in ('int', 'bool') or (v.typ is None and v.op in INT_OPS)
    if isinstance(v, Ite):
        return is_int(v.a) and is_int(v.b)
    if isinstance(v, Lin):
        return v.c.denominator == 1 and all(
            k.denominator == 1 and is_int(a) for a, k in v.t.items())
    return False


def is_numeric(v):
    if isinstance(v, (Lin,)):
        return True
    if isinstance(v, C):
        return isinstance(v.v, (int, float, Fraction))
    if isinstance(v, S):
        return v.kind in ('int', 'num', 'bool')
    if isinstance(v, T):
        return v.typ in ('int', 'num', 'bool') or v.op in INT_OPS or v.op in ('mod', 'fdiv', 'mul', 'div')
    if isinstance(v, Ite):
        return is_numeric(v.a) and is_numeric(v.b)
    return False


def hull(a, b):
    lo = None if a[0] is None or b[0] is None else min(a[0], b[0])
    hi = None if a[1] is None or b[1] is None else max(a[1], b[1])
    return lo, hi


def isect(a, b):
    lo = b[0] if a[0] is None else a[0] if b[0] is None else max(a[0], b[0])
    hi = b[1] if a[1] is None else a[1] if b[1] is None else min(a[1], b[1])
    return lo, hi


def prim(t):
    """primitive direction of a linear form: (key Lin with c=0, factor)."""
    a0 = min(t, key=rk)
    k0 = t[a0]
    return frozenset((a, k / k0) for a, k in t.items()), k0


def rng(v, F, depth=0):
    """interval (lo, hi); None = unbounded."""
    if depth > 30:
        return (None, None)
    if isinstance(v, C):
        p = lin_parts(v)
        return (p[0], p[0]) if p else (None, None)
    if isinstance(v, Lin):
        lo = hi = v.c
        for a, k in v.t.items():
            l, h = rng(a, F, depth + 1)
            if k < 0:
                l, h = h, l
            lo = None if lo is None or l is None else lo + k * l
            hi = None if hi is None or h is None else hi + k * h
        if len(v.t) > 1:
            try:
                p, k0 = v._prim
            except AttributeError:
                p, k0 = v._prim = prim(v.t)
            r = F.rng.get(p)
            if r:
                l, h = r
                if k0 < 0:
                    l, h = h, l
                r = (None if l is None else l * k0 + v.c,
                     None if h is None else h * k0 + v.c)
                lo, hi = isect((lo, hi), r)
            if depth < 3:
                for a, k in v.t.items():
                    # x//n lies between (x-(n-1))/n and x/n: cancels against the other terms
                    if not (isinstance(a, T) and a.op in ('fdiv', 'mod')):
                        continue
                    q = lin_parts(a.args[0])
                    n = Fraction(a.args[1].v)
                    if q is None or n <= 0 or not is_int(a.args[0]) or n.denominator != 1:
                        continue
                    if a.op == 'fdiv':
                        if not any(x in v.t for x in q[1]):
                            continue
                        rest = dict(v.t)
                        del rest[a]
                        for x, j in q[1].items():
                            rest[x] = rest.get(x, 0) + j * k / n
                        y = mk_lin(v.c + q[0] * k / n, rest)
                        l, h = rng(y, F, depth + 1)
                        gap = k * (n - 1) / n
                        if k > 0:
                            l = None if l is None else l - gap
                        else:
                            h = None if h is None else h - gap
                        l = None if l is None else Fraction(math.ceil(l)) if is_int(v) else l
                        h = None if h is None else Fraction(math.floor(h)) if is_int(v) else h
                        lo, hi = isect((lo, hi), (l, h))
        return lo, hi
    r = (None, None)
    if isinstance(v, S):
        r = (None if v.lo is None else Fraction(v.lo),
             None if v.hi is None else Fraction(v.hi))
        if v.kind == 'bool':
            r = (Fraction(0), Fraction(1))
    elif isinstance(v, Ite):
        b = F.bools.get(v.c)
        if b is None:
            r = hull(rng(v.a, F, depth + 1), rng(v.b, F, depth + 1))
        else:
            r = rng(v.a if b else v.b, F, depth + 1)
    elif isinstance(v, T):
        if is_bool(v):
            r = (Fraction(0), Fraction(1))
        elif v.op == 'fdiv':
            l, h = rng(v.args[0], F, depth + 1)
            c = Fraction(v.args[1].v)
            if c > 0:
                r = (None if l is None else Fraction(l // c),
                     None if h is None else Fraction(h // c))
        elif v.op == 'mod':
            c = Fraction(v.args[1].v)
            if c > 0:
                r = (Fraction(0), c - 1 if is_int(v) else c)
        elif v.op in ('len', 'ord'):
            r = (Fraction(0), None)
        elif v.op == 'abs':
            l, h = rng(v.args[0], F, depth + 1)
            hi = None if l is None or h is None else max(abs(l), abs(h))
            lo = l if l is not None and l >= 0 else -h if h is not None and h <= 0 else Fraction(0)
            r = (lo, hi)
        elif v.op in ('floor', 'ceil', 'int', 'round'):
            l, h = rng(v.args[0], F, depth + 1)
            r = (None if l is None else Fraction(math.floor(l)),
                 None if h is None else Fraction(math.ceil(h)))
    f = F.rng.get(v)
    return isect(r, f) if f else r


def fdiv(a, b, F):
    """floor division by a positive constant, normalised."""
    if isnum(a) and isnum(b):
        try:
            return C(a.v // b.v)
        except ZeroDivisionError:
            return None
    if not isnum(b) or lin_parts(b) is None:
        if lin_parts(a) is None or lin_parts(b) is None:
            return None
        return T('fdiv2', a, b, typ='int' if is_int(a) and is_int(b) else 'num')
    c = lin_parts(b)[0]
    p = lin_parts(a)
    if p is None or c == 0:
        return None
    if c < 0:
        return fdiv(scale(a, -1), mknum(-c), F)
    lo, hi = rng(a, F)
    if lo is not None and hi is not None and hi < (lo // c + 1) * c:
        return mknum(Fraction(lo // c))
    q, r = _split(p, c)
    lo, hi = rng(r, F)
    if lo is not None and hi is not None:
        k = lo // c
        if hi < (k + 1) * c:
            return add(q, mknum(Fraction(k)))
    z = _centred(p, c, F)
    if z is not None:
        return add(z[0], mknum(z[2]))
    # floor(floor(x/m)/n) == floor(x/(m*n)) for the canonical atom
    if isinstance(r, T) and r.op == 'fdiv':
        return add(q, _mk_fdiv(r.args[0], Fraction(r.args[1].v) * c, F))
    return add(q, _mk_fdiv(r, c, F))


def _mk_fdiv(x, c, F):
    p = lin_parts(x)
    if p is not None and p[1] and all(is_int(a) for a in p[1]):
        # floor((N/d)/c) == floor(N/(c*d)) for an integer form N
        d = 1
        for k in p[1].values():
            d = d * k.denominator // math.gcd(d, k.denominator)
        if d > 1 and (c * d).denominator == 1:
            return fdiv(mk_lin(Fraction(math.floor(p[0] * d)), {a: k * d for a, k in p[1].items()}), mknum(c * d), F)
    g = _common(x, c)
    if g > 1:
        p = lin_parts(x)
        x = mk_lin(Fraction(math.floor(p[0] / g)), {a: k / g for a, k in p[1].items()})
        c = c / g
        if c == 1:
            return x
        if isinstance(x, T) and x.op == 'fdiv':
            return _mk_fdiv(x.args[0], Fraction(x.args[1].v) * c, F)
    return T('fdiv', x, mknum(c), typ='int')


def _common(x, c):
    """gcd of the divisor and the coefficients of an integer linear form."""
    p = lin_parts(x)
    if p is None or not p[1] or c.denominator != 1 or not _int_terms(p):
        return 1
    g = int(c)
    for k in p[1].values():
        g = math.gcd(g, int(k))
    return g


def _centred(p, c, F):
    """a = c*q + r with small coefficients in r, and r inside one period:
    (q, r, r // c), or None."""
    if len(p[1]) < 2 or not all(is_int(x) for x in p[1]):
        return None
    qt, rt = {}, {}
    for x, k in p[1].items():
        w = Fraction(math.floor(k / c + Fraction(1, 2)))
        if w:
            qt[x] = w
        if k != w * c:
            rt[x] = k - w * c
    w = Fraction(math.floor(p[0] / c))
    r = mk_lin(p[0] - w * c, rt)
    lo, hi = rng(r, F)
    if lo is None or hi is None:
        return None
    k = lo // c
    if hi < (k + 1) * c:
        return mk_lin(w, qt), r, k
    return None


def _split(p, c):
    """a = c*q + r with q integer linear, r the rest in canonical residue."""
    qc, qt = Fraction(0), {}
    rt = {}
    for x, k in p[1].items():
        n = k / c
        if is_int(x):
            w = Fraction(math.floor(n))
            if w:
                qt[x] = w
            if n != w:
                rt[x] = k - w * c
        else:
            rt[x] = k
    w = Fraction(math.floor(p[0] / c))
    qc = w
    rc = p[0] - w * c
    return mk_lin(qc, qt), mk_lin(rc, rt)


def telescope(v, F, depth=0):
    """remainders rewritten as x - c*(x//c) and nested floors merged, so that
    mixed-radix digits recombine."""
    p = lin_parts(v)
    if p is None or depth > 12:
        return v
    out = mknum(p[0])
    for a, k in p[1].items():
        x = a
        if isinstance(a, T) and a.op in ('mod', 'fdiv') and is_int(a.args[0]) and isnum(a.args[1]):
            y, c = telescope(a.args[0], F, depth + 1), Fraction(a.args[1].v)
            q = _floor_merge(y, c, F)
            if q is not None:
                x = q if a.op == 'fdiv' else sub(y, scale(q, c))
        out = add(out, scale(x, k))
    return out


def remainders(v, F):
    """x // c rewritten as (x - x % c) / c."""
    p = lin_parts(v)
    if p is None:
        return v
    out = mknum(p[0])
    for a, k in p[1].items():
        x = a
        if isinstance(a, T) and a.op == 'fdiv' and is_int(a.args[0]) and isnum(a.args[1]):
            r = mod(a.args[0], a.args[1], F)
            if r is not None:
                x = scale(sub(a.args[0], r), 1 / Fraction(a.args[1].v))
        out = add(out, scale(x, k))
    return out


def _floor_merge(y, c, F):
    p = lin_parts(y)
    if p is None or c.denominator != 1 or not _int_terms(p):
        return None
    q, r = _split(p, c)
    p = lin_parts(r)
    for a, k in p[1].items():
        if k == 1 and isinstance(a, T) and a.op == 'fdiv' and Fraction(a.args[1].v).denominator == 1:
            m = Fraction(a.args[1].v)
            rest = mk_lin(p[0], {x: j for x, j in p[1].items() if x is not a})
            z = _floor_merge(add(a.args[0], scale(rest, m)), m * c, F)
            return None if z is None else add(q, z)
    return add(q, fdiv(r, mknum(c), F))


def mod(a, b, F):
    if isnum(a) and isnum(b):
        try:
            if isinstance(a.v, Fraction) or isinstance(b.v, Fraction):
                return mknum(Fraction(a.v) % Fraction(b.v))
            return C(a.v % b.v)
        except ZeroDivisionError:
            return None
    if not isnum(b) or lin_parts(b) is None:
        if lin_parts(a) is None or lin_parts(b) is None:
            return None
        return T('mod2', a, b, typ='int' if is_int(a) and is_int(b) else 'num')
    c = lin_parts(b)[0]
    p = lin_parts(a)
    if p is None or c == 0:
        return None
    if c < 0:
        return T('mod2', a, b, typ='int' if is_int(a) else 'num')
    # inner mod(x, m) with c | m drops out
    t2, c2 = {}, p[0]
    for x, k in p[1].items():
        if (isinstance(x, T) and x.op == 'mod' and k.denominator == 1 and
                (Fraction(x.args[1].v) / c).denominator == 1):
            y = lin_parts(x.args[0])
            c2 += y[0] * k
            for x2, k2 in y[1].items():
                t2[x2] = t2.get(x2, 0) + k2 * k
        else:
            t2[x] = t2.get(x, 0) + k
    m = mk_lin(c2, t2)
    p = lin_parts(m)
    lo, hi = rng(m, F)
    if lo is not None and hi is not None and hi < (lo // c + 1) * c:
        return sub(m, mknum(lo // c * c))
    _, r = _split(p, c)
    lo, hi = rng(r, F)
    if lo is not None and hi is not None:
        k = lo // c
        if hi < (k + 1) * c:
            return sub(r, mknum(k * c))
    z = _centred(p, c, F)
    if z is not None:
        return sub(z[1], mknum(z[2] * c))
    p = lin_parts(r)
    if p[1] and all(is_int(a) for a in p[1]):
        # an integer form over d: (N/d) mod c == (N mod c*d)/d
        d = p[0].denominator if isinstance(p[0], Fraction) else 1
        for k in p[1].values():
            d = d * k.denominator // math.gcd(d, k.denominator)
        if d > 1 and (c * d).denominator == 1:
            x = mod(scale(r, d), mknum(c * d), F)
            return None if x is None else scale(x, Fraction(1, d))
    g = _common(r, c)
    if g > 1:
        # g*X + g*q + s (0 <= s < g)  mod  g*n  ==  g*((X + q) mod n) + s
        p = lin_parts(r)
        q = Fraction(math.floor(p[0] / g))
        x = mk_lin(q, {a: k / g for a, k in p[1].items()})
        return add(scale(mod(x, mknum(c / g), F), g), mknum(p[0] - q * g))
    return T('mod', r, mknum(c), typ='int' if is_int(r) and c.denominator == 1 else 'num')


# ---------------------------------------------------------------- booleans
def neg(x):
    if isinstance(x, C):
        return C(not x.v)
    if isinstance(x, T) and x.op == 'not':
        return x.args[0]
    if isinstance(x, T) and x.op == 'and':
        return T('or', *sorted((neg(a) for a in x.args), key=rk))
    if isinstance(x, T) and x.op == 'or':
        return T('and', *sorted((neg(a) for a in x.args), key=rk))
    if isinstance(x, Ite):
        return ite(x.c, neg(x.a), neg(x.b))
    return T('not', x)


def _bin(op, xs):
    zero = C(op == 'or')
    out = []
    for x in xs:
        if isinstance(x, C):
            if bool(x.v) == (op == 'or'):
                return zero
            continue
        ys = x.args if isinstance(x, T) and x.op == op else (x,)
        for y in ys:
            if y not in out:
                out.append(y)
    for y in out:
        if neg1(y) in out:
            return zero
    if not out:
        return C(op == 'and')
    if len(out) == 1:
        return out[0]
    return T(op, *sorted(out, key=rk))


def neg1(x):
    return x.args[0] if isinstance(x, T) and x.op == 'not' else T('not', x)


def conj(*xs):
    return _bin('and', xs)


def disj(*xs):
    return _bin('or', xs)


def _int_terms(p):
    return all(k.denominator == 1 and is_int(a) for a, k in p[1].items())


def _unfloor(d, p):
    """floor(E/c) + N < 0  <=>  E + c*N < 0 for integer N, c > 0."""
    fs = [a for a in p[1] if isinstance(a, T) and a.op == 'fdiv']
    if len(fs) != 1 or not _int_terms(p) or p[0].denominator != 1:
        return None
    f = fs[0]
    k = p[1][f]
    c = Fraction(f.args[1].v)
    if c <= 0 or lin_parts(f.args[0]) is None:
        return None
    n = {a: q / abs(k) for a, q in p[1].items() if a is not f}
    n0 = p[0] / abs(k)
    if any(q.denominator != 1 for q in n.values()) or n0.denominator != 1:
        return None
    if not n:
        return None     # bounds on a quotient are kept as bounds
    N = mk_lin(n0, n)
    if k > 0:
        return lt0(add(f.args[0], scale(N, c)))
    return neg(lt0(sub(f.args[0], scale(add(N, C(1)), c))))


def lt0(d):
    try:
        m = d._rel
    except AttributeError:
        m = d._rel = {}
    r = m.get('lt0', m)
    if r is m:
        r = m['lt0'] = _lt0(d)
    return r


def _lt0(d):
    """formula d < 0 for numeric d."""
    p = lin_parts(d)
    if p is None:
        return None
    if not p[1]:
        return C(p[0] < 0)
    r = _unfloor(d, p)
    if r is not None:
        return r
    if p[0].denominator != 1 and _int_terms(p):
        d = mk_lin(Fraction(-math.ceil(-p[0])), dict(p[1]))
        p = lin_parts(d)
    if is_int(d):
        # scale to primitive integers
        g = 0
        for k in p[1].values():
            g = math.gcd(g, int(k))
        if g > 1:
            # sum + c < 0  <=>  sum/g < -c/g  <=> sum/g - ceil(-c/g) < 0
            d = mk_lin(-Fraction(math.ceil(-p[0] / g)), {a: k / g for a, k in p[1].items()})
            p = lin_parts(d)
        a0 = min(p[1], key=rk)
        if p[1][a0] < 0:
            return neg(T('lt0', mk_lin(-p[0] - 1, {a: -k for a, k in p[1].items()})))
        return T('lt0', d)
    a0 = min(p[1], key=rk)
    k0 = abs(p[1][a0])
    d = scale(d, 1 / k0)
    p = lin_parts(d)
    if p[1][a0] < 0:
        return neg(T('le0', scale(d, -1)))
    return T('lt0', d)


def le0(d):
    try:
        m = d._rel
    except AttributeError:
        m = d._rel = {}
    r = m.get('le0', m)
    if r is m:
        r = m['le0'] = _le0(d)
    return r


def _le0(d):
    if is_int(d):
        return lt0(sub(d, C(1)))
    p = lin_parts(d)
    if p is None:
        return None
    if not p[1]:
        return C(p[0] <= 0)
    if _int_terms(p):
        return lt0(mk_lin(Fraction(-math.floor(-p[0]) - 1), dict(p[1])))
    return neg(lt0(scale(d, -1)))


def eq0(d):
    try:
        m = d._rel
    except AttributeError:
        m = d._rel = {}
    r = m.get('eq0', m)
    if r is m:
        r = m['eq0'] = _eq0(d)
    return r


def _eq0(d):
    p = lin_parts(d)
    if p is None:
        return None
    if not p[1]:
        return C(p[0] == 0)
    if p[0].denominator != 1 and _int_terms(p):
        return FALSE
    a0 = min(p[1], key=rk)
    d = scale(d, 1 / p[1][a0])
    p = lin_parts(d)
    if len(p[1]) == 1 and is_bool(a0):
        if p[0] == 0:
            return neg(a0)
        if p[0] == -1:
            return a0
        return FALSE
    if is_int(a0) and len(p[1]) == 1 and p[0].denominator != 1:
        return FALSE
    return T('eq0', d)


def ite(c, a, b):
    if isinstance(c, C):
        return a if c.v else b
    if a is b or a == b:
        return a
    if isinstance(c, T) and c.op == 'not':
        c, a, b = c.args[0], b, a
    # same condition nested
    if isinstance(a, Ite) and a.c == c:
        a = a.a
    if isinstance(b, Ite) and b.c == c:
        b = b.b
    if a == b:
        return a
    ca = isinstance(a, C) and isinstance(a.v, bool)
    cb = isinstance(b, C) and isinstance(b.v, bool)
    if (ca or is_bool(a)) and (cb or is_bool(b)):
        if ca and cb:
            return c if a.v else neg(c)
        if ca:
            return disj(c, b) if a.v else conj(neg(c), b)
        if cb:
            return disj(neg(c), a) if b.v else conj(c, a)
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
        return Tup(ite(c, x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, TD) and isinstance(b, TD):
        return TD(ite(c, a.us, b.us))
    if isinstance(a, Bts) and isinstance(b, Bts) and len(a.items) == len(b.items):
        return Bts(ite(c, x, y) for x, y in zip(a.items, b.items))
    if isinstance(c, T) and c.op == 'eq0' and isnum(a) and lin_parts(a) is not None and isinstance(b, (S, Lin, T)):
        # (0 if x == 0 else x) is x
        p, q = lin_parts(c.args[0]), lin_parts(b)
        if q is not None and len(p[1]) == 1 and set(q[1]) == set(p[1]):
            x = next(iter(p[1]))
            if q[0] + q[1][x] * (-p[0] / p[1][x]) == lin_parts(a)[0]:
                return b
    return Ite(c, a, b)


def _excluded(d, v, F):
    e = eq0(sub(d, mknum(v)))
    return isinstance(e, C) and not e.v or F.bools.get(e) is False


def decide(f, F):
    """three-valued truth of formula f under facts: True/False/None."""
    if isinstance(f, C):
        return bool(f.v)
    b = F.bools.get(f)
    if b is not None:
        return b
    if F is NOFACTS:
        return _decide(f, F)
    r = F.memo.get(f, F)
    if r is F:
        r = F.memo[f] = _decide(f, F)
    return r


def _decide(f, F):
    if isinstance(f, T):
        if f.op == 'not':
            d = decide(f.args[0], F)
            return None if d is None else not d
        if f.op == 'and':
            res = True
            for x in f.args:
                d = decide(x, F)
                if d is False:
                    return False
                if d is None:
                    res = None
            return res
        if f.op == 'or':
            res = False
            for x in f.args:
                d = decide(x, F)
                if d is True:
                    return True
                if d is None:
                    res = None
            return res
        if f.op in ('lt0', 'le0', 'eq0'):
            lo, hi = rng(f.args[0], F)
            if f.op != 'eq0' and (lo is not None or hi is not None) and is_int(f.args[0]):
                if lo is not None and lo <= 0 and _excluded(f.args[0], lo, F):
                    lo += 1
                if hi is not None and hi >= 0 and _excluded(f.args[0], hi, F):
                    hi -= 1
            if f.op == 'lt0':
                if hi is not None and hi < 0:
                    return True
                if lo is not None and lo >= 0:
                    return False
            elif f.op == 'le0':
                if hi is not None and hi <= 0:
                    return True
                if lo is not None and lo > 0:
                    return False
            else:
                if lo is not None and lo > 0 or hi is not None and hi < 0:
                    return False
                if lo is not None and lo == hi == 0:
                    return True
        if f.op == 'truthy':
            x = f.args[0]
            if F.bools.get(T('isnone', x)) is True:
                return False
    if isinstance(f, Ite):
        d = decide(f.c, F)
        if d is not None:
            return decide(f.a if d else f.b, F)
        a, b = decide(f.a, F), decide(f.b, F)
        if a is not None and a == b:
            return a
    return None


def assume(f, pol, F):
    """Refined copy of F under f == pol, or None when infeasible; unit
    consequences of the disjunctive facts already known are drawn."""
    G = _assume(f, pol, F)
    if G is None or G is F:
        return G
    for _ in range(4):
        changed = False
        for g, b in list(G.bools.items()):
            if isinstance(g, T) and g.op in ('lt0', 'le0', 'eq0'):
                # an earlier bound says more once the ranges of its terms shrink
                d = g.args[0]
                if isinstance(d, Lin) and (len(d.t) > 1 or g.op == 'eq0' and not b) and \
                        any(G.rng.get(x) is not F.rng.get(x) for x in d.t):
                    old = dict(G.rng)
                    if not _refine(g.op, d, b, G):
                        return None
                    if G.rng != old:
                        G.memo = {}
                elif g.op == 'eq0' and not b and isinstance(d, (S, T)) and G.rng.get(d) is not F.rng.get(d):
                    if not _refine(g.op, d, b, G):
                        return None
                    G.memo = {}
                continue
            if isinstance(g, Ite):
                d = decide(g.c, G)
                if d is not None:
                    x = g.a if d else g.b
                    dx = decide(x, G)
                    if dx is None:
                        G = _assume(x, b, G)
                        changed = True
                    elif dx != b:
                        return None
            elif isinstance(g, T) and (g.op == 'or' and b or g.op == 'and' and not b):
                left = None
                for x in g.args:
                    d = decide(x, G)
                    if d == b:
                        left = None
                        break
                    if d is None:
                        if left is not None:
                            left = None
                            break
                        left = x
                else:
                    if left is None:
                        return None
                    G = _assume(left, b, G)
                    changed = True
            if G is None:
                return None
        if not changed:
            break
    return G


def _assume(f, pol, F):
    """Refined copy of F under f == pol, or None when infeasible."""
    d = decide(f, F)
    if d is not None and d != pol:
        return None
    if d is not None:
        return F
    if isinstance(f, T):
        if f.op == 'not':
            return _assume(f.args[0], not pol, F)
        if f.op == 'and' and pol or f.op == 'or' and not pol:
            for x in f.args:
                F = _assume(x, pol, F)
                if F is None:
                    return None
            G = F.copy()
            G.bools[f] = pol
            return G
        if f.op in ('and', 'or'):
            outs = [G for G in (_assume(x, pol, F) for x in f.args) if G is not None]
            if not outs:
                return None
            G = join_facts(outs)
            G.bools[f] = pol
            return G
    G = F.copy()
    G.bools[f] = pol
    if isinstance(f, T) and f.op in ('lt0', 'le0', 'eq0'):
        if not _refine(f.op, f.args[0], pol, G):
            return None
    if isinstance(f, Ite):
        for c in (True, False):
            H = _assume(f.c, c, G)
            if H is not None and _assume(f.a if c else f.b, pol, H) is None:
                # this gate side is impossible
                H2 = _assume(f.c, not c, G)
                if H2 is None:
                    return None
                return _assume(f.b if c else f.a, pol, H2)
    if G.memo:
        G.memo = {}
    if isinstance(f, T) and pol and f.op == 'isnone':
        G.bools[T('truthy', f.args[0])] = False
    if isinstance(f, T) and pol and f.op == 'truthy':
        G.bools[T('isnone', f.args[0])] = False
    return G


def _refine(op, d, pol, G):
    p = lin_parts(d)
    if op == 'eq0':
        bound = (Fraction(0), Fraction(0)) if pol else None
    elif op == 'lt0':
        if is_int(d):
            bound = (None, Fraction(-1)) if pol else (Fraction(0), None)
        else:
            bound = (None, Fraction(0)) if pol else (Fraction(0), None)
    else:
        bound = (None, Fraction(0)) if pol else (Fraction(0), None)
    if bound is None:
        # d != 0: shave an endpoint
        lo, hi = rng(d, G)
        if is_int(d):
            if lo == 0:
                bound = (Fraction(1), None)
            elif hi == 0:
                bound = (None, Fraction(-1))
            else:
                return True
        else:
            return True
    if len(p[1]) > 1:
        key, k0 = prim(p[1])
        l, h = bound
        l = None if l is None else (l - p[0]) / k0
        h = None if h is None else (h - p[0]) / k0
        if k0 < 0:
            l, h = h, l
        G.rng[key] = isect(G.rng.get(key, (None, None)), (l, h))
        l, h = G.rng[key]
        if l is not None and h is not None and l > h:
            return False
    # propagate to every atom
    for a, k in p[1].items():
        rest = mk_lin(p[0], {x: q for x, q in p[1].items() if x is not a})
        rl, rh = rng(rest, G)
        l, h = bound
        # k*a in [l - rh, h - rl]
        nl = None if l is None or rh is None else (l - rh) / k
        nh = None if h is None or rl is None else (h - rl) / k
        if k < 0:
            nl, nh = nh, nl
        if nl is None and nh is None:
            continue
        if is_int(a):
            nl = None if nl is None else Fraction(math.ceil(nl))
            nh = None if nh is None else Fraction(math.floor(nh))
        cur = rng(a, G)
        new = isect(cur, (nl, nh))
        if new[0] is not None and new[1] is not None and new[0] > new[1]:
            return False
        if new != cur:
            G.rng[a] = new
    lo, hi = rng(d, G)
    if lo is not None and hi is not None and lo > hi:
        return False
    return True


def join_facts(fs):
    if len(fs) == 1:
        return fs[0].copy()
    f0 = fs[0]
    rg = {}
    for k, r in f0.rng.items():
        ok = True
        for g in fs[1:]:
            r2 = g.rng.get(k)
            if r2 is None:
                ok = False
                break
            r = hull(r, r2)
        if ok and (r[0] is not None or r[1] is not None):
            rg[k] = r
    bl = {k: b for k, b in f0.bools.items()
          if all(g.bools.get(k) == b for g in fs[1:])}
    return Facts(rg, bl)


def simp(v, F, depth=0):
    """rewrite v under facts: resolve gates, point ranges, fdiv/mod."""
    if depth > 60:
        return v
    if isinstance(v, (C, Ref, ClsV, ModV, Ext, Top, Undef, FnV, Desc)):
        return v
    if isinstance(v, Ite):
        d = decide(v.c, F)
        if d is not None:
            return simp(v.a if d else v.b, F, depth + 1)
        Ft, Ff = assume(v.c, True, F), assume(v.c, False, F)
        if Ft is None:
            return simp(v.b, F, depth + 1)
        if Ff is None:
            return simp(v.a, F, depth + 1)
        return ite(simp(v.c, F, depth + 1), simp(v.a, Ft, depth + 1), simp(v.b, Ff, depth + 1))
    if isinstance(v, S):
        lo, hi = rng(v, F)
        if lo is not None and lo == hi and v.kind in ('int', 'bool'):
            return C(int(lo))
        return v
    if isinstance(v, Lin):
        c = mknum(v.c)
        for a, k in v.t.items():
            x = simp(a, F, depth + 1)
            if lin_parts(x) is None:
                return v
            c = add(c, scale(x, k))
        return c
    if isinstance(v, Tup):
        return Tup(simp(i, F, depth + 1) for i in v.items)
    if isinstance(v, Bts):
        return Bts(simp(i, F, depth + 1) for i in v.items)
    if isinstance(v, TD):
        return TD(simp(v.us, F, depth + 1))
    if isinstance(v, T):
        if is_bool(v):
            d = decide(v, F)
            if d is not None:
                return C(d)
        if v.op in ('lt0', 'le0', 'eq0'):
            x = simp(v.args[0], F, depth + 1)
            if x == v.args[0]:
                return v
            return lift(x, {'lt0': lt0, 'le0': le0, 'eq0': eq0}[v.op], F)
        if v.op == 'fdiv':
            r = fdiv(simp(v.args[0], F, depth + 1), v.args[1], F)
            return v if r is None else r
        if v.op == 'mod':
            r = mod(simp(v.args[0], F, depth + 1), v.args[1], F)
            return v if r is None else r
        if v.op == 'and':
            return conj(*[simp(x, F, depth + 1) for x in v.args])
        if v.op == 'or':
            return disj(*[simp(x, F, depth + 1) for x in v.args])
        if v.op == 'not':
            return neg(simp(v.args[0], F, depth + 1))
        args = tuple(simp(a, F, depth + 1) if isinstance(a, V) else a for a in v.args)
        if any(x is not y for x, y in zip(args, v.args)):
            w = T(v.op, *args, typ=v.typ)
            if w != v:
                return w
        return v
    if isinstance(v, Str):
        cells = []
        for c in v.cells:
            if isinstance(c, str):
                cells.append(c)
            else:
                x = simp(c[0], F, depth + 1)
                if isnum(x):
                    cells.append(f'{int(x.v):0{c[2]}d}'[c[1]])
                else:
                    cells.append((x, c[1], c[2]))
        return mkstr(cells)
    return v


def mkstr(cells):
    cells = tuple(cells)
    if all(isinstance(c, str) for c in cells):
        return C(''.join(cells))
    return Str(cells)


def lift(v, fn, F, depth=0):
    """apply numeric->formula fn distributing over gates inside v."""
    g = first_ite(v)
    if g is None or depth > 6:
        r = fn(v)
        return r
    d = decide(g.c, F)
    if d is not None:
        return lift(simp(v, F), fn, F, depth + 1)
    Ft, Ff = assume(g.c, True, F), assume(g.c, False, F)
    if Ft is None:
        return lift(simp(v, Ff), fn, Ff, depth + 1)
    if Ff is None:
        return lift(simp(v, Ft), fn, Ft, depth + 1)
    a = lift(simp(v, Ft), fn, Ft, depth + 1)
    b = lift(simp(v, Ff), fn, Ff, depth + 1)
    return ite(g.c, simp(a, Ft) if a is not None else a, simp(b, Ff) if b is not None else b)


def first_ite(v):
    """first gate reachable through numeric structure."""
    if isinstance(v, Ite):
        return v
    if isinstance(v, Lin):
        for a in sorted(v.t, key=rk):
            r = first_ite(a)
            if r is not None:
                return r
    if isinstance(v, T) and v.op in ('fdiv', 'mod', 'mul', 'abs', 'floor', 'ceil', 'int', 'round') :
        for a in v.args:
            if isinstance(a, V):
                r = first_ite(a)
                if r is not None:
                    return r
    return None


def any_ite(v):
    """first gate anywhere."""
    if not v.has_ite():
        return None
    if isinstance(v, Ite):
        inner = any_ite(v.c)
        return inner or v
    for k in v.kids():
        if k.has_ite():
            return any_ite(k)
    return None


def subst(v, m, F, memo=None):
    """replace entry symbols by terms and renormalise."""
    if memo is None:
        memo = {}
    r = memo.get(v)
    if r is None:
        r = memo[v] = _subst(v, m, F, memo)
    return r


def _subst(v, m, F, memo):
    if isinstance(v, S):
        return m.get(v, v)
    if not isinstance(v, V) or not v.kids():
        return v
    g = lambda x: subst(x, m, F, memo)
    if isinstance(v, Ite):
        return ite(g(v.c), g(v.a), g(v.b))
    if isinstance(v, Lin):
        c = mknum(v.c)
        for a, k in v.t.items():
            x = g(a)
            if lin_parts(x) is None:
                return v
            c = add(c, scale(x, k))
        return c
    if isinstance(v, Tup):
        return Tup(g(i) for i in v.items)
    if isinstance(v, Bts):
        return Bts(g(i) for i in v.items)
    if isinstance(v, TD):
        return TD(g(v.us))
    if isinstance(v, Str):
        return mkstr(c if isinstance(c, str) else (g(c[0]), c[1], c[2]) for c in v.cells)
    if isinstance(v, T):
        args = [g(a) if isinstance(a, V) else a for a in v.args]
        if v.op in ('lt0', 'le0', 'eq0'):
            r = lift(args[0], {'lt0': lt0, 'le0': le0, 'eq0': eq0}[v.op], F)
            return r if r is not None else T(v.op, *args, typ=v.typ)
        if v.op == 'not':
            return neg(args[0])
        if v.op == 'and':
            return conj(*args)
        if v.op == 'or':
            return disj(*args)
        if v.op == 'fdiv':
            r = lift(args[0], lambda x: fdiv(x, args[1], F), F)
            return r if r is not None else T(v.op, *args, typ=v.typ)
        if v.op == 'mod':
            r = lift(args[0], lambda x: mod(x, args[1], F), F)
            return r if r is not None else T(v.op, *args, typ=v.typ)
        return T(v.op, *args, typ=v.typ)
    return v


def solved(f):
    """an equation eq0(lin) solved for an integer entry symbol: (S, term)."""
    if not (isinstance(f, T) and f.op == 'eq0'):
        return None
    p = lin_parts(f.args[0])
    den = 1
    for k in list(p[1].values()) + [p[0]]:
        den = den * k.denominator // math.gcd(den, k.denominator)
    for a in sorted(p[1], key=rk, reverse=True):
        if isinstance(a, S) and abs(p[1][a] * den) == 1:
            k = p[1][a]
            rest = mk_lin(p[0], {x: q for x, q in p[1].items() if x is not a})
            if not any(x == a for x in walk(rest)):
                return a, scale(rest, -1 / k)
    return None
