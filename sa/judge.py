"""Deciding obligations over value-flow terms.

prove_eq      two terms have the same normal form on every feasible gate
inhabitant    concretisation of an abstract state: an assignment of the entry
              symbols under which every gate of the path condition holds (and
              the two terms differ).  Used only to keep an alarm: a difference
              that no point of the abstract state exhibits is not reported.
"""
import datetime
import math
import random
import time as _time
from fractions import Fraction
from .values import *
from .dom import *


class Unknown(Exception):
    pass


class Limit:
    """wall-clock end of the obligation being decided."""
    until = float('inf')


class Fails:
    """gates assumed on the leaves where an equation could not be shown."""

    def __init__(self, limit=6):
        self.limit, self.leaves, self.path = limit, [], []

    def leaf(self):
        if len(self.leaves) < self.limit:
            self.leaves.append(list(self.path))
        return False

    def more(self):
        return len(self.leaves) < self.limit


def _split(c, F, budget, fails, go):
    ok = True
    for pol in (True, False):
        G = assume(c, pol, F)
        if G is None:
            continue
        if fails is not None:
            fails.path.append((c, pol))
        e = solved(c) if pol else None
        r = go(e, G)
        if fails is not None:
            fails.path.pop()
        if not r:
            ok = False
            if fails is None or not fails.more() or budget[0] < 0:
                return False
    return ok


def prove_eq(a, b, F, budget=None, fails=None):
    if budget is None:
        budget = [4000]
    budget[0] -= 1
    if budget[0] < 0 or _time.time() > Limit.until:
        return False
    a, b = simp(a, F), simp(b, F)
    if a == b and not isinstance(a, Top):
        return True
    g = any_ite(a) or any_ite(b)
    if g is not None:
        d = decide(g.c, F)
        if d is None:
            c = _atom(g.c)
            if c is None or decide(c, F) is not None:
                c = g.c

            def go(e, G, a=a, b=b):
                if e is not None:
                    a, b = subst(a, {e[0]: e[1]}, G), subst(b, {e[0]: e[1]}, G)
                return prove_eq(a, b, G, budget, fails)
            return _split(c, F, budget, fails, go)
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
        return all(prove_eq(x, y, F, budget, fails) for x, y in zip(a.items, b.items))
    if isinstance(a, TD) and isinstance(b, TD):
        return prove_eq(a.us, b.us, F, budget, fails)
    if isinstance(a, Bts) and isinstance(b, Bts) and len(a.items) == len(b.items):
        return all(prove_eq(x, y, F, budget, fails) for x, y in zip(a.items, b.items))
    if is_bool(a) and is_bool(b) or is_bool(a) and isinstance(b, C) or is_bool(b) and isinstance(a, C):
        return prove_iff(a, b, F, budget, fails)
    if is_numeric(a) and is_numeric(b) and lin_parts(a) is not None and lin_parts(b) is not None:
        d = sub(a, b)
        if decide(eq0(d), F) is True:
            return True
        if any(isinstance(x, T) and x.op in ('mod', 'fdiv') for x in lin_parts(d)[1]):
            if decide(eq0(telescope(d, F)), F) is True or decide(eq0(remainders(d, F)), F) is True:
                return True
    if isinstance(a, T) and isinstance(b, T) and a.op == b.op and len(a.args) == len(b.args) and a.op != 'choice':
        return all((prove_eq(x, y, F, budget, fails) if isinstance(x, V) and isinstance(y, V) else x == y)
                   for x, y in zip(a.args, b.args))
    return fails.leaf() if fails is not None else False


def _atom(f):
    """an undecided atomic formula of a boolean term; equations that can be
    solved for an entry symbol come first."""
    stack = [f]
    first = None
    n = 0
    while stack and n < 400:
        n += 1
        x = stack.pop()
        if isinstance(x, T) and x.op in ('and', 'or', 'not'):
            stack.extend(reversed([a for a in x.args]))
        elif isinstance(x, Ite):
            if is_bool(x.a):
                stack.append(x.a)
            if is_bool(x.b):
                stack.append(x.b)
            stack.append(x.c)
        elif not isinstance(x, C):
            if first is None:
                first = x
            if solved(x) is not None:
                return x
    return first


def prove_iff(a, b, F, budget, fails=None):
    budget[0] -= 1
    if budget[0] < 0 or _time.time() > Limit.until:
        return False
    a, b = simp(a, F), simp(b, F)
    da, db = decide(a, F), decide(b, F)
    if da is not None and db is not None:
        return da == db or (fails.leaf() if fails is not None else False)
    if a == b:
        return True
    x = _atom(a) if da is None else _atom(b)
    if x is None or decide(x, F) is not None:
        return fails.leaf() if fails is not None else False

    def go(e, G):
        a1, b1 = a, b
        if e is not None:
            a1, b1 = subst(a, {e[0]: e[1]}, G), subst(b, {e[0]: e[1]}, G)
        return prove_iff(a1, b1, G, budget, fails)
    return _split(x, F, budget, fails, go)


def prove_false(pc, F, budget=None):
    """the path condition is infeasible (by facts alone)."""
    for c, pol in pc:
        F = assume(c, pol, F)
        if F is None:
            return True
    return False


# ------------------------------------------------------------- evaluation
class Ev:
    """value of a term under an assignment of its entry symbols."""

    def __init__(self, asg, interp=None):
        self.asg, self.interp = asg, interp or {}
        self.memo = {}

    def __call__(self, v):
        k = id(v)
        if k in self.memo:
            return self.memo[k][0]
        r = self.ev(v)
        self.memo[k] = (r, v)
        return r

    def ev(self, v):
        if isinstance(v, C):
            if isinstance(v.v, bool):
                return v.v
            if isinstance(v.v, float):
                p = lin_parts(v)
                if p is None:
                    return v.v
                return p[0]
            return v.v
        if isinstance(v, S):
            if v.name in self.asg:
                return self.asg[v.name]
            raise Unknown(v.name)
        if isinstance(v, Ite):
            return self(v.a) if self.bool(v.c) else self(v.b)
        if isinstance(v, Lin):
            r = v.c
            for a, k in v.t.items():
                r += k * self.num(a)
            return r
        if isinstance(v, Tup):
            return tuple(self(i) for i in v.items)
        if isinstance(v, Bts):
            return ('bytes',) + tuple(self(i) for i in v.items)
        if isinstance(v, TD):
            return ('td', self.num(v.us))
        if isinstance(v, Str):
            out = []
            for c in v.cells:
                if isinstance(c, str):
                    out.append(c)
                else:
                    n = self.num(c[0])
                    s = '%0*d' % (c[2], n)
                    if n < 0 or len(s) != c[2]:
                        raise Unknown('width')
                    out.append(s[c[1]])
            return ''.join(out)
        if isinstance(v, (ClsV, Ref, Ext, ModV)):
            return repr(v)
        if isinstance(v, T):
            return self.evT(v)
        raise Unknown(repr(v)[:60])

    def num(self, v):
        x = self(v)
        if isinstance(x, bool):
            return int(x)
        if isinstance(x, (int, Fraction)):
            return x
        raise Unknown('num %r' % (x,))

    def bool(self, v):
        x = self(v)
        if isinstance(x, bool):
            return x
        if isinstance(x, (int, Fraction)):
            return x != 0
        if x is None:
            return False
        raise Unknown('bool')

    def evT(self, v):
        o, a = v.op, v.args
        f = self.interp.get(o)
        if f is not None:
            return f(*[self(x) if isinstance(x, V) else x for x in a])
        if o == 'lt0':
            return self.num(a[0]) < 0
        if o == 'le0':
            return self.num(a[0]) <= 0
        if o == 'eq0':
            return self.num(a[0]) == 0
        if o == 'not':
            return not self.bool(a[0])
        if o == 'and':
            unk = None
            for x in a:
                try:
                    if not self.bool(x):
                        return False
                except Unknown as e:
                    unk = e
            if unk:
                raise unk
            return True
        if o == 'or':
            unk = None
            for x in a:
                try:
                    if self.bool(x):
                        return True
                except Unknown as e:
                    unk = e
            if unk:
                raise unk
            return False
        if o == 'fdiv':
            return self.num(a[0]) // self.num(a[1])
        if o == 'mod':
            return self.num(a[0]) % self.num(a[1])
        if o in ('fdiv2', 'mod2', 'div'):
            d = self.num(a[1])
            if d == 0:
                raise Unknown('div0')
            n = self.num(a[0])
            return n // d if o == 'fdiv2' else n % d if o == 'mod2' else Fraction(n) / d
        if o == 'mul':
            r = 1
            for x in a:
                r *= self.num(x)
            return r
        if o == 'abs':
            return abs(self.num(a[0]))
        if o == 'floor':
            return math.floor(self.num(a[0]))
        if o == 'ceil':
            return math.ceil(self.num(a[0]))
        if o == 'int':
            return math.trunc(self.num(a[0]))
        if o == 'float':
            return self.num(a[0])
        if o == 'isnone':
            return self(a[0]) is None
        if o == 'truthy':
            x = self(a[0])
            if isinstance(x, tuple) and x[:1] == ('td',):
                return x[1] != 0
            return bool(x)
        if o == 'hash':
            return ('hash', self(a[0]))
        if o in ('eq', 'is'):
            return self(a[0]) == self(a[1])
        if o == 'isint':
            x = self(a[0])
            return isinstance(x, int) or isinstance(x, Fraction) and x.denominator == 1
        if o == 'ord' and isinstance(a[0], Bts):
            return self(a[0].items[0])
        if o == 'cat':
            return ''.join(self(x) if not isinstance(x, str) else x for x in a)
        if o == 'str':
            x = self(a[0])
            if isinstance(x, Fraction) and x.denominator == 1:
                x = int(x)
            if isinstance(x, int):
                return str(x)
            raise Unknown('str')
        if o == 'format' and isinstance(a[1], C):
            x = self(a[0])
            if isinstance(x, Fraction):
                if x.denominator != 1:
                    raise Unknown('format')
                x = int(x)
            try:
                return format(x, a[1].v)
            except (ValueError, TypeError):
                raise Unknown('format')
        if o == 'getitem':
            if isinstance(a[0], S) and a[0].kind == 'dict':
                f = self.interp.get('[]' + a[0].name)
                if f is not None:
                    return f(self.num(a[1]))
            x, k = self(a[0]), self(a[1])
            if isinstance(x, (tuple, str)) and isinstance(k, (int, Fraction)):
                try:
                    return x[int(k)]
                except IndexError:
                    raise Unknown('index')
        if o == 'slc' and isinstance(a[1], T) and a[1].op == 'slice':
            x, sl = self(a[0]), [plain(self(i)) for i in a[1].args]
            if isinstance(x, str) or isinstance(x, tuple) and x[:1] not in (('td',), ('bytes',)):
                return x[slice(*sl)]
        if o.startswith('strm.') or o in ('strmod', 'strmul', 'concat', 'len'):
            if any(isinstance(y, Ref) for x in a if isinstance(x, V) for y in walk(x)):
                raise Unknown('object in text')
            xs = [plain(self(x) if isinstance(x, V) else x) for x in a]
            try:
                if o == 'strmod' and isinstance(xs[0], str):
                    return xs[0] % xs[1]
                if o == 'strmul':
                    return xs[0] * xs[1]
                if o == 'concat' and isinstance(xs[0], str):
                    return xs[0] + xs[1]
                if o == 'len' and isinstance(xs[0], (str, tuple)) and xs[0][:1] not in (('td',), ('bytes',)):
                    return len(xs[0])
                if o[5:] in STR_PURE and isinstance(xs[0], str):
                    r = getattr(xs[0], o[5:])(*xs[1:])
                    return tuple(r) if isinstance(r, list) else r
            except (TypeError, ValueError, IndexError, KeyError):
                pass
        raise Unknown('op ' + o)


STR_PURE = {'lstrip', 'rstrip', 'strip', 'zfill', 'rjust', 'ljust', 'center', 'lower', 'upper', 'title', 'capitalize',
            'replace', 'startswith', 'endswith', 'find', 'rfind', 'index', 'rindex', 'count', 'split', 'rsplit', 'partition', 'rpartition',
            'isdigit', 'isdecimal', 'isnumeric', 'isalpha', 'isspace', 'removeprefix', 'removesuffix', 'casefold', 'swapcase'}


def plain(x):
    """integers as ints, for the evaluation of text operations."""
    if isinstance(x, Fraction):
        if x.denominator != 1:
            raise Unknown('fraction in text')
        return int(x)
    if isinstance(x, tuple):
        if x[:1] in (('td',), ('bytes',), ('hash',)):
            raise Unknown('object in text')
        return tuple(plain(i) for i in x)
    if isinstance(x, (str, int)) or x is None:
        return x
    raise Unknown('text')


def year_start(y):
    """an interpretation of the year table: consistent lengths 365/366."""
    y = int(y)
    return math.floor(Fraction(3652422, 10000) * (y - 1)) + 78


class Meaning(dict):
    """an interpretation of operations by a rule for their names."""

    def __init__(self, rule, *a):
        super().__init__(*a)
        self.rule = rule

    def get(self, op, d=None):
        return self.rule(op) or dict.get(self, op, d)


BASE_INTERP = {'[]YEAR_START': year_start, 'tdargs': lambda n: repr(datetime.timedelta(microseconds=int(n)))[19:-1]}


def symbols(*vs):
    out = {}
    for v in vs:
        for x in walk(v):
            if isinstance(x, S) and x.kind != 'dict':
                out[x.name] = x
    return out


def _cands(s, consts):
    if s.kind == 'bool':
        return [False, True]
    if s.kind in ('int', 'num'):
        lo = -4000 if s.lo is None else int(math.ceil(s.lo))
        hi = 4000 if s.hi is None else int(math.floor(s.hi))
        base = {lo, hi, lo + 1, hi - 1, (lo + hi) // 2, (lo + 2 * hi) // 3, (2 * lo + hi) // 3, 0, 1}
        base |= consts
        return sorted(x for x in base if (s.lo is None or lo <= x) and (s.hi is None or x <= hi))
    if s.kind == 'tz':
        return ['tz:' + s.name]
    if s.kind == 'any':
        return [None, 'any:' + s.name]
    return ['obj:' + s.name]


class Clock:
    """time left for concretisation in one run of a check."""
    left = 150.0
    end = float('inf')


def _dn(x):
    x = abs(float(x))
    return x / (x + 1) if x < 1 else 0.5 + math.log2(x + 1) / 4


class Dist:
    """how far a point is from a condition having a polarity (0: it has)."""

    def __init__(self, ev):
        self.ev = ev

    def __call__(self, f, pol, depth=0):
        e = self.ev
        if depth > 40:
            return 0.0 if e.bool(f) == pol else 1.0
        if isinstance(f, Ite) and not is_numeric(f):
            return (self(f.a, pol, depth + 1) if e.bool(f.c) else self(f.b, pol, depth + 1))
        if isinstance(f, T):
            o = f.op
            if o == 'not':
                return self(f.args[0], not pol, depth + 1)
            if o in ('and', 'or'):
                ds = []
                for x in f.args:
                    try:
                        ds.append(self(x, pol, depth + 1))
                    except Unknown:
                        ds.append(1.0)
                return sum(ds) if (o == 'and') == pol else min(ds)
            if o in ('lt0', 'le0', 'eq0'):
                x = e.num(f.args[0])
                t = x < 0 if o == 'lt0' else x <= 0 if o == 'le0' else x == 0
                if t == pol:
                    return 0.0
                return 0.25 + _dn(x if pol or o != 'eq0' else 0)
        return 0.0 if e.bool(f) == pol else 1.0


def _bounds(s, facts):
    lo, hi = s.lo, s.hi
    if facts is not None:
        l2, h2 = rng(s, facts)
        lo = l2 if lo is None or l2 is not None and l2 > lo else lo
        hi = h2 if hi is None or h2 is not None and h2 < hi else hi
    return (-10**12 if lo is None else int(math.ceil(lo)), 10**12 if hi is None else int(math.floor(hi)))


def _guided(conds, goals, test, start, syms, facts, it, deadline, rnd, evals):
    """descend on the distance to conds + goals from a starting point."""
    nums = [n for n, s in syms.items() if s.kind in ('int', 'num')]
    flips = [n for n, s in syms.items() if s.kind == 'bool']
    bnd = {n: _bounds(syms[n], facts) for n in nums}
    unk = [None]

    def cost(asg):
        evals[0] -= 1
        e = Ev(asg, it)
        d = Dist(e)
        t, hard = 0.0, 0.0
        try:
            for c, pol in conds:
                hard += d(c, pol)
            for c, pol in goals:
                t += d(c, pol)
            if hard == 0:
                if test(e):
                    return -1.0
                t += 0.1
            return t + 2 * hard
        except Unknown as u:
            unk[0] = str(u)
            return 1e9
    cur = dict(start)
    best = cost(cur)
    if best < 0:
        return cur, None
    stuck = 0
    while evals[0] > 0 and _time.time() < deadline and stuck < 2:
        moved = False
        order = nums + flips
        rnd.shuffle(order)
        for n in order:
            if n in flips:
                nxt = dict(cur)
                nxt[n] = not cur[n]
                c = cost(nxt)
                if c < 0:
                    return nxt, None
                if c < best:
                    cur, best, moved = nxt, c, True
                continue
            lo, hi = bnd[n]
            for sg in (1, -1):
                step = 1
                gain = False
                while evals[0] > 0:
                    v = cur[n] + sg * step
                    if not lo <= v <= hi:
                        if step == 1:
                            break
                        v = hi if sg > 0 else lo
                        if v == cur[n]:
                            break
                    nxt = dict(cur)
                    nxt[n] = v
                    c = cost(nxt)
                    if c < 0:
                        return nxt, None
                    if c < best:
                        cur, best, moved, gain = nxt, c, True, True
                        step *= 2
                    elif step > 1:
                        step = 1 if gain and step > 2 else 0
                        gain = False
                        if not step:
                            break
                    else:
                        break
        # coarse steps, when unit steps make no difference
        if not moved:
            for n in nums:
                lo, hi = bnd[n]
                w = hi - lo
                for k in (2, 3, 7, 10, 19, 60, 100, 1000, w // 2, w // 3):
                    for sg in (1, -1):
                        v = cur[n] + sg * k
                        if k and lo <= v <= hi and evals[0] > 0:
                            nxt = dict(cur)
                            nxt[n] = v
                            c = cost(nxt)
                            if c < 0:
                                return nxt, None
                            if c < best:
                                cur, best, moved = nxt, c, True
        stuck = 0 if moved else stuck + 1
        if not moved and nums:
            n = rnd.choice(nums)
            lo, hi = bnd[n]
            cur = dict(cur)
            cur[n] = rnd.randint(lo, hi)
            best = cost(cur)
            if best < 0:
                return cur, None
    return None, unk[0]


def inhabitant(pc, test, terms, facts=None, interp=None, seed=1, tries=4000, fixed=None, goals=None, frac=()):
    """assignment under which the path condition holds and test(ev) is true,
    or None.  -> (assignment or None, undetermined?)"""
    it = dict(BASE_INTERP) if not isinstance(interp, Meaning) else Meaning(interp.rule, BASE_INTERP)
    it.update(interp or {})
    conds = [c for c, _ in pc]
    syms = symbols(*(conds + list(terms)))
    consts = {s: set() for s in syms}
    for c in conds + list(terms):
        for x in walk(c):
            if isinstance(x, T) and x.op in ('lt0', 'le0', 'eq0'):
                p = lin_parts(x.args[0])
                if p and len(p[1]) == 1:
                    (a, k), = p[1].items()
                    if isinstance(a, S) and a.name in consts:
                        b = math.floor(-p[0] / k)
                        consts[a.name] |= {b - 1, b, b + 1}
                elif p:
                    for a, k in p[1].items():
                        if isinstance(a, S) and a.name in consts:
                            b = math.floor(-p[0] / k)
                            consts[a.name] |= {b - 1, b, b + 1, b // 2}
    cands = {}
    for n, s in syms.items():
        if fixed and n in fixed:
            cands[n] = [fixed[n]]
            continue
        cands[n] = _cands(s, consts[n])
        if facts is not None and s.kind in ('int', 'num'):
            lo, hi = rng(s, facts)
            cs = set(cands[n])
            for b in (lo, hi):
                if b is not None:
                    b = math.floor(b)
                    cs |= {b - 1, b, b + 1}
            cands[n] = [x for x in sorted(cs) if (lo is None or x >= lo) and (hi is None or x <= hi)]
        if s.kind == 'num' and frac:
            cands[n] = sorted(set(cands[n]) | {x + f for x in cands[n] for f in frac if s.hi is None or x + f <= s.hi})
        if not cands[n]:
            return None, False
    t0 = _time.time()
    try:
        return _search(pc, test, cands, syms, it, facts, seed, tries, list(goals or []) or [[]], t0)
    finally:
        Clock.left -= _time.time() - t0


def _search(pc, test, cands, syms, it, facts, seed, tries, goals, t0):
    deadline = min(Clock.end, t0 + max(0.0, min(12.0, Clock.left)))
    rnd = random.Random(seed)
    unknown = False
    names = sorted(cands)
    total = 1
    for n in names:
        total *= len(cands[n])
        if total > tries:
            break
    best = None
    for i in range(tries):
        if i % 16 == 0 and _time.time() > t0 + (deadline - t0) * 0.4:
            break
        if total <= tries:
            if i >= total:
                break
            asg, q = {}, i
            for n in names:
                q, r = divmod(q, len(cands[n]))
                asg[n] = cands[n][r]
        elif best is not None and rnd.random() < 0.7:
            asg = dict(best[1])
            for n in rnd.sample(names, rnd.choice((1, 1, 2))):
                asg[n] = rnd.choice(cands[n])
        else:
            asg = {n: rnd.choice(cands[n]) for n in names}
        e = Ev(asg, it)
        try:
            bad = 0
            for c, pol in pc:
                if e.bool(c) != pol:
                    bad += 1
            if bad:
                if best is None or bad <= best[0]:
                    best = (bad, asg)
                continue
            best = (0, asg)
            if test(e):
                return asg, False
        except Unknown as u:
            unknown = unknown or str(u)
    if total <= tries and not goals[0]:
        return None, unknown
    starts = []
    if best is not None:
        starts.append(best[1])
    base = {n: rnd.choice(cands[n]) for n in names}
    for n in names:          # the second of a pair starts as the first
        if n.endswith('2') and n[:-1] in base and syms[n].kind == syms[n[:-1]].kind and syms[n].kind in ('int', 'num', 'bool'):
            base[n] = base[n[:-1]]
    starts.append(base)
    rounds = 0
    while _time.time() < deadline and rounds < 12:
        rounds += 1
        for g in goals:
            for st in starts:
                if _time.time() > deadline:
                    break
                r, u = _guided(pc, g, test, st, syms, facts, it, deadline, rnd, [700])
                if r is not None:
                    return r, False
                unknown = unknown or u
        base = {n: rnd.choice(cands[n]) for n in names}
        for n in names:
            if n.endswith('2') and n[:-1] in base and rnd.random() < 0.8 and syms[n].kind == syms[n[:-1]].kind and syms[n].kind in ('int', 'num', 'bool'):
                base[n] = base[n[:-1]]
        starts = [base]
    return None, unknown
