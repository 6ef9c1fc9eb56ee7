"""Abstract values of the value-flow domain.

A value is a hash-consed-by-equality immutable term.  Numbers are kept in a
linear normal form over *atoms* (symbols and uninterpreted operators), with
floor-division and remainder by constants normalised under interval facts.
Control joins produce gated values Ite(c, a, b) (gated SSA), never paths.
"""
from fractions import Fraction


class V:
    __slots__ = ('_key', '_hash', '_ite', '_rep', '_int', '_bool', '_rel', '_prim')

    def key(self):
        k = getattr(self, '_key', None)
        if k is None:
            k = self._mk()
            self._key = k
        return k

    def __eq__(self, o):
        return self is o or (isinstance(o, V) and hash(self) == hash(o)
                             and self.key() == o.key())

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        h = getattr(self, '_hash', None)
        if h is None:
            h = hash(self.key())
            self._hash = h
        return h

    def kids(self):
        return ()

    def has_ite(self):
        i = getattr(self, '_ite', None)
        if i is None:
            i = isinstance(self, Ite) or any(k.has_ite() for k in self.kids())
            self._ite = i
        return i


class C(V):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def _mk(self):
        v = self.v
        if isinstance(v, bool):
            return ('C', 'b', v)
        if isinstance(v, (int, float, Fraction)):
            return ('C', 'n', v)      # 1, 1.0 and Fraction(1) are one value
        return ('C', type(v).__name__, v if _hashable(v) else id(v))

    def __repr__(self):
        return repr(self.v)


def _hashable(v):
    try:
        hash(v)
        return True
    except TypeError:
        return False


class S(V):
    """Entry symbol.  kind: int num str bool any td tz obj dict"""
    __slots__ = ('name', 'kind', 'lo', 'hi')

    def __init__(self, name, kind='int', lo=None, hi=None):
        self.name, self.kind, self.lo, self.hi = name, kind, lo, hi

    def _mk(self):
        return ('S', self.name)

    def __repr__(self):
        return self.name


class T(V):
    __slots__ = ('op', 'args', 'typ')

    def __init__(self, op, *args, typ=None):
        self.op, self.args, self.typ = op, args, typ

    def _mk(self):
        return ('T', self.op) + tuple(
            a.key() if isinstance(a, V) else a for a in self.args)

    def kids(self):
        return tuple(a for a in self.args if isinstance(a, V))

    def __repr__(self):
        return f"{self.op}({', '.join(map(rk, self.args))})"


class Lin(V):
    """const + sum(coef*atom); terms is a dict atom->Fraction (non-empty)."""
    __slots__ = ('c', 't')

    def __init__(self, c, t):
        self.c, self.t = c, t

    def _mk(self):
        return ('L', self.c, frozenset((a.key(), k) for a, k in self.t.items()))

    def kids(self):
        return tuple(self.t)

    def __repr__(self):
        s = ' + '.join((rk(a) if k == 1 else _fr(k) + '*' + rk(a))
                       for a, k in sorted(self.t.items(), key=lambda x: rk(x[0])))
        return f'({s} + {_fr(self.c)})' if self.c else f'({s})'


def rk(v):
    """rendering used to order terms (cached)."""
    try:
        return v._rep
    except AttributeError:
        pass
    r = repr(v)
    if isinstance(v, V):
        v._rep = r
    return r


def _fr(k):
    return str(int(k)) if k == int(k) else str(k)


class Tup(V):
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def _mk(self):
        return ('U',) + tuple(i.key() for i in self.items)

    def kids(self):
        return self.items

    def __repr__(self):
        return '(' + ', '.join(map(rk, self.items)) + ')'


class Ite(V):
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def _mk(self):
        return ('I', self.c.key(), self.a.key(), self.b.key())

    def kids(self):
        return (self.c, self.a, self.b)

    def __repr__(self):
        return f'[{rk(self.c)} ? {rk(self.a)} : {rk(self.b)}]'


class TD(V):
    """timedelta with total microseconds us (numeric value)."""
    __slots__ = ('us',)

    def __init__(self, us):
        self.us = us

    def _mk(self):
        return ('TD', self.us.key())

    def kids(self):
        return (self.us,)

    def __repr__(self):
        return f'td({self.us!r})'


class Bts(V):
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def _mk(self):
        return ('B',) + tuple(i.key() for i in self.items)

    def kids(self):
        return self.items

    def __repr__(self):
        return 'bytes' + repr(self.items)


class Str(V):
    """String of known length: cells are one-char str or (value, i, n): digit
    i (from the left) of the n-digit decimal rendering of value."""
    __slots__ = ('cells',)

    def __init__(self, cells):
        self.cells = tuple(cells)

    def _mk(self):
        return ('Str',) + tuple(c if isinstance(c, str) else
                                (c[0].key(), c[1], c[2]) for c in self.cells)

    def kids(self):
        return tuple({c[0] for c in self.cells if not isinstance(c, str)})

    def __repr__(self):
        out = ''
        for c in self.cells:
            out += c if isinstance(c, str) else ('{%r/%d}' % (c[0], c[2]) if c[1] == 0 else '')
        return f's"{out}"'


class Ref(V):
    __slots__ = ('oid',)

    def __init__(self, oid):
        self.oid = oid

    def _mk(self):
        return ('R', self.oid)

    def __repr__(self):
        return f'&{self.oid}'


class ClsV(V):
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def _mk(self):
        return ('K', self.name)

    def __repr__(self):
        return f'<class {self.name}>'


class FnV(V):
    __slots__ = ('fn', 'bound', 'env')

    def __init__(self, fn, bound=None, env=None):
        self.fn, self.bound, self.env = fn, bound, env

    def _mk(self):
        return ('F', id(self.fn), self.bound.key() if self.bound else None,
                self.env)

    def __repr__(self):
        return f'<fn {self.fn.qual}>'


class Desc(V):
    """property / classmethod / staticmethod wrapper around FnV."""
    __slots__ = ('kind', 'f')

    def __init__(self, kind, f):
        self.kind, self.f = kind, f

    def _mk(self):
        return ('D', self.kind, self.f.key())

    def __repr__(self):
        return f'{self.kind}({self.f!r})'


class ModV(V):
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def _mk(self):
        return ('M', self.name)

    def __repr__(self):
        return f'<module {self.name}>'


class Ext(V):
    """external (stdlib/builtin) object, by dotted name."""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def _mk(self):
        return ('X', self.name)

    def __repr__(self):
        return f'<{self.name}>'


class BM(V):
    """method of a builtin-typed value."""
    __slots__ = ('obj', 'name')

    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def _mk(self):
        return ('BM', self.obj.key(), self.name)

    def kids(self):
        return (self.obj,)

    def __repr__(self):
        return f'{self.obj!r}.{self.name}'


class Sup(V):
    __slots__ = ('owner', 'obj')

    def __init__(self, owner, obj):
        self.owner, self.obj = owner, obj

    def _mk(self):
        return ('Sup', self.owner, self.obj.key())

    def __repr__(self):
        return f'super({self.owner})'


class Top(V):
    __slots__ = ('deps', 'why')

    def __init__(self, deps=frozenset(), why=''):
        self.deps, self.why = frozenset(deps), why

    def _mk(self):
        return ('Top', id(self))

    def __repr__(self):
        return f'?<{self.why}:{",".join(sorted(self.deps))}>'


class Undef(V):
    __slots__ = ()

    def _mk(self):
        return ('Undef',)

    def __repr__(self):
        return '<unset>'


UNDEF = Undef()
NONE = C(None)
TRUE = C(True)
FALSE = C(False)


def deps(v, acc=None):
    """Names of the entry symbols a value depends on."""
    if acc is None:
        acc = set()
    stack = [v]
    seen = set()
    while stack:
        x = stack.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, S):
            acc.add(x.name)
        elif isinstance(x, Top):
            acc |= x.deps
        else:
            stack.extend(x.kids())
            if isinstance(x, FnV) and x.bound is not None:
                stack.append(x.bound)
    return acc


def walk(v):
    stack = [v]
    seen = set()
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(x.kids())
