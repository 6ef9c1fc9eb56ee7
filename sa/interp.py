"""Abstract interpreter over Python source producing gated value-flow terms."""
import time as _time
import ast
import math
import os
import re
import builtins as _b
from fractions import Fraction
from .values import *
from .dom import *

EXC_BASES = {}
for _n in dir(_b):
    _o = getattr(_b, _n)
    if isinstance(_o, type) and issubclass(_o, BaseException):
        EXC_BASES[_n] = [c.__name__ for c in _o.__mro__ if c is not object]

EXC_BASES['re.error'] = ['re.error', 'error', 're.PatternError', 'PatternError', 'Exception', 'BaseException']
BUILTIN_TYPES = {'int', 'str', 'bytes', 'tuple', 'list', 'dict', 'set', 'float',
                 'bool', 'object', 'type', 'frozenset', 'complex', 'bytearray'}


class Dead(Exception):
    """current abstract flow has no normal continuation."""


class Giveup(Exception):
    """analysis budget exceeded."""


class Fn:
    cache = None

    def __init__(self, node, module, owner, qual):
        self.node, self.module, self.owner, self.qual = node, module, owner, qual
        self.name = getattr(node, 'name', '<lambda>')
        self.gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in _own(node))
        self.globals = {x for n in _own(node) if isinstance(n, ast.Global) for x in n.names}
        self.nonlocals = {x for n in _own(node) if isinstance(n, ast.Nonlocal) for x in n.names}


def _own(node):
    """nodes of a function excluding nested function bodies."""
    stack = list(ast.iter_child_nodes(node))
    while stack:
        n = stack.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            stack.extend(ast.iter_child_nodes(n))


class HObj:
    """heap object. kind: inst list dict set cls mod"""
    __slots__ = ('kind', 'cls', 'attrs', 'items')

    def __init__(self, kind, cls=None, attrs=None, items=None):
        self.kind, self.cls, self.attrs, self.items = kind, cls, attrs or {}, items

    def setattr(self, n, v):
        a = dict(self.attrs)
        a[n] = v
        return HObj(self.kind, self.cls, a, self.items)

    def with_items(self, items):
        return HObj(self.kind, self.cls, self.attrs, items)


class St:
    __slots__ = ('heap', 'envs', 'facts', 'pc', 'events', 'held')

    def __init__(self):
        self.heap, self.envs, self.facts, self.pc = {}, {}, Facts(), ()
        self.events = ()
        self.held = ()

    def copy(self):
        s = St()
        s.heap, s.envs, s.facts, s.pc = dict(self.heap), dict(self.envs), self.facts, self.pc
        s.events, s.held = self.events, self.held
        return s


class Exit:
    __slots__ = ('kind', 'val', 'st', 'loc')

    def __init__(self, kind, val, st, loc=None):
        self.kind, self.val, self.st, self.loc = kind, val, st, loc


class Exc(V):
    """an exception value."""
    __slots__ = ('cls', 'args', 'loc')

    def __init__(self, cls, args=(), loc=None):
        self.cls, self.args, self.loc = cls, args, loc

    def _mk(self):
        return ('E', self.cls)

    def __repr__(self):
        return f'{self.cls}@{self.loc}'


class Frame:
    def __init__(self, fn, fid, parent, module, owner, depth, caller=None):
        self.fn, self.fid, self.parent, self.module, self.owner = fn, fid, parent, module, owner
        self.raises = []
        self.depth = depth
        self.caller = caller
        self.line = 0

    def loc(self):
        q = self.fn.qual if self.fn else '<module>'
        return f'{self.module}.py:{self.line} in {q}'


def cat_slice(o, sl):
    """a slice whose ends lie in the constant text a concatenation begins or ends with."""
    if not (isinstance(o, T) and o.op == 'cat') or sl.step not in (None, 1):
        return None
    text = lambda x: x.v if isinstance(x, C) and isinstance(x.v, str) else ''
    c, e = text(o.args[0]), text(o.args[-1])
    lo, hi, parts = sl.start or 0, sl.stop, list(o.args)
    if len(parts) < 2:
        return None
    if lo < 0:
        if hi is None or hi < 0:
            return C(e[sl]) if -lo <= len(e) else None
        return None
    if hi is not None and hi >= 0:
        return C(c[sl]) if lo <= len(c) and hi <= len(c) else None
    if lo > len(c) or hi is not None and -hi > len(e):
        return None
    if lo:
        parts[0] = C(c[lo:])
    if hi is not None:
        parts[-1] = C(e[:hi])
    parts = [x for x in parts if not (isinstance(x, C) and x.v == '')]
    return parts[0] if len(parts) == 1 else T('cat', *parts, typ='str')


class Interp:
    MAX_STEPS = 3_000_000

    def __init__(self, root, package='badidatetime'):
        self.root, self.package = root, package
        self.dir = os.path.join(root, package)
        self.trees, self.sources = {}, {}
        self.classes = {}       # name -> (module, node, bases)
        self.mros = {}
        self.fns = {}
        self.uid = 0
        self.steps = 0
        self.until = float('inf')
        self.watch = None       # places whose reads are recorded as events
        self.others = None      # place -> stores other threads may make at any time
        self.ext_const = {}     # dotted name of an external constant -> value
        self.opaque = {}        # qual -> handler(interp, args, kwargs, st, fr) or None
        self.ext_hooks = {}     # dotted name -> handler
        self.whole_numbers = False  # plain decimals stay one piece of text
        self.sym_methods = {}   # symbol name or kind -> {method: handler}
        self.trace = None
        self.loaded = {}
        self.fn_seen = set()
        self.analysed_calls = 0
        self.mod_parents = {}
        self.envparents = {}

    # ------------------------------------------------------------ loading
    def parse(self, mod):
        if mod not in self.trees:
            p = os.path.join(self.dir, mod + '.py')
            src = open(p, encoding='utf-8').read()
            self.sources[mod] = src
            self.trees[mod] = ast.parse(src)
        return self.trees[mod]

    def has_module(self, mod):
        return os.path.exists(os.path.join(self.dir, mod + '.py'))

    def load(self, mod, st):
        """abstractly execute module body (definition-time effects)."""
        oid = ('mod', mod)
        if oid in st.heap:
            return
        st.heap[oid] = HObj('mod', mod, {'__name__': C(f'{self.package}.{mod}')})
        tree = self.parse(mod)
        fr = Frame(None, oid, None, mod, None, 0)
        for s in tree.body:
            try:
                outs = self.stmt(s, st, fr)
            except Giveup:
                raise
            nx = [o for o in outs if o.kind == 'next']
            if nx:
                m = self.merge([(o.st, None) for o in nx], st.pc)[0]
                if m is not st:
                    st.heap, st.envs, st.facts, st.events = m.heap, m.envs, m.facts, m.events
                st.pc = ()
        return st.heap[oid]

    def base_state(self, mods):
        st = St()
        for m in mods:
            self.load(m, st)
        return st

    def new_id(self, kind):
        self.uid += 1
        return (kind, self.uid)

    # ---------------------------------------------------------- utilities
    def top(self, why, *vals):
        d = set()
        for v in vals:
            if isinstance(v, V):
                deps(v, d)
        return Top(d, why)

    def new_list(self, st, items):
        oid = self.new_id('list')
        st.heap[oid] = HObj('list', items=tuple(items))
        return Ref(oid)

    def new_dict(self, st, items):
        oid = self.new_id('dict')
        st.heap[oid] = HObj('dict', items=dict(items))
        return Ref(oid)

    def mro(self, name):
        if name in self.mros:
            return self.mros[name]
        bases = self.classes[name][2] if name in self.classes else []
        seqs = [list(self.mro(b)) if b in self.classes else self._ext_mro(b) for b in bases]
        seqs.append(list(bases))
        res = [name]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                break
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            res.append(h)
            for s in seqs:
                if s[0] == h:
                    del s[0]
        if name in self.classes and 'object' not in res:
            res.append('object')
        self.mros[name] = res
        return res

    def _ext_mro(self, b):
        if b in EXC_BASES:
            return EXC_BASES[b] + ['object']
        if b == 'NamedTuple':
            return [b, 'tuple', 'object']
        return [b, 'object'] if b != 'object' else ['object']

    def find_attr(self, st, cls, name, after=None):
        m = self.mro(cls)
        if after is not None:
            m = m[m.index(after) + 1:] if after in m else m
        for k in m:
            h = st.heap.get(('cls', k))
            if h is not None and name in h.attrs:
                return h.attrs[name], k
        return None, None

    def mangle(self, name, owner):
        if owner and name.startswith('__') and not name.endswith('__'):
            return '_' + owner.lstrip('_') + name
        return name

    # -------------------------------------------------------------- merge
    def merge(self, pairs, base, depth=0):
        """merge (state, value) pairs with mutually exclusive pcs."""
        if len(pairs) == 1:
            st, v = pairs[0]
            return st, v
        n = len(base) + depth
        first = pairs[0][0].pc
        groups = {}
        for p in pairs:
            e = p[0].pc[n] if len(p[0].pc) > n else None
            groups.setdefault(e, []).append(p)
        if len(groups) == 1:
            if None in groups:
                # indistinguishable: nondeterministic choice
                a, rest = pairs[0], pairs[1:]
                self.uid += 1
                c = T('choice', self.uid)
                s2, v2 = self.merge(rest, base, depth)
                return self.join(c, a[0], a[1], s2, v2, base, pairs)
            return self.merge(pairs, base, depth + 1)
        keys = [k for k in groups if k is not None]
        # prefer a clean complementary split
        keys.sort(key=lambda k: (0 if isinstance(k[0], T) and k[0].op in ('or', 'and') else 1, repr(k)))
        pick = keys[0]
        for k in keys:
            if (k[0], not k[1]) in groups and len(groups) == 2:
                pick = k
                break
        A = groups.pop(pick)
        B = [p for g in groups.values() for p in g]
        cond = pick[0] if pick[1] else neg(pick[0])
        sA, vA = self.merge(A, base, depth + 1)
        sB, vB = self.merge(B, base, depth)
        return self.join(cond, sA, vA, sB, vB, base, pairs)

    def join(self, cond, s1, v1, s2, v2, base, pairs):
        out = St()
        f1, f2 = s1.facts, s2.facts

        def J(a, b):
            if a is b:
                return a
            if a.has_ite():
                a = simp(a, f1)
            if b.has_ite():
                b = simp(b, f2)
            return ite(cond, a, b)
        h1, h2 = s1.heap, s2.heap
        heap = dict(h1)
        for oid, o2 in h2.items():
            o1 = h1.get(oid)
            if o1 is None:
                heap[oid] = o2
            elif o1 is not o2:
                heap[oid] = self.join_obj(o1, o2, J)
        out.heap = heap
        envs = dict(s1.envs)
        for fid, e2 in s2.envs.items():
            e1 = envs.get(fid)
            if e1 is None:
                envs[fid] = e2
            elif e1 is not e2:
                e = dict(e1)
                for k in set(e1) | set(e2):
                    a, b = e1.get(k, UNDEF), e2.get(k, UNDEF)
                    e[k] = J(a, b)
                envs[fid] = e
        out.envs = envs
        out.facts = join_facts([s1.facts, s2.facts])
        # pc: base plus the residual disjunction
        c1 = self._pcf(s1.pc[len(base):])
        c2 = self._pcf(s2.pc[len(base):])
        d = disj(c1, c2)
        out.pc = tuple(base) + (((d, True),) if not isinstance(d, C) and not self._compl(s1.pc, s2.pc, len(base)) else ())
        ev = s1.events
        if s1.events is not s2.events:
            n = 0
            for a, b in zip(s1.events, s2.events):
                if a is not b:
                    break
                n += 1
            ev = s1.events + s2.events[n:]
        out.events = ev
        out.held = s1.held if s1.held == s2.held else tuple(x for x in s1.held if x in s2.held)
        v = None
        if v1 is not None or v2 is not None:
            v = J(v1, v2)
        return out, v

    def _compl(self, p1, p2, n):
        return (len(p1) == n + 1 and len(p2) == n + 1 and p1[n][0] == p2[n][0]
                and p1[n][1] != p2[n][1]) or len(p1) == n or len(p2) == n

    def _pcf(self, pc):
        return conj(*[c if p else neg(c) for c, p in pc]) if pc else TRUE

    def join_obj(self, o1, o2, J):
        attrs = dict(o1.attrs)
        for k in set(o1.attrs) | set(o2.attrs):
            a, b = o1.attrs.get(k, UNDEF), o2.attrs.get(k, UNDEF)
            if a is not b:
                attrs[k] = J(a, b)
        items = o1.items
        if o1.items is not o2.items and o1.items != o2.items:
            if (isinstance(o1.items, tuple) and isinstance(o2.items, tuple)
                    and len(o1.items) == len(o2.items)):
                items = tuple(J(a, b) for a, b in zip(o1.items, o2.items))
            elif isinstance(o1.items, dict) and isinstance(o2.items, dict):
                items = dict(o1.items)
                for k in list(o1.items) + [k for k in o2.items if k not in o1.items]:
                    a, b = o1.items.get(k, UNDEF), o2.items.get(k, UNDEF)
                    if a is not b:
                        items[k] = J(a, b)
                if symkeys(items):
                    if [k for k in items if k in o2.items] != list(o2.items):
                        items = Top(set(), 'joined dict')
            elif isinstance(o1.items, V) and isinstance(o2.items, V):
                items = J(o1.items, o2.items)
            elif isinstance(o1.items, tuple) and isinstance(o2.items, tuple):
                a, b = J(C(0), C(1)), None
                # lists of different lengths: keep as gated sequence
                items = J(Tup(o1.items), Tup(o2.items))
            else:
                items = Top(set(), 'joined container')
        return HObj(o1.kind, o1.cls, attrs, items)

    def fork(self, cond, st):
        """-> (state with cond, state without cond); None if infeasible."""
        cond = simp(cond, st.facts) if cond.has_ite() else cond
        d = decide(cond, st.facts)
        if d is True:
            return st, None
        if d is False:
            return None, st
        Ft, Ff = assume(cond, True, st.facts), assume(cond, False, st.facts)
        if Ft is None:
            st.facts = Ff if Ff is not None else st.facts
            return None, st
        if Ff is None:
            st.facts = Ft
            return st, None
        a, b = st.copy(), st.copy()
        a.facts, b.facts = Ft, Ff
        a.pc = st.pc + ((cond, True),)
        b.pc = st.pc + ((cond, False),)
        return a, b

    # ---------------------------------------------------------- statements
    def block(self, stmts, st, fr):
        exits = []
        base = st.pc
        for s in stmts:
            outs = self.stmt(s, st, fr)
            nx = []
            for o in outs:
                (nx if o.kind == 'next' else exits).append(o)
            if not nx:
                return exits
            if len(nx) == 1:
                st = nx[0].st
            else:
                st = self.merge([(o.st, None) for o in nx], base[:self._common(base, nx)])[0]
        exits.append(Exit('next', None, st))
        return exits

    def _common(self, base, outs):
        n = len(base)
        for o in outs:
            k = 0
            for a, b in zip(base, o.st.pc):
                if a != b:
                    break
                k += 1
            n = min(n, k)
        return n

    def stmt(self, s, st, fr):
        self.steps += 1
        if self.steps > self.MAX_STEPS or not self.steps & 127 and _time.time() > self.until:
            raise Giveup('steps')
        fr.line = getattr(s, 'lineno', fr.line)
        saved, fr.raises = fr.raises, []
        try:
            outs = getattr(self, 's_' + type(s).__name__, self.s_unknown)(s, st, fr)
        except Dead:
            outs = []
        outs = list(outs) + fr.raises
        fr.raises = saved
        return outs

    def s_unknown(self, s, st, fr):
        for n in _assigned([s]):
            self.store_name(n, self.top('stmt ' + type(s).__name__), st, fr)
        return [Exit('next', None, st)]

    def s_Pass(self, s, st, fr):
        return [Exit('next', None, st)]

    def s_Global(self, s, st, fr):
        return [Exit('next', None, st)]

    s_Nonlocal = s_Global

    def s_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return [Exit('next', None, st)]
        h = Holder(st)
        self.eval(s.value, h, fr)
        return [Exit('next', None, h.st)]

    def s_Return(self, s, st, fr):
        h = Holder(st)
        v = self.eval(s.value, h, fr) if s.value else NONE
        return [Exit('return', v, h.st, fr.loc())]

    def s_Break(self, s, st, fr):
        return [Exit('break', None, st)]

    def s_Continue(self, s, st, fr):
        return [Exit('continue', None, st)]

    def s_Assign(self, s, st, fr):
        h = Holder(st)
        v = self.eval(s.value, h, fr)
        for t in s.targets:
            self.assign(t, v, h, fr)
        return [Exit('next', None, h.st)]

    def s_AnnAssign(self, s, st, fr):
        h = Holder(st)
        if s.value is not None:
            v = self.eval(s.value, h, fr)
            self.assign(s.target, v, h, fr)
        elif isinstance(s.target, ast.Name) and fr.fid[0] == 'cls':
            o = h.st.heap[fr.fid]
            ann = o.attrs.get('__annotations__', Tup(()))
            h.st.heap[fr.fid] = o.setattr('__annotations__', Tup(ann.items + (C(s.target.id),)))
            return [Exit('next', None, h.st)]
        if isinstance(s.target, ast.Name) and fr.fid[0] == 'cls':
            o = h.st.heap[fr.fid]
            ann = o.attrs.get('__annotations__', Tup(()))
            h.st.heap[fr.fid] = o.setattr('__annotations__', Tup(ann.items + (C(s.target.id),)))
        return [Exit('next', None, h.st)]

    def s_AugAssign(self, s, st, fr):
        h = Holder(st)
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id, h, fr)
            r = self.eval(s.value, h, fr)
            v = self.binop(type(s.op).__name__, cur, r, h, fr, aug=True)
            self.assign(t, v, h, fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, h, fr)
            cur = self.getattr(o, self.mangle(t.attr, fr.owner), h, fr)
            r = self.eval(s.value, h, fr)
            v = self.binop(type(s.op).__name__, cur, r, h, fr, aug=True)
            self.setattr(o, self.mangle(t.attr, fr.owner), v, h, fr)
        else:
            o = self.eval(t.value, h, fr)
            k = self.eval_slice(t.slice, h, fr)
            cur = self.getitem(o, k, h, fr)
            r = self.eval(s.value, h, fr)
            v = self.binop(type(s.op).__name__, cur, r, h, fr, aug=True)
            self.setitem(o, k, v, h, fr)
        return [Exit('next', None, h.st)]

    def s_Delete(self, s, st, fr):
        h = Holder(st)
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.store_name(t.id, UNDEF, h.st, fr)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, h, fr)
                k = self.eval_slice(t.slice, h, fr)
                self.delitem(o, k, h, fr)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, h, fr)
                self.setattr(o, self.mangle(t.attr, fr.owner), UNDEF, h, fr)
        return [Exit('next', None, h.st)]

    def s_Assert(self, s, st, fr):
        h = Holder(st)
        c = self.truth(self.eval(s.test, h, fr), h, fr)
        a, b = self.fork(c, h.st)
        outs = []
        if b is not None:
            outs.append(Exit('raise', Exc('AssertionError', (), fr.loc()), b, fr.loc()))
        if a is not None:
            outs.append(Exit('next', None, a))
        return outs

    def s_If(self, s, st, fr):
        h = Holder(st)
        c = self.truth(self.eval(s.test, h, fr), h, fr)
        a, b = self.fork(c, h.st)
        outs = []
        if a is not None:
            outs += self.block(s.body, a, fr)
        if b is not None:
            outs += self.block(s.orelse, b, fr) if s.orelse else [Exit('next', None, b)]
        return outs

    def s_Raise(self, s, st, fr):
        h = Holder(st)
        if s.exc is None:
            cur = st.envs.get(fr.fid, {}).get('$exc') if fr.fid in st.envs else None
            return [Exit('raise', cur or Exc('Exception', (), fr.loc()), st, fr.loc())]
        v = self.eval(s.exc, h, fr)
        return [Exit('raise', self.as_exc(v, h.st, fr), h.st, fr.loc())]

    def as_exc(self, v, st, fr):
        if isinstance(v, Exc):
            return v if v.loc else Exc(v.cls, v.args, fr.loc())
        if isinstance(v, Ext):
            return Exc(v.name.split('.')[-1], (), fr.loc())
        if isinstance(v, ClsV):
            return Exc(v.name, (), fr.loc())
        if isinstance(v, Ref) and st.heap[v.oid].cls:
            return Exc(st.heap[v.oid].cls, (), fr.loc())
        return Exc('?', (), fr.loc())

    def exc_isa(self, name, base):
        if base in ('BaseException', 'Exception') and name != '?':
            return True
        if name in self.classes:
            return base in self.mro(name)
        return base in EXC_BASES.get(name, ())

    def s_Try(self, s, st, fr):
        base_st = st.copy()
        outs = self.block(s.body, st, fr)
        res, unhandled, hrs = [], [], []
        # exceptions an opaque operation may raise, if any call is opaque
        for o in outs:
            if o.kind != 'raise':
                res.append(o)
                continue
            todo = o
            handled = False
            for hd in s.handlers:
                m = self.handler_matches(hd, o.val, fr, o.st)
                if m:
                    hrs.append((hd, o))
                    handled = True
                    break
            if not handled:
                unhandled.append(o)
        if s.orelse:
            nxt = [o for o in res if o.kind == 'next']
            res = [o for o in res if o.kind != 'next']
            for o in nxt:
                res += self.block(s.orelse, o.st, fr)
        for hd, o in hrs:
            hst = o.st
            if hd.name:
                self.store_name(hd.name, o.val, hst, fr)
            env = dict(hst.envs.get(fr.fid, {}))
            env['$exc'] = o.val
            if fr.fid in hst.envs:
                hst.envs[fr.fid] = env
            res += self.block(hd.body, hst, fr)
        res += unhandled
        if s.finalbody:
            out2 = []
            for o in res:
                for f in self.block(s.finalbody, o.st, fr):
                    if f.kind == 'next':
                        out2.append(Exit(o.kind, o.val, f.st, o.loc))
                    else:
                        out2.append(f)
            res = out2
        return res

    def handler_matches(self, hd, exc, fr, st):
        if hd.type is None:
            return True
        h = Holder(st)
        try:
            t = self.eval(hd.type, h, fr)
        except Dead:
            return True
        ts = t.items if isinstance(t, Tup) else (t,)
        for x in ts:
            n = x.name.split('.')[-1] if isinstance(x, (Ext, ClsV)) else None
            if n is None or self.exc_isa(exc.cls, n):
                return True
        return False

    def s_With(self, s, st, fr):
        h = Holder(st)
        names = []
        for it in s.items:
            v = self.eval(it.context_expr, h, fr)
            names.append(v)
            if v in h.st.held:
                h.st.events = h.st.events + (('reenter', v, None, None, fr.loc(), h.st.pc, h.st.held),)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, T('enter', v), h, fr)
        h.st.held = h.st.held + tuple(names)
        outs = self.block(s.body, h.st, fr)
        for o in outs:
            o.st.held = tuple(x for x in o.st.held if x not in names) if len(o.st.held) else ()
        return outs

    def s_Import(self, s, st, fr):
        for a in s.names:
            nm = a.asname or a.name.split('.')[0]
            self.store_name(nm, self.import_module(a.name if a.asname else a.name.split('.')[0], st), st, fr)
        return [Exit('next', None, st)]

    def import_module(self, dotted, st):
        if dotted == self.package:
            return ModV("__init__") if self.has_module("__init__") and ("mod", "__init__") in st.heap else ModV(self.package)
        if dotted.startswith(self.package + '.'):
            m = dotted[len(self.package) + 1:]
            if self.has_module(m):
                self.load(m, st)
                return ModV(m)
        return Ext(dotted)

    def s_ImportFrom(self, s, st, fr):
        mod = s.module or ''
        if s.level:
            mod = self.package + ('.' + mod if mod else '')
        for a in s.names:
            v = None
            if mod == self.package:
                if self.has_module(a.name):
                    self.load(a.name, st)
                    v = ModV(a.name)
                else:
                    v = Ext(f'{self.package}.{a.name}')
            elif mod.startswith(self.package + '.') and self.has_module(mod[len(self.package) + 1:]):
                m = mod[len(self.package) + 1:]
                self.load(m, st)
                v = st.heap[('mod', m)].attrs.get(a.name)
                if v is None:
                    v = Top((), f'import {m}.{a.name}')
            else:
                v = Ext(f'{mod}.{a.name}')
            if v == Ext('types.NoneType'):
                v = Ext('NoneType')
            self.store_name(a.asname or a.name, v, st, fr)
        return [Exit('next', None, st)]

    def s_FunctionDef(self, s, st, fr):
        v = self.make_fn(s, st, fr)
        for d in reversed(s.decorator_list):
            n = d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else None
            if n in ('property', 'classmethod', 'staticmethod'):
                v = Desc(n, v)
            elif n in ('setter', 'getter', 'deleter'):
                return [Exit('next', None, st)]
            elif n == 'cached_property':
                v = Desc('property', self.cached(v, st))
            else:
                h = Holder(st)
                dv = self.eval(d, h, fr)
                v = self.call(dv, [v], {}, h, fr)
                st = h.st
        self.store_name(self.mangle(s.name, fr.owner), v, st, fr)
        return [Exit('next', None, st)]

    def cached(self, v, st):
        """functools.cache: the function with a table of its answers."""
        if isinstance(v, Desc):
            return Desc(v.kind, self.cached(v.f, st))
        if not isinstance(v, FnV):
            return v
        f = Fn(v.fn.node, v.fn.module, v.fn.owner, v.fn.qual)
        f.defaults, f.kwdefaults = v.fn.defaults, v.fn.kwdefaults
        f.cache = ('cache', f.qual, self.new_id('c')[1])
        st.heap[f.cache] = HObj('dict', items={})
        return FnV(f, v.bound, v.env)

    def make_fn(self, node, st, fr):
        key = id(node)
        f = self.fns.get(key)
        if f is None:
            if fr.fid[0] == 'cls':
                q = f'{fr.owner}.{getattr(node, "name", "<lambda>")}'
            elif fr.fn is not None:
                q = f'{fr.fn.qual}.{getattr(node, "name", "<lambda>")}'
            else:
                q = f'{fr.module}.{getattr(node, "name", "<lambda>")}'
            f = Fn(node, fr.module, fr.owner, q)
            self.fns[key] = f
        env = fr.fid if fr.fid[0] == 'env' else None
        defaults = []
        h = Holder(st)
        a = node.args
        dv = [self.eval(d, h, fr) for d in a.defaults]
        kd = [self.eval(d, h, fr) if d is not None else None for d in a.kw_defaults]
        st2 = h.st
        if st2 is not st:
            st.heap, st.envs, st.facts, st.pc = st2.heap, st2.envs, st2.facts, st2.pc
        f.defaults, f.kwdefaults = dv, kd
        return FnV(f, None, env)

    def s_ClassDef(self, s, st, fr):
        h = Holder(st)
        bases = []
        for b in s.bases:
            v = self.eval(b, h, fr)
            if isinstance(v, ClsV):
                bases.append(v.name)
            elif isinstance(v, Ext):
                bases.append(v.name.split('.')[-1])
            else:
                bases.append('object')
        st = h.st
        self.classes[s.name] = (fr.module, s, bases)
        self.mros.clear()
        oid = ('cls', s.name)
        st.heap[oid] = HObj('cls', s.name, {})
        cfr = Frame(None, oid, fr, fr.module, s.name, fr.depth + 1, fr)
        outs = self.block(s.body, st, cfr)
        nx = [o for o in outs if o.kind == 'next']
        st = nx[0].st if len(nx) == 1 else self.merge([(o.st, None) for o in nx], st.pc)[0]
        self.store_name(s.name, ClsV(s.name), st, fr)
        return [Exit('next', None, st)]

    # ------------------------------------------------------------- loops
    def s_For(self, s, st, fr):
        h = Holder(st)
        it = self.eval(s.iter, h, fr)
        return self.for_over(it, s, h.st, fr)

    def for_over(self, it, s, st, fr):
        items = self.iterate(it, Holder(st), fr, soft=True)
        if items is None or len(items) > 4000:
            return self.havoc_loop(s, st, fr, it)
        exits, breaks = [], []
        cur = st
        base = st.pc
        for x in items:
            h = Holder(cur)
            saved, fr.raises = fr.raises, []
            try:
                self.assign(s.target, x, h, fr)
            except Dead:
                exits += fr.raises
                fr.raises = saved
                cur = None
                break
            exits += fr.raises
            fr.raises = saved
            outs = self.block(s.body, h.st, fr)
            nx = []
            for o in outs:
                if o.kind in ('next', 'continue'):
                    nx.append(o)
                elif o.kind == 'break':
                    breaks.append(o)
                else:
                    exits.append(o)
            if not nx:
                cur = None
                break
            cur = nx[0].st if len(nx) == 1 else self.merge(
                [(o.st, None) for o in nx], base[:self._common(base, nx)])[0]
        done = []
        if cur is not None:
            outs = self.block(s.orelse, cur, fr) if s.orelse else [Exit('next', None, cur)]
            for o in outs:
                (done if o.kind == 'next' else exits).append(o)
        for o in breaks:
            done.append(Exit('next', None, o.st))
        return exits + done

    def s_While(self, s, st, fr):
        exits, done = [], []
        cur = st
        base = st.pc
        for i in range(3000):
            h = Holder(cur)
            saved, fr.raises = fr.raises, []
            try:
                c = self.truth(self.eval(s.test, h, fr), h, fr)
            except Dead:
                exits += fr.raises
                fr.raises = saved
                cur = None
                break
            exits += fr.raises
            fr.raises = saved
            cur = h.st
            c = simp(c, cur.facts)
            d = decide(c, cur.facts)
            if d is None:
                return exits + done + self.havoc_loop(s, cur, fr, None)
            if d is False:
                break
            outs = self.block(s.body, cur, fr)
            nx = []
            for o in outs:
                if o.kind in ('next', 'continue'):
                    nx.append(o)
                elif o.kind == 'break':
                    done.append(Exit('next', None, o.st))
                else:
                    exits.append(o)
            if not nx:
                cur = None
                break
            cur = nx[0].st if len(nx) == 1 else self.merge(
                [(o.st, None) for o in nx], base[:self._common(base, nx)])[0]
        if cur is not None:
            if s.orelse:
                for o in self.block(s.orelse, cur, fr):
                    (done if o.kind == 'next' else exits).append(o)
            else:
                done.append(Exit('next', None, cur))
        return exits + done

    def havoc_loop(self, s, st, fr, it):
        """unknown trip count: assigned variables become unknown."""
        names = _assigned([s])
        dv = [it] if it is not None else []
        h = Holder(st)
        ds = set()
        for v in dv:
            deps(v, ds)
        for n in _names_used(s):
            v = self.peek_name(n, st, fr)
            if v is not None:
                deps(v, ds)
        for n in names:
            self.store_name(n, Top(ds, f'loop@{s.lineno}'), st, fr)
        self.havoc_containers(s, st, fr, ds)
        body = st.copy()
        self.uid += 1
        c = T('choice', ('loop', fr.module, s.lineno, self.uid))
        body.pc = st.pc + ((c, True),)
        st.pc = st.pc + ((c, False),)
        res = []
        saved, fr.raises = fr.raises, []
        try:
            outs = self.block(s.body, body, fr)
        except Dead:
            outs = []
        outs += fr.raises
        fr.raises = saved
        after = [Exit('next', None, st)]
        for o in outs:
            if o.kind in ('next', 'continue', 'break'):
                for n in names:
                    self.store_name(n, Top(ds, f'loop@{s.lineno}'), o.st, fr)
                self.havoc_containers(s, o.st, fr, ds)
                after.append(Exit('next', None, o.st))
            else:
                res.append(o)
        return res + after

    def havoc_containers(self, s, st, fr, ds):
        for n in ast.walk(s):
            tgt = None
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) \
                    and n.func.attr in ('append', 'extend', 'insert', 'pop', 'add', 'update', 'clear', 'remove', 'setdefault'):
                tgt = n.func.value.id
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name):
                tgt = n.value.id
            if tgt:
                v = self.peek_name(tgt, st, fr)
                if isinstance(v, Ref) and v.oid in st.heap:
                    st.heap[v.oid] = st.heap[v.oid].with_items(Top(ds, 'loop container'))
        for n in ast.walk(s):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                v = self.peek_name(n.value.id, st, fr)
                if isinstance(v, Ref) and v.oid in st.heap:
                    st.heap[v.oid] = st.heap[v.oid].setattr(self.mangle(n.attr, fr.owner), Top(ds, 'loop attr'))

    # -------------------------------------------------------------- names
    def store_name(self, name, v, st, fr):
        if fr.fid[0] in ('cls', 'mod'):
            st.heap[fr.fid] = st.heap[fr.fid].setattr(name, v)
            return
        if fr.fn is not None and name in fr.fn.globals:
            oid = ('mod', fr.module)
            st.events = st.events + (('setglobal', fr.module, name, v, fr.loc(), st.pc, st.held),)
            st.heap[oid] = st.heap[oid].setattr(name, v)
            return
        fid = fr.fid
        if fr.fn is not None and name in fr.fn.nonlocals:
            fid = self.envparents.get(fid)
            while fid is not None and name not in st.envs.get(fid, {}):
                fid = self.envparents.get(fid)
            fid = fid or fr.fid
        e = dict(st.envs.get(fid, {}))
        e[name] = v
        st.envs[fid] = e

    def peek_name(self, name, st, fr):
        fid = fr.fid
        while fid is not None and fid[0] == 'env':
            v = st.envs.get(fid, {}).get(name)
            if v is not None:
                return v
            fid = self.envparents.get(fid)
        if fr.fid[0] == 'cls':
            v = st.heap[fr.fid].attrs.get(name)
            if v is not None:
                return v
        m = st.heap.get(('mod', fr.module))
        if m is not None and name in m.attrs:
            if self.watch is not None and ('g', fr.module, name) in self.watch:
                self.touch(('g', fr.module, name), st, fr)
            if self.others is not None:
                self.interfere(('mod', fr.module), st)
                m = st.heap[('mod', fr.module)]
            return m.attrs[name]
        return None

    def seen(self, v, h, fr):
        if self.watch is not None and isinstance(v, Ref) and v.oid in self.watch:
            self.touch(v.oid, h.st, fr)
        if self.others is not None and isinstance(v, Ref):
            self.interfere(v.oid, h.st)

    def interfere(self, oid, st):
        """another thread may have stored to the place just now."""
        ws = self.others.get(oid)
        if not ws or st.held:
            return
        ob = st.heap[oid]
        for kind, key, val, pc, syms in ws:
            self.uid += 1
            n = '#%d' % self.uid
            m = {s: S(s.name + n, s.kind, s.lo, s.hi) for s in syms}
            on = lt0(S('other' + n, 'int', -1, 0))
            gate = conj(on, *[(c if p else neg(c)) for c, p in ((subst(c, m, Facts()), p) for c, p in pc)])
            new = subst(val, m, Facts())
            if kind == 'attr':
                ob = ob.setattr(key, ite(gate, new, ob.attrs.get(key, UNDEF)))
            elif isinstance(ob.items, dict):
                k = subst(key, m, Facts())
                it = dict(ob.items)
                cur = it.get(k, UNDEF)
                if symkeys(it) or not isinstance(k, C):
                    it.pop(k, None)
                it[k] = ite(gate, new, cur)
                ob = ob.with_items(it)
        st.heap[oid] = ob

    def touch(self, what, st, fr):
        """record a read of a watched place."""
        st.events = st.events + (('touch', what, None, None, fr.loc(), st.pc, st.held),)

    def load_name(self, name, h, fr):
        if fr.fid[0] == 'cls' and fr.owner:
            name2 = self.mangle(name, fr.owner)
            v = h.st.heap[fr.fid].attrs.get(name2)
            if v is not None:
                return v
        v = self.peek_name(name, h.st, fr)
        if v is not None:
            if isinstance(v, Undef):
                self.raise_(h, fr, 'UnboundLocalError')
            if isinstance(v, Ite):
                v = self.strip_undef(v, h, fr, 'UnboundLocalError')
            return v
        if name in EXC_BASES or name in dir(_b) or name in BUILTIN_TYPES:
            return {'True': TRUE, 'False': FALSE, 'None': NONE}.get(name) or Ext(name)
        if name == '__name__':
            return C(f'{self.package}.{fr.module}')
        if name == '__file__':
            return Top((), '__file__')
        self.raise_(h, fr, 'NameError')

    def strip_undef(self, v, h, fr, exc):
        """raise on the gate side where v is unset."""
        v = simp(v, h.st.facts)
        if isinstance(v, Undef):
            self.raise_(h, fr, exc)
        if not _has_undef(v):
            return v
        if isinstance(v, Ite):
            bad = _undef_f(v)
            a, b = self.fork(bad, h.st)
            if a is not None:
                fr.raises.append(Exit('raise', Exc(exc, (), fr.loc()), a, fr.loc()))
            if b is None:
                raise Dead
            h.st = b
            return _defined(v)
        return v

    def dict_find(self, d, k, h, fr):
        """the value of key k, UNDEF (possibly gated) where it has none.  A dict with
        symbolic keys is an association list in the order of its writes."""
        if isinstance(k, C) and all(isinstance(x, C) for x in d):
            return d.get(k, UNDEF)
        r = UNDEF
        for ki, vi in d.items():
            c = self.truth(self.eq(ki, k, h, fr), h, fr) if ki != k else TRUE
            r = ite(c, _set_undef(vi, r), r)
        return simp(r, h.st.facts) if r.has_ite() else r

    def raise_(self, h, fr, cls, *args):
        fr.raises.append(Exit('raise', Exc(cls, args, fr.loc()), h.st, fr.loc()))
        raise Dead

    def maybe_raise(self, bad, h, fr, cls, *args):
        """split off an exceptional flow under formula bad."""
        a, b = self.fork(bad, h.st)
        if a is not None:
            fr.raises.append(Exit('raise', Exc(cls, args, fr.loc()), a, fr.loc()))
        if b is None:
            raise Dead
        h.st = b

    # --------------------------------------------------------- assignment
    def assign(self, t, v, h, fr):
        if isinstance(t, ast.Name):
            self.store_name(self.mangle(t.id, fr.owner) if fr.fid[0] == 'cls' else t.id, v, h.st, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            v = simp(v, h.st.facts) if v.has_ite() else v
            if isinstance(v, Ite):
                def go(x, h2):
                    self.assign(t, x, h2, fr)
                    return NONE
                self.over_ite(v, h, fr, go)
                return
            items = self.iterate(v, h, fr, soft=True)
            if items is None:
                d = deps(v)
                if isinstance(v, (S, T)) and not star:
                    for i, e in enumerate(t.elts):
                        self.assign(e, T('item', v, C(i)), h, fr)
                    return
                for e in t.elts:
                    self.assign(e.value if isinstance(e, ast.Starred) else e, Top(d, 'unpack'), h, fr)
                return
            if star:
                i = star[0]
                n = len(t.elts) - 1
                if len(items) < n:
                    self.raise_(h, fr, 'ValueError')
                k = len(items) - n
                for e, x in zip(t.elts[:i], items[:i]):
                    self.assign(e, x, h, fr)
                self.assign(t.elts[i].value, self.new_list(h.st, items[i:i + k]), h, fr)
                for e, x in zip(t.elts[i + 1:], items[i + k:]):
                    self.assign(e, x, h, fr)
                return
            if len(items) != len(t.elts):
                self.raise_(h, fr, 'ValueError')
            for e, x in zip(t.elts, items):
                self.assign(e, x, h, fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, h, fr)
            self.setattr(o, self.mangle(t.attr, fr.owner), v, h, fr)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, h, fr)
            k = self.eval_slice(t.slice, h, fr)
            self.setitem(o, k, v, h, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, h, fr)

    def over_ite(self, v, h, fr, go):
        """apply go(value, holder) on every gate alternative and join."""
        v = simp(v, h.st.facts) if v.has_ite() else v
        if not isinstance(v, Ite):
            return go(v, h)
        base = h.st.pc
        a, b = self.fork(v.c, h.st)
        outs = []
        for s, x in ((a, v.a), (b, v.b)):
            if s is None:
                continue
            h2 = Holder(s)
            try:
                r = self.over_ite(x, h2, fr, go)
                outs.append((h2.st, r))
            except Dead:
                pass
        if not outs:
            raise Dead
        if len(outs) == 1:
            h.st, r = outs[0]
            return r
        h.st, r = self.merge(outs, base)
        return r

    # -------------------------------------------------------- expressions
    def eval(self, e, h, fr):
        self.steps += 1
        if self.steps > self.MAX_STEPS or not self.steps & 127 and _time.time() > self.until:
            raise Giveup('steps')
        if hasattr(e, 'lineno'):
            fr.line = e.lineno
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return self.top('expr ' + type(e).__name__)
        return m(e, h, fr)

    def e_Constant(self, e, h, fr):
        return C(e.value)

    def e_Name(self, e, h, fr):
        return self.load_name(e.id, h, fr)

    def e_Tuple(self, e, h, fr):
        return Tup(self.elts(e.elts, h, fr))

    def e_List(self, e, h, fr):
        xs = self.elts(e.elts, h, fr)
        return self.new_list(h.st, xs)

    def e_Set(self, e, h, fr):
        xs = self.elts(e.elts, h, fr)
        oid = self.new_id('set')
        h.st.heap[oid] = HObj('set', items=tuple(xs))
        return Ref(oid)

    def e_Dict(self, e, h, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.eval(v, h, fr)
                if isinstance(o, Ref) and isinstance(h.st.heap[o.oid].items, dict):
                    d.update(h.st.heap[o.oid].items)
                else:
                    return self.top('dict **', o)
                continue
            kv = self.eval(k, h, fr)
            d[kv] = self.eval(v, h, fr)
        return self.new_dict(h.st, d)

    def elts(self, es, h, fr):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                v = self.eval(e.value, h, fr)
                xs = self.iterate(v, h, fr, soft=True)
                if xs is None:
                    out.append(T('star', v))
                else:
                    out += xs
            else:
                out.append(self.eval(e, h, fr))
        return out

    def e_NamedExpr(self, e, h, fr):
        v = self.eval(e.value, h, fr)
        self.assign(e.target, v, h, fr)
        return v

    def e_IfExp(self, e, h, fr):
        c = self.truth(self.eval(e.test, h, fr), h, fr)
        return self.gated(c, lambda hh: self.eval(e.body, hh, fr),
                          lambda hh: self.eval(e.orelse, hh, fr), h)

    def gated(self, c, fa, fb, h):
        base = h.st.pc
        a, b = self.fork(c, h.st)
        outs = []
        for s, f in ((a, fa), (b, fb)):
            if s is None:
                continue
            hh = Holder(s)
            try:
                v = f(hh)
                outs.append((hh.st, v))
            except Dead:
                pass
        if not outs:
            raise Dead
        if len(outs) == 1:
            h.st = outs[0][0]
            return outs[0][1]
        h.st, v = self.merge(outs, base)
        return v

    def e_BoolOp(self, e, h, fr):
        is_and = isinstance(e.op, ast.And)

        def go(i, hh):
            v = self.eval(e.values[i], hh, fr)
            if i == len(e.values) - 1:
                return v
            c = self.truth(v, hh, fr)
            if is_and:
                return self.gated(c, lambda h2: go(i + 1, h2), lambda h2: c if is_bool(v) and c == v else v, hh)
            return self.gated(c, lambda h2: v, lambda h2: go(i + 1, h2), hh)
        return go(0, h)

    def e_UnaryOp(self, e, h, fr):
        v = self.eval(e.operand, h, fr)
        op = type(e.op).__name__
        if op == 'Not':
            return neg(self.truth(v, h, fr))
        v = simp(v, h.st.facts) if v.has_ite() else v
        if op == 'USub':
            if isinstance(v, TD):
                r = scale(v.us, -1)
                return TD(r) if r is not None else self.top('neg', v)
            if isinstance(v, C) and isinstance(v.v, (int, float)):
                return C(-v.v)
            if isinstance(v, Ref):
                return self.call_method(v, '__neg__', [], h, fr)
            r = scale(v, -1) if is_numeric(v) or isinstance(v, (S, T)) else None
            return r if r is not None else self.top('neg', v)
        if op == 'UAdd':
            return v
        if isinstance(v, C):
            return C(~v.v)
        return self.top('unary ' + op, v)

    def e_BinOp(self, e, h, fr):
        a = self.eval(e.left, h, fr)
        b = self.eval(e.right, h, fr)
        return self.binop(type(e.op).__name__, a, b, h, fr)

    def binop(self, op, a, b, h, fr, aug=False):
        F = h.st.facts
        a = simp(a, F) if a.has_ite() else a
        b = simp(b, F) if b.has_ite() else b
        # gates over non-numeric operands are distributed
        for x, left in ((a, True), (b, False)):
            if isinstance(x, Ite) and not is_numeric(x):
                other = b if left else a
                return self.over_ite(x, h, fr, lambda y, hh: self.binop(
                    op, y if left else other, other if left else y, hh, fr, aug))
        if isinstance(a, Top) or isinstance(b, Top):
            return self.top('binop on unknown', a, b)
        if isinstance(a, TD) or isinstance(b, TD):
            r = self.td_binop(op, a, b, h, fr)
            if r is not None:
                return r
        # user objects
        DU = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'FloorDiv': 'floordiv', 'Mod': 'mod', 'Div': 'truediv'}
        if op in DU:
            for x, y, pre in ((a, b, '__'), (b, a, '__r')):
                if isinstance(x, Ref) and h.st.heap[x.oid].kind == 'inst':
                    m, _ = self.find_attr(h.st, h.st.heap[x.oid].cls, pre + DU[op] + '__')
                    if m is not None:
                        r = self.call_method(x, pre + DU[op] + '__', [y], h, fr)
                        if r == Ext('NotImplemented'):
                            continue
                        return r
            if any(isinstance(x, Ref) and h.st.heap[x.oid].kind == 'inst' for x in (a, b)):
                if not any(isinstance(x, (Top, S, T)) for x in (a, b)):
                    self.raise_(h, fr, 'TypeError')
        if isinstance(a, C) and isinstance(b, C) and not isinstance(a.v, (Fraction,)) and not isinstance(b.v, Fraction):
            try:
                return C({'Add': lambda x, y: x + y, 'Sub': lambda x, y: x - y, 'Mult': lambda x, y: x * y,
                          'Div': lambda x, y: x / y, 'FloorDiv': lambda x, y: x // y, 'Mod': lambda x, y: x % y,
                          'Pow': lambda x, y: x ** y, 'LShift': lambda x, y: x << y, 'RShift': lambda x, y: x >> y,
                          'BitAnd': lambda x, y: x & y, 'BitOr': lambda x, y: x | y, 'BitXor': lambda x, y: x ^ y}[op](a.v, b.v))
            except ZeroDivisionError:
                self.raise_(h, fr, 'ZeroDivisionError')
            except TypeError:
                self.raise_(h, fr, 'TypeError')
            except Exception:
                return self.top('const op', a, b)
        if op == 'Add':
            if isinstance(a, Tup) and isinstance(b, Tup):
                return Tup(a.items + b.items)
            la, lb = self.list_items(a, h), self.list_items(b, h)
            if la is not None and lb is not None:
                if aug and isinstance(a, Ref):
                    h.st.heap[a.oid] = h.st.heap[a.oid].with_items(la + lb)
                    return a
                return self.new_list(h.st, la + lb)
            if la is not None and aug and isinstance(b, Tup):
                h.st.heap[a.oid] = h.st.heap[a.oid].with_items(la + b.items)
                return a
            sa, sb = cells(a), cells(b)
            if sa is not None and sb is not None:
                return mkstr(sa + sb)
            if is_strlike(a) and is_strlike(b):
                if a == C(''):
                    return b
                if b == C(''):
                    return a
                return self.concat([a, b], h, fr)
            if is_strlike(a) or is_strlike(b):
                return T('concat', a, b, typ='str')
            ta, tb = as_tup(a, h.st), as_tup(b, h.st)
            if ta is not None and tb is not None:
                return Tup(ta + tb)
            if isinstance(a, Tup) or isinstance(b, Tup):
                return T('tcat', a, b)
            r = add(a, b)
            return r if r is not None else self.top('add', a, b)
        if op == 'Sub':
            r = sub(a, b)
            return r if r is not None else self.top('sub', a, b)
        if op == 'Mult':
            for x, y in ((a, b), (b, a)):
                if isinstance(y, C) and isinstance(y.v, int):
                    if isinstance(x, Tup):
                        return Tup(x.items * y.v)
                    if isinstance(x, Str):
                        return mkstr(x.cells * y.v)
                    li = self.list_items(x, h)
                    if li is not None:
                        return self.new_list(h.st, li * y.v)
                if isinstance(x, C) and isinstance(x.v, str):
                    return T('strmul', x, y, typ='str')
            r = mul(a, b)
            return r if r is not None else self.top('mul', a, b)
        if op == 'Div':
            p = lin_parts(b)
            if p and not p[1]:
                if p[0] == 0:
                    self.raise_(h, fr, 'ZeroDivisionError')
                r = scale(a, 1 / p[0])
                return r if r is not None else self.top('div', a, b)
            if lin_parts(a) is None or p is None:
                return self.top('div', a, b)
            return T('div', a, b, typ='num')
        if op in ('FloorDiv', 'Mod'):
            if op == 'Mod' and (is_strlike(a)):
                r = self.percent(a, b, h, fr)
                return r if r is not None else T('strmod', a, b, typ='str')
            fn = (lambda x: fdiv(x, b, F)) if op == 'FloorDiv' else (lambda x: mod(x, b, F))
            r = self.lift_num(a, fn, F) if isnum(b) else fn(a)
            return r if r is not None else self.top(op, a, b)
        if op == 'LShift' and isnum(b):
            r = scale(a, 1 << int(b.v))
            return r if r is not None else self.top(op, a, b)
        if op == 'RShift' and isnum(b):
            r = self.lift_num(a, lambda x: fdiv(x, C(1 << int(b.v)), F), F)
            return r if r is not None else self.top(op, a, b)
        if op == 'BitAnd':
            if is_bool(a) and is_bool(b):
                return conj(a, b)
            for x, y in ((a, b), (b, a)):
                if isnum(y) and isinstance(y.v, int) and y.v >= 0 and (y.v & (y.v + 1)) == 0:
                    r = self.lift_num(x, lambda z: mod(z, C(y.v + 1), F), F)
                    if r is not None:
                        return r
            return T('band', *sorted((a, b), key=rk), typ='int')
        if op == 'BitOr':
            if is_bool(a) and is_bool(b):
                return disj(a, b)
            # disjoint bits: a multiple of 2**k, b in [0, 2**k)
            for x, y in ((a, b), (b, a)):
                hi = rng(y, F)[1]
                lo = rng(y, F)[0]
                if hi is not None and lo is not None and lo >= 0:
                    k = int(hi).bit_length()
                    if mod(x, C(1 << k), F) == C(0):
                        r = add(x, y)
                        if r is not None:
                            return r
            return T('bor', *sorted((a, b), key=rk), typ='int')
        if op == 'BitXor':
            if is_bool(a) and is_bool(b):
                return disj(conj(a, neg(b)), conj(neg(a), b))
            return T('bxor', *sorted((a, b), key=rk), typ='int')
        if op == 'Pow':
            if isnum(b) and b.v == 2:
                r = mul(a, a)
                if r is not None:
                    return r
            return T('pow', a, b, typ='num')
        return self.top('binop ' + op, a, b)

    def lift_num(self, v, fn, F, depth=0):
        """apply numeric fn distributing over gates."""
        g = first_ite(v)
        if g is None or depth > 6:
            return fn(v)
        outs = []
        for pol in (True, False):
            G = assume(g.c, pol, F)
            if G is None:
                outs.append(None)
                continue
            r = self.lift_num(simp(v, G), fn, G, depth + 1)
            if r is None:
                return None
            outs.append(r)
        if outs[0] is None or outs[1] is None:
            return outs[0] or outs[1]
        return ite(g.c, outs[0], outs[1])

    def td_binop(self, op, a, b, h, fr):
        F = h.st.facts
        if isinstance(a, TD) and isinstance(b, TD):
            if op in ('Add', 'Sub'):
                r = add(a.us, b.us, 1 if op == 'Add' else -1)
                return TD(r) if r is not None else self.top('td', a, b)
            if op == 'FloorDiv':
                r = fdiv(a.us, b.us, F)
                return r if r is not None else self.top('td', a, b)
            if op == 'Mod':
                r = mod(a.us, b.us, F)
                return TD(r) if r is not None else self.top('td', a, b)
            if op == 'Div':
                if isnum(b.us):
                    return scale(a.us, 1 / lin_parts(b.us)[0])
                return T('div', a.us, b.us, typ='num')
        if op == 'Mult':
            x, y = (a, b) if isinstance(a, TD) else (b, a)
            r = mul(x.us, y)
            return TD(r) if r is not None else self.top('td', a, b)
        if op == 'FloorDiv' and isinstance(a, TD):
            r = fdiv(a.us, b, F)
            return TD(r) if r is not None else self.top('td', a, b)
        if op == 'Div' and isinstance(a, TD) and isnum(b):
            return TD(scale(a.us, 1 / lin_parts(b)[0]))
        if op in ('Add', 'Sub'):
            o = b if isinstance(a, TD) else a
            if isinstance(o, Ref) and h.st.heap[o.oid].kind == 'inst':
                return None
            if isinstance(o, C):
                self.raise_(h, fr, 'TypeError')
            if isinstance(o, S) and o.kind == 'td':
                return None
        return self.top('td ' + op, a, b)

    # ------------------------------------------------------------- truth
    def truth(self, v, h, fr):
        F = h.st.facts
        self.seen(v, h, fr)
        if v.has_ite():
            v = simp(v, F)
        if isinstance(v, C):
            return C(bool(v.v))
        if is_bool(v):
            return v
        if isinstance(v, Ite):
            return ite(v.c, self.truth(v.a, h, fr), self.truth(v.b, h, fr))
        if isinstance(v, Tup):
            return C(len(v.items) > 0)
        if isinstance(v, (Str, Bts)):
            return TRUE
        if isinstance(v, TD):
            return neg(lift(v.us, eq0, F) or T('truthy', v))
        if isinstance(v, (ClsV, FnV, ModV, Ext, BM)):
            return TRUE
        if isinstance(v, Ref):
            o = h.st.heap[v.oid]
            if o.kind in ('list', 'dict', 'set') or isinstance(o.items, (tuple, dict)):
                if isinstance(o.items, (tuple, dict)):
                    if isinstance(o.items, dict) and any(_has_undef(x) for x in o.items.values()):
                        return disj(*[neg(_undef_f(x)) for x in o.items.values()])
                    return C(len(o.items) > 0)
                return T('truthy', o.items if isinstance(o.items, V) else v)
            if self.find_attr(h.st, o.cls, '__bool__')[0] is not None:
                return self.truth(self.call_method(v, '__bool__', [], h, fr), h, fr)
            if self.find_attr(h.st, o.cls, '__len__')[0] is not None:
                return self.truth(self.call_method(v, '__len__', [], h, fr), h, fr)
            return TRUE
        if is_numeric(v):
            r = lift(v, eq0, F)
            if r is not None:
                return neg(r)
        if isinstance(v, S) and v.kind in ('tz', 'obj') or isinstance(v, T) and v.op in ('mo', 're'):
            return TRUE
        if isinstance(v, Top):
            self.uid += 1
            return T('choice', ('top', tuple(sorted(v.deps)), id(v)))
        return T('truthy', v)

    # ----------------------------------------------------------- compare
    def e_Compare(self, e, h, fr):
        left = self.eval(e.left, h, fr)

        def go(i, left, hh):
            right = self.eval(e.comparators[i], hh, fr)
            r = self.compare(type(e.ops[i]).__name__, left, right, hh, fr)
            if i == len(e.ops) - 1:
                return r
            c = self.truth(r, hh, fr)
            return self.gated(c, lambda h2: go(i + 1, right, h2), lambda h2: FALSE, hh)
        return go(0, left, h)

    def compare(self, op, a, b, h, fr):
        F = h.st.facts
        if a.has_ite():
            a = simp(a, F)
        if b.has_ite():
            b = simp(b, F)
        for x, left in ((a, True), (b, False)):
            if isinstance(x, Ite) and not (is_numeric(x) and op not in ('Is', 'IsNot', 'In', 'NotIn')):
                other = b if left else a
                return self.over_ite(x, h, fr, lambda y, hh: self.compare(
                    op, y if left else other, other if left else y, hh, fr))
        if op == 'NotEq':
            if isinstance(a, Ref) and h.st.heap[a.oid].kind == 'inst':
                m, _ = self.find_attr(h.st, h.st.heap[a.oid].cls, '__ne__')
                if m is not None:
                    return self.call_method(a, '__ne__', [b], h, fr)
            return neg(self.truth(self.compare('Eq', a, b, h, fr), h, fr))
        if op == 'IsNot':
            return neg(self.compare('Is', a, b, h, fr))
        if op == 'NotIn':
            return neg(self.truth(self.compare('In', a, b, h, fr), h, fr))
        if op == 'Is':
            if b == NONE or a == NONE:
                return self.isnone(b if a == NONE else a, h)
            if a == b:
                return TRUE
            if isinstance(a, C) and isinstance(b, C):
                return C(type(a.v) is type(b.v) and a.v == b.v)
            if isinstance(a, (Ref, ClsV, C, Ext, ModV, FnV, Tup)) and isinstance(b, (Ref, ClsV, C, Ext, ModV, FnV, Tup)):
                return FALSE
            if isinstance(a, (TD, Str, Lin)) and isinstance(b, (Ref, ClsV, Ext)):
                return FALSE
            for x, y in ((a, b), (b, a)):
                if isinstance(x, C) and isinstance(x.v, bool):
                    if is_bool(y):
                        return y if x.v else neg(y)
                    if isinstance(y, S) and y.kind in ('tz', 'obj', 'td', 'str', 'int', 'num'):
                        return FALSE
                    if isinstance(y, (Lin, TD, Str)):
                        return FALSE
                if isinstance(x, S) and x.kind in ('tz', 'obj') and isinstance(y, (Ref, ClsV, C, Ext)):
                    return FALSE
                if isinstance(x, S) and x.kind in ('tz', 'obj') and isinstance(y, S) and y.kind in ('tz', 'obj'):
                    return FALSE   # distinct symbols denote distinct objects
            return T('is', *sorted((a, b), key=rk))
        if op == 'In':
            return self.contains(b, a, h, fr)
        if op == 'Eq':
            return self.eq(a, b, h, fr)
        # orderings
        if op in ('Gt', 'GtE'):
            op2 = {'Gt': 'Lt', 'GtE': 'LtE'}[op]
            dn = {'Gt': '__gt__', 'GtE': '__ge__'}[op]
            r = self.rich(a, b, dn, {'Gt': '__lt__', 'GtE': '__le__'}[op], h, fr)
            if r is not None:
                return r
            return self.order(op2, b, a, h, fr)
        dn = {'Lt': '__lt__', 'LtE': '__le__'}[op]
        r = self.rich(a, b, dn, {'Lt': '__gt__', 'LtE': '__ge__'}[op], h, fr)
        if r is not None:
            return r
        return self.order(op, a, b, h, fr)

    def rich(self, a, b, dn, rdn, h, fr):
        order = ((a, b, dn), (b, a, rdn))
        if isinstance(a, Ref) and isinstance(b, Ref):
            ca, cb = h.st.heap[a.oid].cls, h.st.heap[b.oid].cls
            if ca and cb and ca != cb and ca in self.mro(cb):
                order = ((b, a, rdn), (a, b, dn))    # reflected method of the subclass first
        for x, y, n in order:
            if isinstance(x, Ref) and h.st.heap[x.oid].kind == 'inst':
                m, _ = self.find_attr(h.st, h.st.heap[x.oid].cls, n)
                if m is not None:
                    r = self.call_method(x, n, [y], h, fr)
                    if r != Ext('NotImplemented'):
                        return r
        if any(isinstance(x, Ref) and h.st.heap[x.oid].kind == 'inst' and h.st.heap[x.oid].items is None for x in (a, b)):
            if dn == '__eq__':
                return C(a == b)
            self.raise_(h, fr, 'TypeError')
        return None

    def isnone(self, v, h):
        if isinstance(v, C):
            return C(v.v is None)
        if isinstance(v, S) and v.kind != 'any':
            return FALSE
        if isinstance(v, (Lin, Tup, TD, Bts, Str, Ref, ClsV, FnV, ModV, Ext, Exc, BM)):
            return FALSE
        if isinstance(v, Ite):
            return ite(v.c, self.isnone(v.a, h), self.isnone(v.b, h))
        if isinstance(v, T) and (v.typ in ('int', 'num', 'str', 'bool') or is_numeric(v)):
            return FALSE
        if isinstance(v, Top):
            return T('choice', ('topnone', id(v), tuple(sorted(v.deps))))
        return T('isnone', v)

    def order(self, op, a, b, h, fr):
        F = h.st.facts
        if isinstance(a, TD) and isinstance(b, TD):
            a, b = a.us, b.us
        ta, tb = as_tup(a, h.st), as_tup(b, h.st)
        if ta is not None and tb is not None:
            return self.tup_order(op, ta, tb, h, fr)
        if isinstance(a, C) and isinstance(b, C):
            try:
                return C(a.v < b.v if op == 'Lt' else a.v <= b.v)
            except TypeError:
                self.raise_(h, fr, 'TypeError')
        num = lambda v: is_numeric(v) or isinstance(v, T) and v.typ is None
        if isinstance(a, (Top,)) or isinstance(b, Top):
            return T('choice', ('cmp', id(a), id(b), tuple(sorted(deps(a) | deps(b)))))
        bad = (Bts, Str, Tup, TD, ClsV, FnV)
        if (isinstance(a, bad) and is_numeric(b)) or (isinstance(b, bad) and is_numeric(a)) \
                or (a == NONE and (is_numeric(b) or b == NONE)) or (b == NONE and is_numeric(a)):
            self.raise_(h, fr, 'TypeError')
        d = sub(a, b) if lin_parts(a) is not None and lin_parts(b) is not None else None
        if d is None:
            return T('ltx', op, a, b)
        r = lift(d, lt0 if op == 'Lt' else le0, F)
        return r if r is not None else T('ltx', op, a, b)

    def tup_order(self, op, ta, tb, h, fr):
        if not ta or not tb:
            n, m = len(ta), len(tb)
            return C(n < m if op == 'Lt' else n <= m)
        e = self.truth(self.eq(ta[0], tb[0], h, fr), h, fr)
        d = decide(e, h.st.facts)
        if d is True:
            return self.tup_order(op, ta[1:], tb[1:], h, fr)
        l = self.truth(self.compare('Lt', ta[0], tb[0], h, fr), h, fr)
        if d is False:
            return l
        rest = self.tup_order(op, ta[1:], tb[1:], h, fr)
        return ite(e, rest, l)

    def eq(self, a, b, h, fr):
        F = h.st.facts
        if a == b and not isinstance(a, Top):
            if not (isinstance(a, Ref) and h.st.heap[a.oid].kind == 'inst'):
                return TRUE
        r = self.rich(a, b, '__eq__', '__eq__', h, fr) if any(
            isinstance(x, Ref) and h.st.heap[x.oid].kind == 'inst' for x in (a, b)) else None
        if r is not None:
            return r
        if isinstance(a, TD) and isinstance(b, TD):
            a, b = a.us, b.us
        if isinstance(a, C) and isinstance(b, C):
            return C(a.v == b.v)
        ta, tb = as_tup(a, h.st), as_tup(b, h.st)
        if ta is not None and tb is not None:
            if len(ta) != len(tb):
                return FALSE
            return conj(*[self.truth(self.eq(x, y, h, fr), h, fr) for x, y in zip(ta, tb)])
        la, lb = self.list_items(a, h), self.list_items(b, h)
        if la is not None and lb is not None:
            if len(la) != len(lb):
                return FALSE
            return conj(*[self.truth(self.eq(x, y, h, fr), h, fr) for x, y in zip(la, lb)])
        if isinstance(a, Bts) and isinstance(b, Bts):
            if len(a.items) != len(b.items):
                return FALSE
            return conj(*[self.eq(x, y, h, fr) for x, y in zip(a.items, b.items)])
        ka, kb = tkind(a, h.st), tkind(b, h.st)
        if ka and kb and ka != kb:
            return FALSE
        if isinstance(a, Top) or isinstance(b, Top):
            return T('choice', ('eq', id(a), id(b), tuple(sorted(deps(a) | deps(b)))))
        ca, cb = cells(a), cells(b)
        if ca is not None and cb is not None:
            return self.str_eq(ca, cb, F)
        if lin_parts(a) is not None and lin_parts(b) is not None and (is_numeric(a) or is_numeric(b)):
            d = sub(a, b)
            r = lift(d, eq0, F)
            if r is not None:
                return r
        if isinstance(a, S) and isinstance(b, S) and a.kind in ('tz', 'obj') and b.kind in ('tz', 'obj'):
            return T('eq', *sorted((a, b), key=rk))
        for x, y in ((a, b), (b, a)):
            if y == NONE:
                return self.isnone(x, h)
        return T('eq', *sorted((a, b), key=rk))

    def str_eq(self, ca, cb, F):
        if len(ca) != len(cb):
            return FALSE
        fs = []
        for x, y in zip(ca, cb):
            if isinstance(x, str) and isinstance(y, str):
                if x != y:
                    return FALSE
            elif isinstance(x, str) or isinstance(y, str):
                lit, d = (x, y) if isinstance(x, str) else (y, x)
                if not lit.isdigit():
                    return FALSE
                fs.append(eq0(sub(digit(d, F), C(int(lit)))))
            elif x != y:
                fs.append(eq0(sub(digit(x, F), digit(y, F))))
        return conj(*fs)

    def contains(self, cont, x, h, fr):
        F = h.st.facts
        self.seen(cont, h, fr)
        if isinstance(cont, C) and isinstance(cont.v, str):
            if isinstance(x, C) and isinstance(x.v, str):
                return C(x.v in cont.v)
            cx = cells(x)
            if cx is not None and len(cx) == 1:
                return disj(*[self.str_eq(cx, (ch,), F) for ch in cont.v])
            return T('in', x, cont)
        cc = cells(cont)
        if cc is not None and isinstance(x, C) and isinstance(x.v, str) and len(x.v) == 1:
            return disj(*[self.str_eq((c,), (x.v,), F) for c in cc])
        if isinstance(cont, T) and cont.op == 'range':
            lo, hi, stp = cont.args
            if stp == C(1):
                a = self.order('LtE', lo, x, h, fr)
                b = self.order('Lt', x, hi, h, fr)
                r = conj(a, b)
                if is_int(x):
                    return r
                return conj(r, T('isint', x, typ='bool'))
        if isinstance(cont, Ref):
            o = h.st.heap[cont.oid]
            if o.kind == 'inst' and self.find_attr(h.st, o.cls, '__contains__')[0] is not None:
                return self.call_method(cont, '__contains__', [x], h, fr)
            if isinstance(o.items, dict):
                items = list(o.items.items())
                return disj(*[conj(self.truth(self.eq(k, x, h, fr), h, fr),
                                   neg(_undef_f(v))) for k, v in items])
        items = self.iterate(cont, h, fr, soft=True)
        if items is not None and len(items) <= 4000:
            return disj(*[self.truth(self.eq(k, x, h, fr), h, fr) for k in items])
        if isinstance(cont, Top) or isinstance(x, Top):
            return T('choice', ('in', id(cont), id(x), tuple(sorted(deps(cont) | deps(x)))))
        return T('in', x, cont)

    # --------------------------------------------------------- attributes
    def e_Attribute(self, e, h, fr):
        o = self.eval(e.value, h, fr)
        return self.getattr(o, self.mangle(e.attr, fr.owner), h, fr)

    def getattr(self, o, name, h, fr, default=None):
        st = h.st
        if o.has_ite():
            o = simp(o, st.facts)
        if isinstance(o, Ite):
            return self.over_ite(o, h, fr, lambda y, hh: self.getattr(y, name, hh, fr, default))
        if isinstance(o, ModV):
            m = st.heap.get(('mod', o.name))
            if m is None:
                if self.has_module(name):
                    self.load(name, st)
                    return ModV(name)
                return Ext(f'{self.package}.{name}')
            if self.watch is not None and ('g', o.name, name) in self.watch:
                self.touch(('g', o.name, name), st, fr)
            if self.others is not None:
                self.interfere(('mod', o.name), st)
                m = st.heap[('mod', o.name)]
            v = m.attrs.get(name)
            if v is None:
                if default is not None:
                    return default
                self.raise_(h, fr, 'AttributeError')
            return v
        if isinstance(o, Ext):
            from . import ext
            n2 = f'{o.name}.{name}'
            r = ext.ext_attr(self, n2)
            return r if r is not None else Ext(n2)
        if isinstance(o, ClsV):
            if name == '__name__' or name == '__qualname__':
                return C(o.name)
            if name == '__module__':
                return C(f'{self.package}.{self.classes[o.name][0]}')
            if name == '__mro__':
                return Tup(ClsV(k) if k in self.classes else Ext(k) for k in self.mro(o.name))
            if self.others is not None:
                self.interfere(('cls', o.name), st)
            v, k = self.find_attr(st, o.name, name)
            if v is not None:
                if isinstance(v, Ite) or isinstance(v, Undef):
                    v = self.strip_undef(v, h, fr, 'AttributeError')
                if isinstance(v, Desc):
                    if v.kind == 'classmethod':
                        return FnV(v.f.fn, o, v.f.env)
                    if v.kind == 'staticmethod':
                        return v.f
                return v
            for k in self.mro(o.name):
                if k not in self.classes and k != 'object':
                    return Ext(f'{k}.{name}')
            if name in ('__new__', '__init__', '__reduce_ex__', '__reduce__', '__eq__', '__hash__', '__setattr__', '__repr__', '__str__'):
                return Ext(f'object.{name}')
            if default is not None:
                return default
            self.raise_(h, fr, 'AttributeError')
        if isinstance(o, Sup):
            cls = o.obj.name if isinstance(o.obj, ClsV) else st.heap[o.obj.oid].cls if isinstance(o.obj, Ref) else None
            if cls is None:
                return self.top('super', o.obj)
            v, k = self.find_attr(st, cls, name, after=o.owner)
            if v is None:
                for k in self.mro(cls)[self.mro(cls).index(o.owner) + 1:]:
                    if k not in self.classes:
                        if isinstance(o.obj, Ref) and name != '__new__':
                            return BM(o.obj, f'{k}.{name}')
                        return Ext(f'{k}.{name}')
                self.raise_(h, fr, 'AttributeError')
            if name == '__new__' and isinstance(v, FnV):
                return FnV(v.fn, None, v.env)
            if isinstance(o.obj, ClsV):
                if isinstance(v, Desc):
                    return FnV(v.f.fn, o.obj, v.f.env) if v.kind == 'classmethod' else v.f if v.kind == 'staticmethod' else v
                return v
            return self.bind(v, o.obj, cls, h, fr)
        if isinstance(o, Ref):
            if self.others is not None:
                self.interfere(o.oid, st)
            ob = st.heap[o.oid]
            if ob.kind == 'inst':
                if name == '__class__':
                    return ClsV(ob.cls)
                if name == '__dict__':
                    return self.top('__dict__', *ob.attrs.values())
                v, k = self.find_attr(st, ob.cls, name)
                if isinstance(v, Desc) and v.kind == 'property':
                    return self.call(FnV(v.f.fn, o, v.f.env), [], {}, h, fr)
                if name in ob.attrs:
                    x = ob.attrs[name]
                    if isinstance(x, (Ite, Undef)):
                        if default is not None and isinstance(x, Undef):
                            return default
                        x = self.strip_undef(x, h, fr, 'AttributeError')
                    return x
                if v is not None:
                    return self.bind(v, o, ob.cls, h, fr)
                for k in self.mro(ob.cls):
                    if k not in self.classes and k not in ('object', 'NamedTuple', 'tzinfo'):
                        if k in ('dict', 'tuple', 'list', 'str', 'int'):
                            if hasattr(getattr(_b, k), name):
                                return BM(o, name)
                ga, _ = self.find_attr(st, ob.cls, '__getattr__')
                if ga is not None:
                    return self.call_method(o, '__getattr__', [C(name)], h, fr)
                if 'NamedTuple' in self.mro(ob.cls) and name in ('_asdict', '_fields', '_replace', 'index', 'count'):
                    return BM(o, name)
                if name in ('__reduce_ex__', '__reduce__', '__hash__', '__eq__', '__init__', '__setattr__', '__ne__', '__str__', '__repr__', '__format__'):
                    return BM(o, name)
                if 'tzinfo' in self.mro(ob.cls) and name in ('utcoffset', 'dst', 'tzname', 'fromutc', '__getstate__'):
                    return BM(o, name)
                if default is not None:
                    return default
                self.raise_(h, fr, 'AttributeError')
            return BM(o, name)
        if isinstance(o, TD):
            F = st.facts
            D = 86400_000_000
            f = None
            if name == 'days':
                f = lambda x: fdiv(x, C(D), F)
            elif name == 'seconds':
                f = lambda x: mod(fdiv(x, C(1000000), F), C(86400), F)
            elif name == 'microseconds':
                f = lambda x: mod(x, C(1000000), F)
            if f:
                r = self.lift_num(o.us, f, F)
                return r if r is not None else self.top('td.' + name, o)
            if name in ('total_seconds',):
                return BM(o, name)
            if default is not None and name not in ('resolution', 'min', 'max'):
                return default
            return BM(o, name)
        if isinstance(o, FnV):
            if name in ('__name__', '__qualname__'):
                return C(o.fn.name)
            return self.top('fn attr')
        if isinstance(o, Exc):
            if name == 'args':
                return Tup(o.args)
            return self.top('exc attr')
        if isinstance(o, Top):
            return self.top('attr of unknown', o)
        if isinstance(o, S) and o.kind in ('tz', 'obj', 'any'):
            hs = self.sym_methods.get(o.name) or self.sym_methods.get(o.kind) or {}
            f = hs.get(name)
            if f is None and hs.get('*strict'):
                if default is not None:
                    return default
                self.raise_(h, fr, 'AttributeError')
            if isinstance(f, V):
                return f
            return BM(o, name)
        if isinstance(o, C):
            if name == '__class__':
                return Ext(type(o.v).__name__)
            if not hasattr(o.v, name):
                if default is not None:
                    return default
                self.raise_(h, fr, 'AttributeError')
            if isinstance(o.v, (int, float)) and name in ('numerator', 'real'):
                return o
            return BM(o, name)
        if isinstance(o, (Tup, Lin, Str, Bts)):
            if name == '__class__':
                return Ext({'Tup': 'tuple', 'Str': 'str', 'Bts': 'bytes', 'Lin': 'int'}[type(o).__name__])
            ty = {'Tup': tuple, 'Str': str, 'Bts': bytes, 'Lin': int}[type(o).__name__]
            if not hasattr(ty, name):
                if default is not None:
                    return default
                self.raise_(h, fr, 'AttributeError')
            return BM(o, name)
        if isinstance(o, BM):
            return T('attr', o, name)
        return BM(o, name)

    def bind(self, v, obj, cls, h, fr):
        if isinstance(v, FnV) and v.bound is None:
            return FnV(v.fn, obj, v.env)
        if isinstance(v, Desc):
            if v.kind == 'property':
                return self.call(FnV(v.f.fn, obj, v.f.env), [], {}, h, fr)
            if v.kind == 'classmethod':
                return FnV(v.f.fn, obj if isinstance(obj, ClsV) else ClsV(cls), v.f.env)
            return v.f
        return v

    def setattr(self, o, name, v, h, fr):
        st = h.st
        if o.has_ite():
            o = simp(o, st.facts)
        if isinstance(o, Ite):
            self.over_ite(o, h, fr, lambda y, hh: (self.setattr(y, name, v, hh, fr), NONE)[1])
            return
        oid = None
        if isinstance(o, Ref):
            oid = o.oid
        elif isinstance(o, ClsV):
            oid = ('cls', o.name)
        elif isinstance(o, ModV):
            oid = ('mod', o.name)
        if oid is None or oid not in st.heap:
            return
        ob = st.heap[oid]
        if ob.kind == 'inst':
            p, _ = self.find_attr(st, ob.cls, name)
            if isinstance(p, Desc) and p.kind == 'property':
                self.raise_(h, fr, 'AttributeError')
            sa, _ = self.find_attr(st, ob.cls, '__setattr__')
            if sa is not None:
                self.call_method(o, '__setattr__', [C(name), v], h, fr)
                return
        st.events = st.events + (('setattr', oid, name, v, fr.loc(), st.pc, st.held),)
        st.heap[oid] = ob.setattr(name, v)

    # ---------------------------------------------------------- subscript
    def e_Subscript(self, e, h, fr):
        o = self.eval(e.value, h, fr)
        k = self.eval_slice(e.slice, h, fr)
        return self.getitem(o, k, h, fr)

    def eval_slice(self, s, h, fr):
        if isinstance(s, ast.Slice):
            return T('slice', *[self.eval(x, h, fr) if x is not None else NONE
                                for x in (s.lower, s.upper, s.step)])
        return self.eval(s, h, fr)

    def getitem(self, o, k, h, fr):
        st = h.st
        F = st.facts
        self.seen(o, h, fr)
        if o.has_ite():
            o = simp(o, F)
        if k.has_ite():
            k = simp(k, F)
        if isinstance(k, Lin) or isinstance(k, S):
            k = simp(k, F)
        if isinstance(o, Ite):
            return self.over_ite(o, h, fr, lambda y, hh: self.getitem(y, k, hh, fr))
        if isinstance(k, Ite):
            return self.over_ite(k, h, fr, lambda y, hh: self.getitem(o, y, hh, fr))
        if isinstance(o, Top) or isinstance(k, Top):
            return self.top('item of unknown', o, k)
        if isinstance(o, Ext) and o.name == 'sys.modules' and isinstance(k, C) and isinstance(k.v, str):
            m = self.import_module(k.v, st)
            if isinstance(m, ModV):
                return m
        if isinstance(o, T) and o.op == 'ns' and isinstance(k, C):
            v = st.heap[('mod', o.args[0].name)].attrs.get(k.v)
            if v is None:
                self.raise_(h, fr, 'KeyError')
            return v
        if isinstance(k, T) and k.op == 'slice':
            args = k.args
            for i, a in enumerate(args):
                a2 = simp(a, F) if not isinstance(a, C) else a
                if isinstance(a2, Ite):
                    return self.over_ite(a2, h, fr, lambda y, hh: self.getitem(
                        o, T('slice', *(y if j == i else z for j, z in enumerate(args))), hh, fr))
                if a2 is not a:
                    args = tuple(a2 if j == i else z for j, z in enumerate(args))
            if any(not isinstance(a, C) for a in args):
                g = next((any_ite(a) for a in args if any_ite(a) is not None), None)
                if g is not None:
                    return self.gated(g.c, lambda hh: self.getitem(o, T('slice', *args), hh, fr),
                                      lambda hh: self.getitem(o, T('slice', *args), hh, fr), h)
            if all(isinstance(a, C) for a in args):
                sl = slice(*[None if a.v is None else int(a.v) for a in args])
                if isinstance(o, C):
                    try:
                        return C(o.v[sl])
                    except TypeError:
                        self.raise_(h, fr, 'TypeError')
                if isinstance(o, Str):
                    return mkstr(o.cells[sl])
                r = cat_slice(o, sl)
                if r is not None:
                    return r
                if isinstance(o, Bts):
                    x = o.items[sl]
                    if all(isinstance(i, C) for i in x):
                        try:
                            return C(bytes(int(i.v) for i in x))
                        except ValueError:
                            pass
                    return Bts(x)
                t = as_tup(o, st)
                if t is not None:
                    return Tup(t[sl])
                li = self.list_items(o, h)
                if li is not None:
                    return self.new_list(st, li[sl])
                if isinstance(o, Ref) and st.heap[o.oid].kind == 'inst':
                    return self.top('slice', o)
            if isinstance(o, Ref):
                o2 = st.heap[o.oid]
                if o2.kind in ('list', 'dict') :
                    vs = [x for x in (o2.items if isinstance(o2.items, tuple) else ()) if isinstance(x, V)]
                    return self.top('slice of list', *vs, *args)
            return T('slc', o, k, typ='str' if is_strlike(o) else None)
        t = as_tup(o, st)
        if t is None:
            t = self.list_items(o, h)
        if t is not None:
            if isinstance(k, C) and isinstance(k.v, int):
                try:
                    return t[int(k.v)]
                except IndexError:
                    self.raise_(h, fr, 'IndexError')
            if isinstance(k, C):
                self.raise_(h, fr, 'TypeError')
            r = self.select(t, k, h, fr)
            if r is not None:
                return r
            return T('getitem', Tup(t), k, typ='str' if all(is_strlike(x) for x in t) else None)
        if isinstance(o, C) and isinstance(o.v, (str, bytes)):
            if isinstance(k, C):
                try:
                    return C(o.v[k.v])
                except IndexError:
                    self.raise_(h, fr, 'IndexError')
                except TypeError:
                    self.raise_(h, fr, 'TypeError')
            return T('getitem', o, k, typ='str' if isinstance(o.v, str) else 'int')
        if isinstance(o, Str) and isinstance(k, C):
            try:
                return mkstr((o.cells[k.v],))
            except IndexError:
                self.raise_(h, fr, 'IndexError')
        if isinstance(o, Bts) and isinstance(k, C):
            try:
                return o.items[k.v]
            except IndexError:
                self.raise_(h, fr, 'IndexError')
        if isinstance(o, Ref):
            ob = st.heap[o.oid]
            if ob.kind == 'inst' and not isinstance(ob.items, dict):
                m, _ = self.find_attr(st, ob.cls, '__getitem__')
                if m is not None:
                    return self.call_method(o, '__getitem__', [k], h, fr)
            if isinstance(ob.items, dict):
                if symkeys(ob.items) or not isinstance(k, C) and 0 < len(ob.items) < 5 and not is_int(k):
                    return self.strip_undef(self.dict_find(ob.items, k, h, fr), h, fr, 'KeyError')
                if k in ob.items:
                    v = ob.items[k]
                    return self.strip_undef(v, h, fr, 'KeyError') if isinstance(v, (Ite, Undef)) else v
                if isinstance(k, C) and all(isinstance(x, C) for x in ob.items):
                    self.raise_(h, fr, 'KeyError', k)
                lo, hi = rng(k, F)
                if all(isinstance(x, C) for x in ob.items) and is_int(k):
                    keys = [x.v for x in ob.items if isinstance(x.v, int)]
                    if keys and lo is not None and hi is not None and sorted(keys) == list(range(min(keys), max(keys) + 1)):
                        bad = disj(lt0(sub(k, C(min(keys)))), lt0(sub(C(max(keys)), k)))
                        self.maybe_raise(bad, h, fr, 'KeyError', k)
                        t = [ob.items[C(i)] for i in range(min(keys), max(keys) + 1)]
                        if all(isinstance(x, C) for x in t):
                            return T('getitem', Tup(t), sub(k, C(min(keys))), typ='str' if all(is_strlike(x) for x in t) else None)
                return T('dictget', o, k)
            return self.top('item', o, k)
        if isinstance(o, (S, T)):
            return T('getitem', o, k, typ='int' if isinstance(o, S) and o.kind == 'dict' else None)
        return self.top('item', o, k)

    def select(self, t, k, h, fr):
        """sequence indexed by a bounded integer: keep a table lookup."""
        lo, hi = rng(k, h.st.facts)
        n = len(t)
        if lo is not None and hi is not None and is_int(k):
            bad = disj(lt0(sub(k, C(-n))), lt0(sub(C(n - 1), k)))
            d = decide(bad, h.st.facts)
            if d is not False:
                self.maybe_raise(bad, h, fr, 'IndexError')
            if hi - lo <= 1:
                a, b = t[int(lo)], t[int(hi)]
                return ite(eq0(sub(k, C(int(lo)))), a, b)
        return None

    def setitem(self, o, k, v, h, fr):
        if o.has_ite():
            o = simp(o, h.st.facts)
        if isinstance(o, Ite):
            self.over_ite(o, h, fr, lambda y, hh: (self.setitem(y, k, v, hh, fr), NONE)[1])
            return
        st = h.st
        if isinstance(o, T) and o.op == 'ns' and isinstance(k, C):
            m = o.args[0].name
            st.events = st.events + (('setglobal', m, k.v, v, fr.loc(), st.pc, st.held),)
            st.heap[('mod', m)] = st.heap[('mod', m)].setattr(k.v, v)
            return
        if isinstance(o, Ref):
            ob = st.heap[o.oid]
            st.events = st.events + (('setitem', o.oid, k, v, fr.loc(), st.pc, st.held),)
            if ob.kind == 'inst' and not isinstance(ob.items, dict):
                m, _ = self.find_attr(st, ob.cls, '__setitem__')
                if m is not None:
                    self.call_method(o, '__setitem__', [k, v], h, fr)
                return
            if isinstance(ob.items, dict):
                if len(ob.items) < 40 or isinstance(k, C) and not symkeys(ob.items) or k in ob.items:
                    d = dict(ob.items)
                    if symkeys(d) or not isinstance(k, C):
                        d.pop(k, None)
                    d[k] = v
                    st.heap[o.oid] = ob.with_items(d)
                    return
            elif isinstance(ob.items, tuple) and isinstance(k, C) and isinstance(k.v, int):
                l = list(ob.items)
                try:
                    l[k.v] = v
                except IndexError:
                    self.raise_(h, fr, 'IndexError')
                st.heap[o.oid] = ob.with_items(tuple(l))
                return
            st.heap[o.oid] = ob.with_items(self.top('setitem', v, k))
        elif isinstance(o, (Tup, C, Str)):
            self.raise_(h, fr, 'TypeError')

    def delitem(self, o, k, h, fr):
        if isinstance(o, Ref):
            ob = h.st.heap[o.oid]
            if isinstance(ob.items, tuple) and isinstance(k, C) and isinstance(k.v, int):
                l = list(ob.items)
                try:
                    del l[k.v]
                except IndexError:
                    self.raise_(h, fr, 'IndexError')
                h.st.heap[o.oid] = ob.with_items(tuple(l))
                return
            if isinstance(ob.items, dict) and k in ob.items and not symkeys(ob.items):
                d = dict(ob.items)
                self.strip_undef(d[k], h, fr, 'KeyError')
                del d[k]
                h.st.heap[o.oid] = ob.with_items(d)
                return
            h.st.heap[o.oid] = ob.with_items(self.top('delitem'))

    def list_items(self, v, h):
        if isinstance(v, Ref):
            o = h.st.heap.get(v.oid)
            if o is not None and o.kind == 'list' and isinstance(o.items, tuple):
                return o.items
        return None

    # ------------------------------------------------------------ iterate
    def iterate(self, v, h, fr, soft=False):
        st = h.st
        self.seen(v, h, fr)
        if v.has_ite():
            v = simp(v, st.facts)
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, C):
            if isinstance(v.v, (str, tuple, list)):
                return [C(x) for x in v.v]
            if isinstance(v.v, bytes):
                return [C(x) for x in v.v]
            if v.v is None or isinstance(v.v, (int, float)):
                self.raise_(h, fr, 'TypeError')
        if isinstance(v, Str):
            return [mkstr((c,)) for c in v.cells]
        if isinstance(v, Bts):
            return list(v.items)
        if isinstance(v, Ref):
            o = st.heap[v.oid]
            t = as_tup(v, st)
            if t is not None:
                return list(t)
            if isinstance(o.items, tuple):
                return list(o.items)
            if isinstance(o.items, dict):
                if any(_has_undef(x) for x in o.items.values()) or symkeys(o.items) and len(o.items) > 1:
                    return None
                return list(o.items)
            if isinstance(o.items, Tup):
                return list(o.items.items)
        if isinstance(v, T) and v.op == 'range':
            if all(isinstance(a, C) for a in v.args):
                r = range(*[int(a.v) for a in v.args])
                if len(r) <= 4000:
                    return [C(i) for i in r]
            return None
        if soft:
            return None
        return None

    def comp_items(self, gens, elt, h, fr):
        """evaluate comprehension; None when not statically unrollable."""
        out = []
        ok = [True]

        def rec(i, hh):
            if i == len(gens):
                out.append(elt(hh, fr2))
                return
            g = gens[i]
            it = self.eval(g.iter, hh, fr2)
            items = self.iterate(it, hh, fr2, soft=True)
            if items is None or len(items) > 4000:
                ok[0] = False
                bad.append(it)
                return
            for x in items:
                self.assign(g.target, x, hh, fr2)
                skip = False
                for c in g.ifs:
                    t = simp(self.truth(self.eval(c, hh, fr2), hh, fr2), hh.st.facts)
                    d = decide(t, hh.st.facts)
                    if d is None:
                        ok[0] = False
                        bad.append(t)
                        cond_elt.append((t, None))
                        return
                    if d is False:
                        skip = True
                        break
                if not skip:
                    rec(i + 1, hh)
                if not ok[0]:
                    return
        bad, cond_elt = [], []
        fid = self.new_id('env')
        self.envparents[fid] = fr.fid if fr.fid[0] == 'env' else None
        h.st.envs[fid] = {}
        fr2 = Frame(fr.fn, fid, fr, fr.module, fr.owner, fr.depth, fr)
        fr2.line = fr.line
        if fr.fid[0] == 'cls':
            h.st.envs[fid] = dict(h.st.heap[fr.fid].attrs)
        fr2.raises = fr.raises
        rec(0, h)
        if not ok[0]:
            return None, bad
        return out, None

    def e_ListComp(self, e, h, fr):
        xs, bad = self.comp_items(e.generators, lambda hh, f2: self.eval(e.elt, hh, f2), h, fr)
        if xs is None:
            oid = self.new_id('list')
            h.st.heap[oid] = HObj('list', items=self.top('comprehension', *bad))
            return Ref(oid)
        return self.new_list(h.st, xs)

    def e_GeneratorExp(self, e, h, fr):
        return self.e_ListComp(e, h, fr)

    def e_SetComp(self, e, h, fr):
        return self.e_ListComp(e, h, fr)

    def e_DictComp(self, e, h, fr):
        xs, bad = self.comp_items(e.generators, lambda hh, f2: (
            self.eval(e.key, hh, f2), self.eval(e.value, hh, f2)), h, fr)
        if xs is None:
            oid = self.new_id('dict')
            h.st.heap[oid] = HObj('dict', items=self.top('comprehension', *bad))
            return Ref(oid)
        return self.new_dict(h.st, dict(xs))

    def e_Lambda(self, e, h, fr):
        return self.make_fn(e, h.st, fr)

    def e_Starred(self, e, h, fr):
        return T('star', self.eval(e.value, h, fr))

    def e_JoinedStr(self, e, h, fr):
        out = ()
        bad = []
        parts = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                v = C(p.value)
            else:
                x = self.eval(p.value, h, fr)
                spec = C('')
                if p.format_spec is not None:
                    spec = self.e_JoinedStr(p.format_spec, h, fr)
                if p.conversion == 114:
                    v = self.repr_(x, h, fr)
                elif p.conversion == 115:
                    v = self.str_(x, h, fr)
                else:
                    v = self.format_(x, spec, h, fr)
            parts.append(v)
        return self.concat(parts, h, fr)

    def percent(self, a, b, h, fr):
        """text % values, for %s, %r, %d and zero padded decimals."""
        if not (isinstance(a, C) and isinstance(a.v, str)) or b.has_ite() and isinstance(simp(b, h.st.facts), Ite):
            return None
        xs = list(b.items) if isinstance(b, Tup) else [b]
        parts = []
        for x in re.split(r'(%(?:[srd%]|0\d+d))', a.v):
            if x == '%%':
                parts.append(C('%'))
            elif x.startswith('%') and len(x) > 1:
                if not xs:
                    return None
                v = xs.pop(0)
                if x == '%s':
                    parts.append(self.str_(v, h, fr))
                elif x == '%r':
                    parts.append(self.repr_(v, h, fr))
                elif is_int(v):
                    parts.append(self.format_(v, C(x[1:]), h, fr))
                else:
                    return None
            elif '%' in x:
                return None
            elif x:
                parts.append(C(x))
        if xs:
            return None
        return self.concat(parts, h, fr) if parts else C('')

    def concat(self, parts, h, fr):
        F = h.st.facts
        for i, p in enumerate(parts):
            if p.has_ite():
                parts[i] = p = simp(p, F)
            if isinstance(p, Ite):
                return self.over_ite(p, h, fr, lambda y, hh: self.concat(
                    parts[:i] + [y] + parts[i + 1:], hh, fr))
        cs = ()
        for p in parts:
            c = cells(p)
            if c is None:
                flat = []
                for q in parts:
                    if isinstance(q, C) and q.v == '':
                        continue
                    for z in q.args if isinstance(q, T) and q.op == 'cat' else (q,):
                        if flat and cells(flat[-1]) is not None and cells(z) is not None:
                            flat[-1] = mkstr(cells(flat[-1]) + cells(z))
                        else:
                            flat.append(z)
                if len(flat) == 1 and is_strlike(flat[0]):
                    return flat[0]
                return T('cat', *flat, typ='str')
            cs += c
        return mkstr(cs)

    # --------------------------------------------------------- formatting
    def format_(self, x, spec, h, fr):
        F = h.st.facts
        if x.has_ite():
            x = simp(x, F)
        if isinstance(x, Ite):
            return self.over_ite(x, h, fr, lambda y, hh: self.format_(y, spec, hh, fr))
        if isinstance(spec, Ite):
            return self.over_ite(spec, h, fr, lambda y, hh: self.format_(x, y, hh, fr))
        if not isinstance(spec, C):
            return T('format', x, spec, typ='str')
        sp = spec.v
        if isinstance(x, C) and not isinstance(x.v, Fraction):
            try:
                return C(format(x.v, sp))
            except (ValueError, TypeError):
                self.raise_(h, fr, 'ValueError')
        if isinstance(x, Ref) and h.st.heap[x.oid].kind == 'inst':
            m, _ = self.find_attr(h.st, h.st.heap[x.oid].cls, '__format__')
            if m is not None:
                return self.call_method(x, '__format__', [spec], h, fr)
            if sp == '':
                return self.str_(x, h, fr)
        if is_strlike(x) and sp == '':
            return x
        if is_strlike(x) and isinstance(x, Str):
            m = re.fullmatch(r'0?(\d+)', sp)
            if m and len(x.cells) >= int(m.group(1)):
                return x
        if sp in ('', 'd') and is_int(x):
            if self.whole_numbers and rng(x, F)[0] != rng(x, F)[1]:
                return T('format', x, C('d'), typ='str')
            sp = '0d'
            w = 1
        else:
            m = re.fullmatch(r'(\s|-)?(0?)(\d+)d?', sp)
            w = None
            if m and is_int(x):
                w = int(m.group(3))
                if m.group(2) == '' and w > 1:
                    # space padded
                    lo, hi = rng(x, F)
                    if lo is None or hi is None or lo < 10 ** (w - 1) or hi >= 10 ** w:
                        if lo is not None and hi is not None and lo >= 0 and hi < 10 ** w and w == 2:
                            one = (' ',) + tuple(self.intcells(x, 1, F) or ())
                            return self.gated(lt0(sub(x, C(10))),
                                              lambda hh: mkstr((' ', (x, 0, 1))),
                                              lambda hh: mkstr(((x, 0, 2), (x, 1, 2))), h)
                        return T('format', x, spec, typ='str')
                if m.group(1) == ' ':
                    return T('format', x, spec, typ='str')
        if w is not None:
            c = self.intcells(x, w, F)
            if c is not None:
                return mkstr(c)
            if rng(x, F) != (None, None):
                r = self.split_width(x, w, h, fr)
                if r is not None:
                    return r
        return T('format', x, spec, typ='str')

    def split_width(self, x, w, h, fr, prev=None):
        """gate a decimal rendering on sign and number of digits."""
        lo, hi = rng(x, h.st.facts)
        if lo is None or hi is None or hi - lo > 10 ** 7 or (lo, hi) == prev:
            return None
        cuts = set()
        for n in range(w, 9):
            cuts.add(10 ** n)
        cuts.add(0)
        for n in range(max(w - 1, 1), 9):
            cuts.add(-(10 ** n) + 1)
        cuts = sorted(c for c in cuts if lo < c <= hi)
        if not cuts:
            return None
        c = cuts[len(cuts) // 2]

        def go(hh):
            k = self.intcells(x, w, hh.st.facts)
            if k is not None:
                return mkstr(k)
            r = self.split_width(x, w, hh, fr, (lo, hi))
            return r if r is not None else T('format', x, C(f'0{w}d'), typ='str')
        return self.gated(lt0(sub(x, C(c))), go, go, h)

    def intcells(self, x, w, F):
        """cells of int x rendered with zero padding to width w."""
        lo, hi = rng(x, F)
        if lo is None or hi is None:
            return None
        if lo >= 0:
            n = max(w, 1)
            if hi < 10 ** n:
                if w > 1 or n == 1 and hi < 10:
                    return tuple((x, i, n) for i in range(n))
            k = len(str(int(hi)))
            if len(str(int(lo))) == k and k >= n:
                return tuple((x, i, k) for i in range(k))
            return None
        if hi < 0:
            y = scale(x, -1)
            n = max(w - 1, 1)
            c = self.intcells(y, n, F) if w > 1 else self.intcells(y, 1, F)
            return None if c is None else ('-',) + c
        return None

    def str_(self, x, h, fr):
        if x.has_ite():
            x = simp(x, h.st.facts)
        if isinstance(x, Ite):
            return self.over_ite(x, h, fr, lambda y, hh: self.str_(y, hh, fr))
        if is_strlike(x):
            return x
        if isinstance(x, C) and not isinstance(x.v, Fraction):
            return C(str(x.v))
        if isinstance(x, Ref) and h.st.heap[x.oid].kind == 'inst':
            for n in ('__str__', '__repr__'):
                m, _ = self.find_attr(h.st, h.st.heap[x.oid].cls, n)
                if m is not None:
                    return self.call_method(x, n, [], h, fr)
        if is_int(x):
            return self.format_(x, C('d'), h, fr)
        return T('str', x, typ='str')

    def repr_(self, x, h, fr):
        if x.has_ite():
            x = simp(x, h.st.facts)
        if isinstance(x, Ite):
            return self.over_ite(x, h, fr, lambda y, hh: self.repr_(y, hh, fr))
        if isinstance(x, C) and not isinstance(x.v, Fraction):
            return C(repr(x.v))
        if isinstance(x, Ref) and h.st.heap[x.oid].kind == 'inst':
            m, _ = self.find_attr(h.st, h.st.heap[x.oid].cls, '__repr__')
            if m is not None:
                return self.call_method(x, '__repr__', [], h, fr)
        if is_int(x):
            return self.format_(x, C('d'), h, fr)
        if isinstance(x, TD):
            return T('cat', C('datetime.timedelta('), T('tdargs', x.us, typ='str'), C(')'), typ='str')
        return T('repr', x, typ='str')

    # -------------------------------------------------------------- calls
    def e_Call(self, e, h, fr):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            obj = self.first_arg(h.st, fr)
            return Sup(fr.owner, obj)
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and len(e.args) == 2:
            k, obj = self.elts(e.args, h, fr)
            if isinstance(k, ClsV):
                return Sup(k.name, obj)
        f = self.eval(e.func, h, fr)
        args = self.elts(e.args, h, fr)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                o = self.eval(k.value, h, fr)
                if isinstance(o, Ref) and isinstance(h.st.heap[o.oid].items, dict):
                    for kk, vv in h.st.heap[o.oid].items.items():
                        if isinstance(kk, C):
                            kw[kk.v] = vv
                else:
                    kw['**'] = o
            else:
                kw[k.arg] = self.eval(k.value, h, fr)
        fr.line = e.lineno
        return self.call(f, args, kw, h, fr)

    def first_arg(self, st, fr):
        f = fr
        while f is not None and f.fn is not None:
            a = f.fn.node.args
            ps = a.posonlyargs + a.args
            if ps:
                v = st.envs[f.fid].get(ps[0].arg)
                if v is not None:
                    return st.envs[f.fid].get('$self', v)
            f = f.parent
        return Top((), 'super')

    def call_method(self, obj, name, args, h, fr, kw=None):
        f = self.getattr(obj, name, h, fr)
        return self.call(f, args, kw or {}, h, fr)

    def call(self, f, args, kw, h, fr):
        from . import ext
        if f.has_ite():
            f = simp(f, h.st.facts)
        if isinstance(f, Ite):
            return self.over_ite(f, h, fr, lambda y, hh: self.call(y, args, kw, hh, fr))
        self.analysed_calls += 1
        if isinstance(f, FnV):
            return self.call_fn(f, args, kw, h, fr)
        if isinstance(f, ClsV):
            return self.instantiate(f, args, kw, h, fr)
        if isinstance(f, Desc):
            return self.call(f.f, args, kw, h, fr)
        if isinstance(f, Ext):
            return ext.call_ext(self, f.name, args, kw, h, fr)
        if isinstance(f, BM):
            return ext.call_bm(self, f.obj, f.name, args, kw, h, fr)
        if isinstance(f, Ref):
            m, _ = self.find_attr(h.st, h.st.heap[f.oid].cls, '__call__') if h.st.heap[f.oid].cls else (None, None)
            if m is not None:
                return self.call_method(f, '__call__', args, h, fr, kw)
        if isinstance(f, C):
            self.raise_(h, fr, 'TypeError')
        return self.top('call of unknown', f, *args, *kw.values())

    def instantiate(self, cls, args, kw, h, fr):
        st = h.st
        mro = self.mro(cls.name)
        if any(m in EXC_BASES for m in mro):
            return Exc(cls.name, tuple(args))
        if 'NamedTuple' in mro:
            ann = st.heap[('cls', cls.name)].attrs.get('__annotations__')
            fields = [a.v for a in ann.items] if ann else []
            attrs = {}
            cd = st.heap[('cls', cls.name)].attrs
            if len(args) > len(fields) or any(isinstance(a, T) and a.op == 'star' for a in args):
                if any(isinstance(a, T) and a.op == 'star' for a in args):
                    return self.top('namedtuple *', *args)
                self.raise_(h, fr, 'TypeError')
            for n, v in zip(fields, args):
                attrs[n] = v
            attrs.update(kw)
            for n in fields:
                if n not in attrs:
                    if n in cd:
                        attrs[n] = cd[n]
                    else:
                        self.raise_(h, fr, 'TypeError')
            oid = self.new_id('inst')
            st.heap[oid] = HObj('inst', cls.name, attrs, tuple(attrs[n] for n in fields))
            return Ref(oid)
        new, _ = self.find_attr(st, cls.name, '__new__')
        if new is not None:
            f = new.f if isinstance(new, Desc) else new
            obj = self.call_fn(FnV(f.fn, None, f.env), [cls] + list(args), kw, h, fr)
        else:
            oid = self.new_id('inst')
            items = None
            if 'dict' in mro:
                items = {}
            elif 'tuple' in mro:
                items = tuple(self.iterate(args[0], h, fr) or ()) if args else ()
            st = h.st
            st.heap[oid] = HObj('inst', cls.name, {}, items)
            obj = Ref(oid)
        init, _ = self.find_attr(h.st, cls.name, '__init__')
        if init is not None and isinstance(init, FnV):
            def doinit(o, hh):
                if isinstance(o, Ref) and hh.st.heap[o.oid].kind == 'inst' and cls.name in self.mro(hh.st.heap[o.oid].cls):
                    self.call_fn(FnV(init.fn, o, init.env), args, kw, hh, fr)
                return NONE
            self.over_ite(obj, h, fr, doinit)
        elif new is None and 'dict' in mro and args:
            pass
        return obj

    def call_fn(self, fv, args, kw, h, fr, raw=False):
        fn = fv.fn
        args = list(args)
        if fv.bound is not None:
            args = [fv.bound] + args
        if fn.cache is not None and not raw:
            key = Tup(args + [Tup([C(k), x]) for k, x in sorted(kw.items())])
            d = h.st.heap[fn.cache].items
            if not isinstance(d, dict):
                d = {}
            v = self.dict_find(d, key, h, fr)

            def fresh(hh):
                r = self.call_fn(FnV(fn, None, fv.env), args, kw, hh, fr, True)
                ob = hh.st.heap[fn.cache]
                if isinstance(ob.items, dict):
                    it = dict(ob.items)
                    it.pop(key, None)
                    it[key] = r
                    hh.st.heap[fn.cache] = ob.with_items(it)
                return r
            return self.gated(_undef_f(v), fresh, lambda hh: _defined(v), h) if _has_undef(v) else v
        hook = self.opaque.get(fn.qual) or self.opaque.get(fn.name)
        if hook is not None:
            self.fn_seen.add(fn.qual)
            # hooks see positional parameters by position, however they are passed
            ps = [p.arg for p in fn.node.args.posonlyargs + fn.node.args.args]
            kw = dict(kw)
            while len(args) < len(ps) and ps[len(args)] in kw:
                args.append(kw.pop(ps[len(args)]))
            return hook(self, fn, args, kw, h, fr)
        self.fn_seen.add(fn.qual)
        if fn.gen:
            return self.top('generator', *args)
        depth = fr.depth + 1
        if depth > 60:
            return self.top('depth', *args, *kw.values())
        # recursion guard
        n = 0
        f = fr
        while f is not None:
            if f.fn is fn:
                n += 1
            f = f.caller
        if n > 3:
            return self.top('recursion ' + fn.qual, *args, *kw.values())
        st = h.st
        fid = self.new_id('env')
        self.envparents[fid] = fv.env
        env = self.bind_args(fn, args, kw, h, fr)
        st = h.st
        if env is None:
            return self.top('args ' + fn.qual, *args, *kw.values())
        st.envs[fid] = env
        nfr = Frame(fn, fid, fr if fv.env else None, fn.module, fn.owner, depth, fr)
        nfr.line = getattr(fn.node, 'lineno', 0)
        base = st.pc
        if isinstance(fn.node, ast.Lambda):
            try:
                v = self.eval(fn.node.body, h, nfr)
            finally:
                fr.raises.extend(nfr.raises)
            h.st.envs.pop(fid, None)
            return v
        outs = self.block(fn.node.body, st, nfr)
        rets = []
        for o in outs:
            if o.kind == 'raise':
                o.st.envs.pop(fid, None)
                fr.raises.append(o)
            else:
                rets.append((o.st, o.val if o.kind == 'return' else NONE))
        if not rets:
            raise Dead
        if len(rets) == 1:
            h.st, v = rets[0]
        else:
            n = len(base)
            for s, _ in rets:
                k = 0
                for a, b in zip(base, s.pc):
                    if a != b:
                        break
                    k += 1
                n = min(n, k)
            h.st, v = self.merge(rets, base[:n])
        # closures created here may outlive the frame
        if not self._captured(v, fid, h.st):
            h.st.envs.pop(fid, None)
        return v

    def _captured(self, v, fid, st):
        return isinstance(v, FnV) and v.env is not None or isinstance(v, Ref)and False

    def bind_args(self, fn, args, kw, h, fr):
        a = fn.node.args
        env = {}
        if any(isinstance(x, T) and x.op == 'star' for x in args) or '**' in kw:
            return None
        pos = [p.arg for p in a.posonlyargs + a.args]
        kw = dict(kw)
        if len(args) > len(pos) and a.vararg is None:
            self.raise_(h, fr, 'TypeError')
        for n, v in zip(pos, args):
            env[n] = v
        if a.vararg is not None:
            env[a.vararg.arg] = Tup(args[len(pos):])
        dn = pos[len(pos) - len(fn.defaults):]
        dd = dict(zip(dn, fn.defaults))
        for n in pos[len(args):]:
            if n in kw:
                env[n] = kw.pop(n)
            elif n in dd:
                env[n] = dd[n]
            else:
                self.raise_(h, fr, 'TypeError')
        for p, d in zip(a.kwonlyargs, fn.kwdefaults):
            if p.arg in kw:
                env[p.arg] = kw.pop(p.arg)
            elif d is not None:
                env[p.arg] = d
            else:
                self.raise_(h, fr, 'TypeError')
        if kw:
            if a.kwarg is not None:
                env[a.kwarg.arg] = self.new_dict(h.st, {C(k): v for k, v in kw.items()})
            else:
                self.raise_(h, fr, 'TypeError')
        elif a.kwarg is not None:
            env[a.kwarg.arg] = self.new_dict(h.st, {})
        return env


class Holder:
    """mutable cell carrying the current state through expression evaluation."""
    __slots__ = ('st',)

    def __init__(self, st):
        self.st = st


def _has_undef(v):
    if isinstance(v, Undef):
        return True
    if isinstance(v, Ite):
        return _has_undef(v.a) or _has_undef(v.b)
    return False


def _defined(v):
    """v where it is set."""
    if isinstance(v, Ite):
        a, b = _defined(v.a), _defined(v.b)
        return b if isinstance(a, Undef) else a if isinstance(b, Undef) else ite(v.c, a, b)
    return v


def _set_undef(v, d):
    if isinstance(v, Undef):
        return d
    if isinstance(v, Ite) and _has_undef(v):
        return ite(v.c, _set_undef(v.a, d), _set_undef(v.b, d))
    return v


def symkeys(d):
    """does the dict have keys that are not constants?"""
    return any(not isinstance(x, C) for x in d)


def _undef_f(v):
    """formula: v is unset."""
    if isinstance(v, Undef):
        return TRUE
    if isinstance(v, Ite):
        return ite(v.c, _undef_f(v.a), _undef_f(v.b))
    return FALSE


def _assigned(stmts):
    out = set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
    return out


def _names_used(s):
    return {n.id for n in ast.walk(s) if isinstance(n, ast.Name)}


def cells(v):
    if isinstance(v, Str):
        return v.cells
    if isinstance(v, C) and isinstance(v.v, str):
        return tuple(v.v)
    return None


def digit(c, F):
    v, i, n = c
    x = fdiv(v, C(10 ** (n - 1 - i)), F) if i < n - 1 else v
    return mod(x, C(10), F)


def cells_int(cs, F):
    """integer denoted by digit cells."""
    tot = C(0)
    i = 0
    n = len(cs)
    while i < n:
        c = cs[i]
        if isinstance(c, str):
            if not c.isdigit():
                return None
            tot = add(scale(tot, 10), C(int(c)))
            i += 1
            continue
        v, k, w = c
        j = i
        while j + 1 < n and not isinstance(cs[j + 1], str) and cs[j + 1][0] == v \
                and cs[j + 1][2] == w and cs[j + 1][1] == k + (j + 1 - i):
            j += 1
        ln = j - i + 1
        x = v
        if k + ln < w:
            x = fdiv(x, C(10 ** (w - k - ln)), F)
        x = mod(x, C(10 ** ln), F)
        tot = add(scale(tot, 10 ** ln), x)
        i = j + 1
    return tot


def is_strlike(v):
    return isinstance(v, Str) or isinstance(v, C) and isinstance(v.v, str) or \
        isinstance(v, T) and v.typ == 'str' or isinstance(v, S) and v.kind == 'str'


def as_tup(v, st):
    if isinstance(v, Tup):
        return v.items
    if isinstance(v, C) and isinstance(v.v, tuple):
        return tuple(C(x) for x in v.v)
    if isinstance(v, Ref):
        o = st.heap.get(v.oid)
        if o is not None and o.kind == 'inst' and isinstance(o.items, tuple):
            return o.items
    return None


def tkind(v, st):
    """coarse type tag for definite inequality."""
    if isinstance(v, C):
        if v.v is None:
            return 'none'
        if isinstance(v.v, (int, float, Fraction)):
            return 'num'
        return {'str': 'str', 'bytes': 'bytes', 'tuple': 'tuple'}.get(type(v.v).__name__)
    if isinstance(v, S):
        return {'int': 'num', 'num': 'num', 'bool': 'num', 'str': 'str', 'td': 'td'}.get(v.kind)
    if isinstance(v, (Lin,)):
        return 'num'
    if isinstance(v, Str):
        return 'str'
    if isinstance(v, Bts):
        return 'bytes'
    if isinstance(v, TD):
        return 'td'
    if isinstance(v, Tup):
        return 'tuple'
    if isinstance(v, Ref):
        o = st.heap.get(v.oid)
        return o.kind if o is not None and o.kind in ('list', 'dict', 'set') else None
    if isinstance(v, T):
        if is_numeric(v):
            return 'num'
        if v.typ == 'str':
            return 'str'
    return None
