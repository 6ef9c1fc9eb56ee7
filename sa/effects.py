"""Which places of the package outlive a call and change after construction.

A field-based, flow-insensitive effect analysis of the syntax trees.  A place is
the name of an attribute, a module-level name, a table of a default argument or
the table of a cached function.  A function is a writer of a place when it stores
to it, to an item of it, or calls a method on it that changes it; writes of
constructors (and of helpers only constructors call) to their own object are
the making of it and do not count.
"""
import ast
import os

INIT = {'__init__', '__new__', '__setstate__', '__init_subclass__', '__set_name__', '__post_init__'}
MUTATORS = {'append', 'extend', 'insert', 'add', 'update', 'setdefault', 'pop', 'popitem', 'clear', 'remove', 'discard',
            'sort', 'reverse', 'appendleft', 'popleft', 'move_to_end', '__setitem__', '__delitem__', 'setattr'}
CACHES = {'cache', 'lru_cache', 'cached_property'}


class Func:
    def __init__(self, mod, owner, node, outer=None):
        self.mod, self.owner, self.node, self.name = mod, owner, node, getattr(node, 'name', '<lambda>')
        self.qual = '%s.%s' % (owner or mod, self.name)
        self.reads, self.writes, self.calls, self.sites = set(), set(), set(), {}
        self.dynamic = False
        self.shared, self.deep = set(), set()     # written on a class; written into
        self.kind = 'method'
        for d in getattr(node, 'decorator_list', ()):
            n = d.func if isinstance(d, ast.Call) else d
            n = n.attr if isinstance(n, ast.Attribute) else getattr(n, 'id', '')
            if n in CACHES:
                p = ('cache', self.qual)
                self.reads.add(p)
                self.writes.add(p)
                self.sites[p] = node.lineno
            if n in ('staticmethod', 'classmethod', 'property', 'setter'):
                self.kind = n
        if owner is None:
            self.kind = 'function'


def modules(root, package='badidatetime'):
    d = os.path.join(root, package)
    for f in sorted(os.listdir(d)):
        if f.endswith('.py'):
            yield f[:-3], ast.parse(open(os.path.join(d, f), encoding='utf-8').read())


def analyse(root):
    """-> (functions by qualified name, places that change after construction)"""
    funcs, glob = {}, {}
    trees = dict(modules(root))
    classes = {n.name for t in trees.values() for n in ast.walk(t) if isinstance(n, ast.ClassDef)}
    clsattrs = {mangle(n.name, x.id) for t in trees.values() for n in ast.walk(t) if isinstance(n, ast.ClassDef)
                for b in n.body if isinstance(b, (ast.Assign, ast.AnnAssign)) and b.value is not None
                for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    tables = {}         # names of functions listed in a table of a class or module
    for mod, tree in trees.items():
        names = set()
        for n in tree.body:
            if isinstance(n, ast.Assign):
                names |= {t.id for t in n.targets if isinstance(t, ast.Name)}
            elif isinstance(n, (ast.AnnAssign, ast.AugAssign)) and isinstance(n.target, ast.Name):
                names.add(n.target.id)
        glob[mod] = names
    for mod, tree in trees.items():
        def walk(body, owner):
            for n in body:
                if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                    used = {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)}
                    for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                        if isinstance(t, ast.Name):
                            tables.setdefault(t.id, set()).update(used)
                if isinstance(n, ast.ClassDef):
                    walk(n.body, n.name)
                elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = Func(mod, owner, n)
                    effects(f, glob[mod], classes)
                    q = f.qual
                    while q in funcs:           # property setters and overloads
                        q += "'"
                    funcs[q] = f
                elif isinstance(n, (ast.If, ast.Try, ast.With)):
                    for part in ('body', 'orelse', 'finalbody'):
                        walk(getattr(n, part, ()), owner)
        walk(tree.body, None)
    for f in funcs.values():
        for c in list(f.calls):
            f.calls |= tables.get(c, set())
    init = {q for q, f in funcs.items() if f.name in INIT}
    callers = {}
    for q, f in funcs.items():
        for c in f.calls:
            callers.setdefault(c, set()).add(q)
    while True:         # helpers that only constructors call
        more = {q for q, f in funcs.items() if q not in init and f.name.startswith('_') and
                callers.get(f.name) and callers[f.name] <= init}
        if not more:
            break
        init |= more
    own = {p[1] for q in init for p in funcs[q].writes - funcs[q].deep - funcs[q].shared if p[0] == 'attr'}
    mutable = {}
    for q, f in funcs.items():
        for p in f.writes:
            if q in init and p[0] == 'attr' and p not in f.shared and not (p in f.deep and p[1] in clsattrs and p[1] not in own):
                continue
            mutable.setdefault(p, set()).add(q)
    return funcs, mutable, init


def effects(f, globs, classes=()):
    node = f.node
    local = set()
    aliases = {}
    args = node.args
    params = args.posonlyargs + args.args + args.kwonlyargs
    for p in params:
        local.add(p.arg)
    dflt = dict(zip([p.arg for p in (args.posonlyargs + args.args)][len(args.posonlyargs + args.args) - len(args.defaults):], args.defaults))
    dflt.update({p.arg: d for p, d in zip(args.kwonlyargs, args.kw_defaults) if d is not None})
    for p, d in dflt.items():
        if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.Call, ast.ListComp, ast.DictComp)):
            aliases[p] = {('default', '%s.%s' % (f.qual, p))}
    declared = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Global):
            declared |= set(n.names)
    for n in ast.walk(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id not in declared:
            local.add(n.id)
    binds = {}

    def bind(t, v):
        if isinstance(t, ast.Name):
            binds.setdefault(t.id, []).append(v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                bind(e.value if isinstance(e, ast.Starred) else e, v if not isinstance(v, (ast.Tuple, ast.List)) or len(v.elts) != len(t.elts) else v.elts[t.elts.index(e)])
    for n in ast.walk(node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                bind(t, n.value)
        elif isinstance(n, (ast.AnnAssign, ast.NamedExpr)) and n.value is not None:
            bind(n.target, n.value)
        elif isinstance(n, (ast.For, ast.comprehension)):
            bind(n.target, n.iter)
        elif isinstance(n, ast.withitem) and n.optional_vars is not None:
            bind(n.optional_vars, n.context_expr)

    def places(e, depth=0):
        """places the value of an expression may be (part of)."""
        if depth > 6:
            return set()
        if isinstance(e, ast.Attribute):
            return {('attr', mangle(f.owner, e.attr))} | (places(e.value, depth + 1) if not isinstance(e.value, ast.Name) else set())
        if isinstance(e, (ast.Subscript, ast.Starred)):
            return places(e.value, depth + 1)
        if isinstance(e, ast.IfExp):
            return places(e.body, depth + 1) | places(e.orelse, depth + 1)
        if isinstance(e, ast.BoolOp):
            return set().union(*[places(v, depth + 1) for v in e.values])
        if isinstance(e, ast.NamedExpr):
            return places(e.value, depth + 1)
        if isinstance(e, ast.Name):
            if e.id in declared or e.id not in local and e.id in globs:
                return {('global', f.mod, e.id)}
            r = set(aliases.get(e.id, ()))
            for v in binds.get(e.id, ()):
                if not (isinstance(v, ast.Name) and v.id == e.id):
                    r |= places(v, depth + 1)
            return r
        if isinstance(e, ast.Call):
            n = e.func
            if isinstance(n, ast.Name) and n.id == 'getattr' and len(e.args) > 1 and isinstance(e.args[1], ast.Constant):
                return {('attr', str(e.args[1].value))}
            if isinstance(n, ast.Name) and n.id == 'globals':
                return {('global', f.mod, '*')}
            if isinstance(n, ast.Name) and n.id == 'vars' and e.args:
                return {('attr', '__dict__')}
            if isinstance(n, ast.Attribute) and n.attr in ('setdefault', 'get', 'pop', 'values', 'items'):
                return places(n.value, depth + 1)
        return set()

    def write(ps, line):
        for p in ps:
            f.writes.add(p)
            f.sites.setdefault(p, line)

    def new(e):
        """a name only ever bound to objects made here."""
        vs = binds.get(e.id) if isinstance(e, ast.Name) else None
        if not vs or e.id in {p.arg for p in params} or not all(isinstance(v, ast.Call) for v in vs):
            return False
        ns = [v.func.attr if isinstance(v.func, ast.Attribute) else getattr(v.func, 'id', '') for v in vs]
        return all(n in ('__new__', 'cls', '_cls') or n[:1].isupper() or n in ('date', 'time', 'datetime', 'timezone') for n in ns)

    def of_class(e):
        """an expression that is a class."""
        if isinstance(e, ast.Name):
            return e.id in ('cls', '_cls', '__class__') or e.id in classes and e.id not in local
        return isinstance(e, ast.Attribute) and e.attr == '__class__' or isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'type'

    def store(t):
        if isinstance(t, ast.Attribute) and new(t.value):
            return
        if isinstance(t, ast.Attribute):
            write({('attr', mangle(f.owner, t.attr))}, t.lineno)
            if of_class(t.value):
                f.shared.add(('attr', mangle(f.owner, t.attr)))
        elif isinstance(t, ast.Subscript):
            write(places(t.value), t.lineno)
            f.deep |= places(t.value)
        elif isinstance(t, ast.Name) and t.id in declared:
            write({('global', f.mod, t.id)}, t.lineno)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                store(x)
        elif isinstance(t, ast.Starred):
            store(t.value)
    for n in ast.walk(node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                store(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            store(n.target)
        elif isinstance(n, (ast.For,)):
            store(n.target)
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                store(t)
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            f.reads.add(('attr', mangle(f.owner, n.attr)))
            f.calls.add(n.attr)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            f.calls.add({'hash': '__hash__', 'str': '__str__', 'repr': '__repr__', 'format': '__format__', 'len': '__len__'}.get(n.id, n.id))
            if n.id not in local and n.id in globs or n.id in declared:
                f.reads.add(('global', f.mod, n.id))
            f.reads |= aliases.get(n.id, set())
        if isinstance(n, ast.Call):
            c = n.func
            if isinstance(c, ast.Attribute) and c.attr in MUTATORS:
                write(places(c.value), n.lineno)
                f.deep |= places(c.value)
            if isinstance(c, ast.Name) and c.id == 'setattr' or isinstance(c, ast.Attribute) and c.attr == '__setattr__':
                a = [x for x in n.args if isinstance(x, ast.Constant) and isinstance(x.value, str)]
                write({('attr', mangle(f.owner, a[0].value) if a else '__dict__')}, n.lineno)
            if isinstance(c, ast.Name) and c.id == 'getattr' and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                f.reads.add(('attr', str(n.args[1].value)))
            elif isinstance(c, ast.Name) and c.id == 'getattr':
                f.dynamic = True


def mangle(owner, name):
    return '_%s%s' % (owner.lstrip('_'), name) if owner and name.startswith('__') and not name.endswith('__') else name


def reach(funcs, names):
    """qualified names of functions that may be called, directly or not, from functions of the given names."""
    by = {}
    for q, f in funcs.items():
        by.setdefault(f.name, []).append(q)
    seen, todo = set(), [q for n in names for q in by.get(n, ())]
    while todo:
        q = todo.pop()
        if q in seen:
            continue
        seen.add(q)
        for c in funcs[q].calls:
            todo.extend(by.get(c, ()))
        if funcs[q].dynamic:
            todo.extend(x for x, f in funcs.items() if f.owner == funcs[q].owner)
    return seen
