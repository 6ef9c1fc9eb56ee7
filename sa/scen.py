"""Scenario runner: analyse a client expression against the package source."""
import ast
from .values import *
from .dom import *
from .interp import Interp, Fn, Frame, Holder, Exit, Exc, St

MODS = ['datetime']


class World:
    """the package analysed once; scenarios run on copies of its state."""

    def __init__(self, root='/repo', mods=('datetime',), prep=None, opaque=None, const=None):
        self.I = Interp(root)
        self.I.opaque.update(opaque or {})
        self.I.ext_const.update(const or {})
        self.st = self.I.base_state(list(mods))
        if prep:
            prep(self)
        self.fr = Frame(None, ('mod', mods[0]), None, mods[0], None, 0)
        self.mod = mods[0]
        self.runs = 0

    def attr(self, mod, name):
        return self.st.heap[('mod', mod)].attrs.get(name)

    def cls_set(self, cls, name, v):
        self.st.heap[('cls', cls)] = self.st.heap[('cls', cls)].setattr(name, v)

    def run(self, src, facts=None, module=None, st=None, **binds):
        """analyse `src` (function body text using names in binds and in the
        module); returns list of Exit (kind return/raise)."""
        self.runs += 1
        I = self.I
        I.steps = 0
        module = module or self.mod
        lines = '\n'.join('    ' + l for l in src.strip('\n').split('\n'))
        tree = ast.parse('def scenario(%s):\n%s\n' % (', '.join(binds), lines))
        node = tree.body[0]
        fn = Fn(node, module, None, 'scenario')
        fn.defaults, fn.kwdefaults = [], []
        st = (st or self.st).copy()
        st.facts = (facts if facts is not None else st.facts).copy()
        fr = Frame(None, ('mod', module), None, module, None, 0)
        fid = I.new_id('env')
        I.envparents[fid] = None
        st.envs[fid] = dict(binds)
        nfr = Frame(fn, fid, None, module, None, 1, fr)
        return I.block(node.body, st, nfr)

    def where(self, qual):
        """file:line of Class.method (through the bases) or module.function."""
        parts = qual.split('.')
        I = self.I
        if parts[0] in I.classes:
            for k in I.mro(parts[0]):
                if k not in I.classes:
                    continue
                mod, node = I.classes[k][0], I.classes[k][1]
                if len(parts) == 1:
                    return '%s/%s.py:%d' % (I.package, mod, node.lineno)
                for n in node.body:
                    if getattr(n, 'name', None) == parts[1]:
                        return '%s/%s.py:%d' % (I.package, mod, n.lineno)
                    if isinstance(n, ast.Assign) and any(
                            isinstance(t, ast.Name) and t.id == parts[1] for t in n.targets):
                        return '%s/%s.py:%d' % (I.package, mod, n.lineno)
            return None
        if parts[0] in I.trees and len(parts) > 1:
            for n in I.trees[parts[0]].body:
                if getattr(n, 'name', None) == parts[1]:
                    return '%s/%s.py:%d' % (I.package, parts[0], n.lineno)
        return None
