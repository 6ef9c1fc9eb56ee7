"""Matching of constant regular expressions against texts of known length with
symbolic digit cells: every way the (backtracking, prioritised) matcher can go,
with the exact set of values of each number that goes that way."""
import re
import re._constants as sc
import re._parser as sp
from .values import *
from .dom import *

LIMIT = 4000
SPAN = 20000


class Unsupported(Exception):
    pass


def _in_class(items, ch, ic):
    neg_ = False
    hit = False
    chs = {ch, ch.lower(), ch.upper()} if ic else {ch}
    for op, av in items:
        if op is sc.NEGATE:
            neg_ = True
        elif op is sc.LITERAL:
            hit |= chr(av) in chs
        elif op is sc.RANGE:
            hit |= any(len(c) == 1 and av[0] <= ord(c) <= av[1] for c in chs)
        elif op is sc.CATEGORY:
            hit |= _cat(av, ch)
        else:
            raise Unsupported(op)
    return hit != neg_


def _cat(av, ch):
    if av is sc.CATEGORY_DIGIT:
        return ch.isdecimal()
    if av is sc.CATEGORY_NOT_DIGIT:
        return not ch.isdecimal()
    if av is sc.CATEGORY_SPACE:
        return ch.isspace()
    if av is sc.CATEGORY_NOT_SPACE:
        return not ch.isspace()
    if av is sc.CATEGORY_WORD:
        return ch.isalnum() or ch == '_'
    if av is sc.CATEGORY_NOT_WORD:
        return not (ch.isalnum() or ch == '_')
    raise Unsupported(av)


def _accepts(node, ch, ic):
    op, av = node
    if op is sc.LITERAL:
        return chr(av) == ch or ic and chr(av).lower() == ch.lower()
    if op is sc.NOT_LITERAL:
        return not (chr(av) == ch or ic and chr(av).lower() == ch.lower())
    if op is sc.ANY:
        return ch != '\n'
    if op is sc.IN:
        return _in_class(av, ch, ic)
    raise Unsupported(op)


class Matcher:
    def __init__(self, pattern, flags, cs, F, full=False):
        self.cs, self.F, self.full = cs, F, full
        self.tree = sp.parse(pattern, int(flags))
        self.names = {n: g for n, g in self.tree.state.groupdict.items()}
        self.ic = bool(self.tree.state.flags & re.IGNORECASE)
        self.n = 0
        self.vals = {}
        for c in cs:
            if not isinstance(c, str):
                lo, hi = rng(c[0], F)
                if lo is None or hi is None:
                    raise Unsupported('range')
                hi = min(hi, 10 ** c[2] - 1)
                self.vals[c[0]] = (max(int(lo), 0), int(hi), c[2])

    def outcomes(self):
        """prioritised [(constraints {value: frozenset or None}, end, groups)]"""
        out = []
        for cons, end, groups in self.seq(list(self.tree), 0, {}, {}, self.ic):
            if self.full and end != len(self.cs):
                continue
            out.append((cons, end, groups))
            if not cons:
                break
            if len(out) > LIMIT:
                raise Unsupported('paths')
        return self.merge(out)

    def merge(self, out):
        """fewer boxes: neighbours with one outcome are joined when they differ
        in one number, boxes behind a box that covers them are dropped."""
        changed = True
        while changed:
            changed = False
            res = []
            for o in out:
                if any(self.within(o[0], x[0]) for x in res):
                    changed = True
                    continue
                if res and res[-1][1:] == o[1:]:
                    c = self.join(res[-1][0], o[0])
                    if c is not None:
                        res[-1] = (c, o[1], o[2])
                        changed = True
                        continue
                res.append(o)
            out = res
        return out

    def within(self, a, b):
        return all(k in a and a[k] <= s for k, s in b.items())

    def join(self, a, b):
        d = [k for k in set(a) | set(b) if a.get(k) != b.get(k)]
        if len(d) > 1:
            return None
        c = dict(a)
        for k in d:
            s = a[k] | b[k] if k in a and k in b else ()
            if not s or len(s) == self.size(k):
                c.pop(k, None)
            else:
                c[k] = s
        return c

    def size(self, k):
        lo, hi, _ = self.vals[k]
        return hi - lo + 1

    def char(self, node, pos, cons, ic):
        """constraints after the text character at pos matched node, or None."""
        self.n += 1
        if self.n > 400000:
            raise Unsupported('steps')
        c = self.cs[pos]
        if isinstance(c, str):
            return cons if _accepts(node, c, ic) else None
        ok = {d for d in '0123456789' if _accepts(node, d, ic)}
        if len(ok) == 10:
            return cons
        if not ok:
            return None
        v, i, n = c
        lo, hi, _ = self.vals[v]
        cur = cons.get(v)
        if cur is None:
            if hi - lo > SPAN:
                raise Unsupported('span')
            cur = range(lo, hi + 1)
        p = 10 ** (n - 1 - i)
        new = frozenset(x for x in cur if str(x // p % 10) in ok)
        if not new:
            return None
        if len(new) == hi - lo + 1:
            return cons
        r = dict(cons)
        r[v] = new
        return r

    def seq(self, nodes, pos, cons, groups, ic):
        if not nodes:
            yield cons, pos, groups
            return
        (op, av), rest = nodes[0], nodes[1:]
        if op in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN):
            if pos < len(self.cs):
                c = self.char((op, av), pos, cons, ic)
                if c is not None:
                    yield from self.seq(rest, pos + 1, c, groups, ic)
        elif op is sc.BRANCH:
            for alt in av[1]:
                for c, p, g in self.seq(list(alt), pos, cons, groups, ic):
                    yield from self.seq(rest, p, c, g, ic)
        elif op is sc.SUBPATTERN:
            num, add_, del_, sub_ = av
            ic2 = (ic or bool(add_ & re.IGNORECASE)) and not del_ & re.IGNORECASE
            for c, p, g in self.seq(list(sub_), pos, cons, groups, ic2):
                if num is not None:
                    g = dict(g)
                    g[num] = (pos, p)
                yield from self.seq(rest, p, c, g, ic)
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub_ = av
            for c, p, g in self.rep(list(sub_), lo, hi, op is sc.MAX_REPEAT, pos, cons, groups, ic, 0):
                yield from self.seq(rest, p, c, g, ic)
        elif op is sc.AT:
            if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
                ok = pos == 0
            elif av is sc.AT_END_STRING:
                ok = pos == len(self.cs)
            elif av is sc.AT_END:
                ok = pos == len(self.cs) or pos == len(self.cs) - 1 and self.cs[pos] == '\n'
            else:
                raise Unsupported(av)
            if ok:
                yield from self.seq(rest, pos, cons, groups, ic)
        else:
            raise Unsupported(op)

    def rep(self, sub_, lo, hi, greedy, pos, cons, groups, ic, k):
        def more():
            if hi is sc.MAXREPEAT or k < hi:
                for c, p, g in self.seq(sub_, pos, cons, groups, ic):
                    if p == pos and k >= lo:
                        continue
                    yield from self.rep(sub_, lo, hi, greedy, p, c, g, ic, k + 1)
        if k < lo:
            yield from more()
        elif greedy:
            yield from more()
            yield cons, pos, groups
        else:
            yield cons, pos, groups
            yield from more()


def member(v, s, lo, hi):
    """condition: the integer v (in lo..hi) is in the set s."""
    xs = sorted(s)
    parts = []
    i = 0
    while i < len(xs):
        j = i
        while j + 1 < len(xs) and xs[j + 1] == xs[j] + 1:
            j += 1
        cs = []
        if xs[i] > lo:
            cs.append(le0(sub(C(xs[i]), v)))
        if xs[j] < hi:
            cs.append(le0(sub(v, C(xs[j]))))
        parts.append(conj(*cs) if cs else TRUE)
        i = j + 1
        if len(parts) > 60:
            raise Unsupported('intervals')
    return disj(*parts)


def match(pattern, flags, cs, F, name='match'):
    """-> V: T('mo', ...) gated by conditions, or None"""
    if name not in ('match', 'fullmatch'):
        raise Unsupported(name)
    m = Matcher(pattern, flags, cs, F, name == 'fullmatch')
    out = m.outcomes()
    r = NONE
    for cons, end, groups in reversed(out):
        items = []
        for i in range(1, m.tree.state.groups):
            nm = next((n for n, g in m.names.items() if g == i), None)
            items.append(Tup([C(i), C(nm), mkstr(cs[groups[i][0]:groups[i][1]]) if i in groups else NONE]))
        mo = T('mo', C(end), Tup(items), mkstr(cs[:end]))
        cond = conj(*[member(v, s, m.vals[v][0], m.vals[v][1]) for v, s in cons.items()]) if cons else TRUE
        r = ite(cond, mo, r)
    return r
