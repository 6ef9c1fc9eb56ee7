"""Obligations, scenarios and reporting shared by the checks."""
import json
import os
import re
import sys
import signal
import threading
import time as _time
import traceback
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa.values import *          # noqa
from sa.dom import *             # noqa
from sa import judge             # noqa
from sa.interp import Giveup, Dead, HObj, Exc    # noqa
from sa.scen import World        # noqa

sys.setrecursionlimit(20000)
DEBUG = os.environ.get('SA_DEBUG')


class MissingAnchor(Exception):
    pass


class Obl:
    __slots__ = ('rule', 'inst', 'status', 'site', 'msg', 'witness')

    def __init__(self, rule, inst, status, site='', msg='', witness=None):
        self.rule, self.inst, self.status, self.site, self.msg, self.witness = \
            rule, inst, status, site, msg, witness

    def key(self):
        return '%s|%s' % (self.rule, self.inst)


def year_table(w):
    """the year-start table and its last day are opaque inputs of scenarios."""
    w.cls_set('BahaiCalendar', '_YEAR_START', S('YEAR_START', 'dict'))
    w.cls_set('BahaiCalendar', '_RD_END', S('RD_END', 'int'))


class Overtime(BaseException):
    pass


class Ctx:
    def __init__(self, prop, root, tier, seed):
        self.prop, self.root, self.tier, self.seed = prop, root, tier, seed
        self.obls = []
        self.tasks = []
        self.built = (None, None)
        self.worlds = []
        self.t0 = _time.time()
        self.notes = []
        self.assumptions = []
        self.rules = {}
        self.facts_ = {}
        self.explanation = ''

    @property
    def thorough(self):
        return self.tier == 'thorough'

    # ------------------------------------------------------------ plumbing
    def world(self, mods=('datetime',), prep=year_table, opaque=None, const=None):
        w = World(self.root, mods=mods, prep=prep, opaque=opaque, const=const)
        self.worlds.append(w)
        return w

    def rule(self, rid, text):
        self.rules[rid] = text

    def add(self, rule, inst, status, site='', msg='', witness=None):
        o = Obl(rule, inst, status, site or '', msg, witness)
        self.obls.append(o)
        return o

    def ok(self, rule, inst, site=''):
        return self.add(rule, inst, 'discharged', site)

    def bad(self, rule, inst, site, msg, witness=None):
        return self.add(rule, inst, 'violated', site, msg, witness)

    def unk(self, rule, inst, site='', msg=''):
        return self.add(rule, inst, 'undetermined', site, msg)

    # ----------------------------------------------------------- scenarios
    def build(self, w, setup, names, facts=None, module=None, **binds):
        """analyse the construction of the entry objects. -> (state, {name: value}) or None"""
        key = (id(w), setup, tuple(names), module, id(facts), tuple((k, id(v)) for k, v in sorted(binds.items())))
        if key != self.built[0]:
            # holding facts and binds keeps the ids of the key taken
            self.built = key, self._build(w, setup, names, facts, module, binds), facts, binds
        return self.built[1]

    def _build(self, w, setup, names, facts, module, binds):
        w.I.until = _time.time() + 100
        try:
            outs = w.run('%s\nreturn (%s,)' % (setup, ', '.join(names)), facts=facts,
                         module=module, **binds)
        except Giveup as e:
            return None
        rets = [o for o in outs if o.kind == 'return']
        if len(rets) != 1 or not isinstance(rets[0].val, Tup):
            return None
        return rets[0].st, dict(zip(names, rets[0].val.items))

    def observe(self, w, built, src, module=None, **binds):
        st, env = built
        env = dict(env)
        env.update(binds)
        return w.run(src, module=module, st=st, **env)

    def equal(self, *a, **kw):
        self.defer(self._equal, *a, **kw)

    def raises(self, *a, **kw):
        self.defer(self._raises, *a, **kw)

    def _raises(self, rule, inst, site, w, setup, names, expr, classes, facts=None, interp=None, module=None, **binds):
        """every evaluation of expr on the entry objects raises one of the classes."""
        built = self.build(w, setup, names, facts, module, **binds)
        if built is None:
            self.unk(rule, inst, site, 'entry objects not analysable')
            return
        try:
            outs = self.observe(w, built, expr if '\n' in expr or expr.startswith('return') else 'return ' + expr, module, **binds)
        except (Giveup, RecursionError):
            self.unk(rule, inst, site, 'analysis budget')
            return
        judge.Limit.until = _time.time() + 100
        judge.Clock.end = self.t0 + 600
        self.must_raise(rule, inst, site, outs, classes, built, interp)

    # scenarios are independent: they run in forked workers
    def defer(self, fn, *a, **kw):
        self.tasks.append((fn, a, kw))

    def flush(self):
        tasks, self.tasks = self.tasks, []
        if not tasks:
            return
        n = min(8, os.cpu_count() or 1, len(tasks))
        if n <= 1 or os.environ.get('SA_SERIAL'):
            for fn, a, kw in tasks:
                self.guard(fn, a, kw)
            return
        import multiprocessing
        import pickle
        ctr = multiprocessing.get_context('fork').Value('i', 0)
        sys.stdout.flush()
        import gc
        gc.collect()
        gc.freeze()
        kids = []
        for k in range(n):
            r, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                self._worker(tasks, ctr, wr)
            os.close(wr)
            kids.append((pid, r))
        got = {}
        failed = None
        for pid, r in kids:
            with os.fdopen(r, 'rb') as f:
                data = f.read()
            _, status = os.waitpid(pid, 0)
            if status or not data:
                failed = 'analysis worker ended with status %s' % status
                continue
            res, stats, err, spent = pickle.loads(data)
            if err:
                failed = err
            for i, obls in res:
                got[i] = obls
            for w, (fns, calls, runs) in zip(self.worlds, stats):
                w.I.fn_seen |= fns
                w.I.analysed_calls += calls
                w.runs += runs
        for i in sorted(got):
            for t in got[i]:
                self.obls.append(Obl(*t))
        if failed:
            raise RuntimeError(failed)

    def task_name(self, fn, a):
        i = next((k for k in (0, 1) if len(a) > k + 1 and isinstance(a[k], str) and isinstance(a[k + 1], str)), None)
        if i is not None:
            return a[i], a[i + 1], a[i + 2] if len(a) > i + 2 else ''
        return next(iter(self.rules), 'engine'), '%s%s' % (fn.__name__, [x for x in a if isinstance(x, (str, int))]), ''

    def guard(self, fn, a, kw, limit=150):
        """an analysis failure leaves the obligation undetermined."""
        def ring(*_):
            raise Overtime('analysis time')
        main = threading.current_thread() is threading.main_thread()
        arm = signal.setitimer if main else lambda *a: None
        if main:
            signal.signal(signal.SIGALRM, ring)
        try:
            try:
                arm(signal.ITIMER_REAL, limit, 2)
                fn(*a, **kw)
            finally:
                arm(signal.ITIMER_REAL, 0)
        except (Exception, RecursionError, Overtime) as e:
            arm(signal.ITIMER_REAL, 0)
            if DEBUG:
                traceback.print_exc()
            self.unk(*self.task_name(fn, a), 'analysis failed: %s %s' % (type(e).__name__, e))

    def _worker(self, tasks, ctr, wr):
        import pickle
        err, res, stats = None, [], []
        base = [(w.I.analysed_calls, w.runs) for w in self.worlds]
        try:
            while True:
                with ctr.get_lock():
                    i = ctr.value
                    ctr.value = i + 1
                if i >= len(tasks):
                    break
                self.obls = []
                fn, a, kw = tasks[i]
                t1 = _time.time()
                if _time.time() > self.t0 + 500:
                    self.unk(*self.task_name(fn, a), 'time')
                else:
                    self.guard(fn, a, kw)
                if DEBUG and _time.time() > t1 + 5:
                    print('SLOW %.1f' % (_time.time() - t1), self.task_name(fn, a), flush=True)
                res.append((i, [(o.rule, o.inst, o.status, o.site, str(o.msg), o.witness) for o in self.obls]))
            stats = [(w.I.fn_seen, w.I.analysed_calls - b[0], w.runs - b[1]) for w, b in zip(self.worlds, base)]
        except BaseException:
            err = traceback.format_exc()
        try:
            with os.fdopen(wr, 'wb') as f:
                pickle.dump((res, stats, err, 0), f)
            os._exit(0)
        finally:
            os._exit(1)

    def _equal(self, rule, inst, site, w, setup, names, pairs, pre='', allow=(), facts=None,
              interp=None, module=None, msg='', **binds):
        """each (label, observed, expected) expression pair agrees on every
        object that `setup` can build, and evaluating them raises nothing
        outside `allow`."""
        built = self.build(w, setup, names, facts, module, **binds)
        if built is None:
            for label, _, _ in pairs:
                self.unk(rule, '%s:%s' % (inst, label), site, 'entry objects not analysable')
            return
        self.judge_pairs(rule, inst, site, w, built, pairs, pre, allow, interp, module, msg, binds)

    def judge_pairs(self, rule, inst, site, w, built, pairs, pre, allow, interp, module, msg, binds):
        judge.Limit.until = w.I.until = _time.time() + 100
        judge.Clock.end = self.t0 + 600
        src = '%s\nreturn (%s,)' % (pre, ', '.join('(%s, %s)' % (o, e) for _, o, e in pairs))
        labels = [l for l, _, _ in pairs]
        why = None
        try:
            outs = self.observe(w, built, src, module, **binds)
        except Giveup:
            why = 'analysis budget'
        except RecursionError:
            why = 'analysis depth'
        if why is not None:
            for l in labels:
                self.unk(rule, '%s:%s' % (inst, l), site, why)
            return
        res = {l: ['discharged', '', None, ''] for l in labels}
        seen = 0
        raised = ['discharged', '', None, '']
        for o in outs:
            if o.kind == 'raise':
                if isinstance(o.val, Exc) and any(w.I.exc_isa(o.val.cls, a) for a in allow):
                    continue
                if judge.prove_false(o.st.pc, built[0].facts):
                    continue
                r, u = judge.inhabitant(o.st.pc, lambda e: True, [], o.st.facts, interp, self.seed)
                if r is not None:
                    # a missing private helper says nothing about behaviour
                    lost = isinstance(o.val, Exc) and str(o.val.loc).endswith('in scenario') and \
                        o.val.cls in ('AttributeError', 'NameError', 'TypeError', 'KeyError') and re.search(r'\._[a-z]', src)
                    raised = ['undetermined' if lost else 'violated', 'raises %s' % (o.val.cls if isinstance(o.val, Exc) else o.val), r,
                              o.val.loc if isinstance(o.val, Exc) else o.loc]
                elif raised[0] != 'violated':
                    raised = ['undetermined', 'raise of %s not excluded (%s)' % (o.val, u or 'no point found'), None, '']
                    if DEBUG:
                        print('UND', inst, raised[1], '\n   pc', str(o.st.pc[len(built[0].pc):])[:900])
                continue
            if not (isinstance(o.val, Tup) and len(o.val.items) == len(pairs)):
                raised = ['undetermined', 'result not a tuple', None, '']
                continue
            seen += 1
            for l, p in zip(labels, o.val.items):
                if res[l][0] == 'violated':
                    continue
                if not isinstance(p, Tup):
                    res[l] = ['undetermined', 'result not a pair', None, '']
                    continue
                a, b = deref(p.items[0], o.st), deref(p.items[1], o.st)
                if judge.prove_eq(a, b, o.st.facts):
                    continue
                fails = judge.Fails()
                judge.prove_eq(a, b, o.st.facts, None, fails)
                r, u = judge.inhabitant(o.st.pc, lambda e: differ(e, a, b), [a, b], o.st.facts, interp, self.seed,
                                        goals=fails.leaves)
                if r is not None:
                    e = judge.Ev(r, {**judge.BASE_INTERP, **(interp or {})})
                    res[l] = ['violated', 'observed %s, expected %s' % (show(e(a)), show(e(b))), r, '']
                    continue
                res[l] = ['undetermined', 'not related: %s' % (u or 'no distinguishing point'), None, '']
                if DEBUG:
                    print('UND', inst, l, res[l][1], '\n   ', str(a)[:900], '\n   ', str(b)[:900], '\n   pc', str(o.st.pc)[:900])
        if not seen and raised[0] == 'discharged':
            raised = ['undetermined', 'no outcome', None, '']
        for l, r in list(res.items()) + [('evaluates', raised)]:
            if not seen and l != 'evaluates':
                r = ['undetermined', 'no value', None, '']
            self.add(rule, '%s:%s' % (inst, l), r[0], (r[3] + ' <- ' if r[3] else '') + (site or ''),
                     ('%s: ' % msg if msg and r[0] == 'violated' else '') + r[1], r[2])

    def must_raise(self, rule, inst, site, outs, classes, built, interp=None):
        """every outcome is one of the exception classes."""
        st = 'discharged'
        for o in outs:
            if o.kind == 'raise' and isinstance(o.val, Exc):
                if o.val.cls in classes:
                    continue
                what = 'raises %s instead of %s' % (o.val.cls, '/'.join(classes))
            else:
                what = 'returns a value, %s expected' % '/'.join(classes)
            if judge.prove_false(o.st.pc, built[0].facts):
                continue
            r, u = judge.inhabitant(o.st.pc, lambda e: True, [], o.st.facts, interp, self.seed)
            if r is not None:
                self.bad(rule, inst, site, what, r)
                return
            st = 'undetermined'
        if not outs:
            st = 'undetermined'
        self.add(rule, inst, st, site, '' if st == 'discharged' else 'outcome not excluded')

    # ----------------------------------------------------------- reporting
    def finish(self):
        self.flush()
        known = load_known()
        viol = [o for o in self.obls if o.status == 'violated']
        findings, fresh = [], []
        for o in viol:
            k = known.get((self.prop, o.key()))
            (findings if k else fresh).append(o)
        n = len(self.obls)
        disc = sum(o.status == 'discharged' for o in self.obls)
        und = [o for o in self.obls if o.status == 'undetermined']
        fns = set()
        calls = 0
        runs = 0
        for w in self.worlds:
            fns |= w.I.fn_seen
            calls += w.I.analysed_calls
            runs += w.runs
        by_rule = {}
        for o in self.obls:
            d = by_rule.setdefault(o.rule, {'obligations': 0, 'discharged': 0, 'violated': 0, 'undetermined': 0})
            d['obligations'] += 1
            d[o.status] += 1
        cov = {
            'explanation': self.explanation,
            'rules': self.rules,
            'obligations': n,
            'discharged': disc,
            'undetermined': len(und),
            'undetermined_items': [{'item': o.key(), 'site': o.site, 'why': o.msg[:300]} for o in und][:60],
            'by_rule': by_rule,
            'known_findings': [o.key() for o in findings],
            'entry_scenarios': runs,
            'calls_analysed': calls,
            'functions_analysed': sorted(fns)[:400],
            'samples': [{'item': o.key(), 'site': o.site, 'status': o.status} for o in self.obls[:12]],
        }
        cov.update(self.facts_)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'other',
              'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(_time.time() - self.t0, 3), 'violations': len(fresh)}
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        path = os.path.join(HERE, 'evidence', '%s.json' % self.prop)
        with open(path, 'w') as f:
            json.dump(ev, f, indent=1, default=str, ensure_ascii=False)
        print('%s: %d obligations, %d discharged, %d undetermined, %d violated (%d known); %d functions, %d scenarios; %.1fs'
              % (self.prop, n, disc, len(und), len(viol), len(findings), len(fns), runs, ev['wall_s']))
        for r in sorted(by_rule):
            print('  rule %s: %s  %s' % (r, by_rule[r], self.rules.get(r, '')[:110]))
        for o in und[:40] if '-v' in sys.argv else und[:3]:
            print('  undetermined %s at %s: %s' % (o.key(), o.site, o.msg[:400]))
        for o in findings:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, known[(self.prop, o.key())]))
        if fresh:
            rp = os.path.join(HERE, 'evidence', '%s.violations.txt' % self.prop)
            with open(rp, 'w') as f:
                for o in fresh:
                    f.write('%s\n  rule: %s\n  at: %s\n  %s\n  witness: %s\n\n' % (
                        o.key(), self.rules.get(o.rule, o.rule), o.site, o.msg, o.witness))
            for o in fresh[:40]:
                print('  violated %s at %s: %s%s' % (o.key(), o.site, o.msg,
                      '; e.g. %s' % short(o.witness) if o.witness else ''))
            print('VIOLATION property=%s replay=%s' % (self.prop, os.path.relpath(rp, HERE)))
            return 1
        return 0


def sig(I, fn, a, kw, h, fr):
    """the arguments of a call by name, defaults included, without self."""
    env = I.bind_args(fn, a, kw, h, fr) or {}
    env.pop('self', None)
    return env


def opaque_call(op, typ=None):
    """hook: the call as a term of its bound arguments."""
    def hook(I, fn, a, kw, h, fr):
        env = sig(I, fn, a, kw, h, fr)
        t = [T('arg.' + k, simp(v, h.st.facts)) for k, v in sorted(env.items())]
        return T(op, *t, typ=typ) if typ else T(op, *t)
    return hook


def flags(env, h, *names):
    """the values of constant flags; None when one is not constant."""
    r = []
    for n in names:
        v = simp(env.get(n, C(False)), h.st.facts)
        if not isinstance(v, C):
            return None
        r.append(bool(v.v))
    return r


def bdate_tuple(pre='j'):
    """hook: a date tuple in the shape asked for by short, trim and us."""
    def hook(I, fn, a, kw, h, fr):
        env = sig(I, fn, a, kw, h, fr)
        fl = flags(env, h, 'short', 'trim', 'us')
        if fl is None or not isinstance(simp(env.get('fraction', NONE), h.st.facts), C):
            return I.top('shape of the date')
        s, n, i = S, pre, 'int'
        t = [s(n + 'y', i, -1842, 1161)] if fl[0] else [s(n + 'k', i, -4, 3), s(n + 'v', i, 1, 19), s(n + 'z', i, 1, 19)]
        t += [s(n + 'm', i, 1, 19), s(n + 'd', i, 1, 19)]
        if not fl[1]:
            t += [s(n + 'h', i, 0, 23), s(n + 'mi', i, 0, 59), s(n + 's', i, 0, 59)]
            t += [s(n + 'us', i, 0, 999999)] if fl[2] else []
        return Tup(t)
    return hook


def short(w):
    return ', '.join('%s=%s' % (k, show(v)) for k, v in sorted(w.items())) if isinstance(w, dict) else str(w)


def show(x):
    if isinstance(x, Fraction):
        return str(int(x)) if x.denominator == 1 else str(float(x))
    if isinstance(x, tuple):
        return '(' + ', '.join(map(show, x)) + ')'
    return repr(x)


def norm(x):
    if isinstance(x, bool):
        return x
    if isinstance(x, Fraction) and x.denominator == 1:
        return int(x)
    if isinstance(x, tuple):
        return tuple(norm(i) for i in x)
    return x


def differ(e, a, b):
    return norm(e(a)) != norm(e(b))


def deref(v, st, depth=0):
    """tuples and lists of values, with heap references of plain tuple-like
    instances and lists replaced by their items (for comparison only)."""
    if depth > 6:
        return v
    if isinstance(v, Tup):
        return Tup(deref(i, st, depth + 1) for i in v.items)
    if isinstance(v, Ref):
        o = st.heap.get(v.oid)
        if o is not None and o.kind == 'list' and isinstance(o.items, tuple):
            return Tup(deref(i, st, depth + 1) for i in o.items)
        if o is not None and o.kind == 'inst' and isinstance(o.items, tuple):
            return Tup(deref(i, st, depth + 1) for i in o.items)
    if isinstance(v, Ite):
        return ite(v.c, deref(v.a, st, depth + 1), deref(v.b, st, depth + 1))
    return v


def load_known():
    out = {}
    p = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for line in open(p, encoding='utf-8'):
            line = line.strip()
            if line.startswith('finding: property='):
                rest = line[len('finding: property='):]
                prop, key, text = rest.split(' ', 2)
                out[(prop, key)] = text
    return out
