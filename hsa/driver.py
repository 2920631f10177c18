'''
Compares the functions of the analysed tree with their reference models.
'''

import ast
import os
import signal
import time

from hsa import compare, effects, interp, terms as t
from hsa.program import Program

HERE = os.path.dirname(os.path.abspath(__file__))
REF_ROOT = os.path.join(os.path.dirname(HERE), 'ref')


class Budget(Exception):
    'a function took too long to analyse'


def _alarm(*_):
    raise Budget()


class Result():
    def __init__(self, qual):
        self.qual = qual
        self.verdict = 'SAME'       # SAME / DIFF / UNDET
        self.diffs = []
        self.effects = 0
        self.why = ''
        self.sides = ()
        self.loc = None


REFINE = 60         # seconds, one function
REFINE_ALL = 420    # seconds, one check


class Session():
    def __init__(self, target, ref=None, budget=40, package='hylaa'):
        self.tgt = target if isinstance(target, Program) else Program(target, package)
        self.ref = ref if isinstance(ref, Program) else Program(ref or REF_ROOT, package)
        self.eff = effects.Effects(self.ref, {})
        self.budget = budget
        self.refine_left = REFINE_ALL
        t.SOLID.update(effects.solid(self.ref))
        t.LISTS.update(effects.lists(self.ref) & effects.lists(self.tgt))
        # both hold for the code under analysis as well, or are not used
        mine = effects.fixed_length(self.tgt)
        t.FIXED_LENGTH.update({a: k for a, k in effects.fixed_length(self.ref).items() if mine.get(a) == k})
        t.MEMO.update(effects.memo_functions(self.ref) & effects.memo_functions(self.tgt))
        t.RETURNS_SOME.update(effects.never_none(self.ref) & effects.never_none(self.tgt))
        t.NONE_FIELDS.update(effects.none_fields(self.ref) & effects.none_fields(self.tgt))
        mine = effects.constructor_fields(self.tgt)
        t.CONSTRUCTOR.update({a: k for a, k in effects.constructor_fields(self.ref).items() if mine.get(a) == k})
        for p in (self.ref, self.tgt):
            for c in p.classes:
                for b in p.mro(c):
                    t.DESCENDANTS.setdefault(b, set()).add(c)
            for c in p.namedtuples:
                t.DESCENDANTS.setdefault(c, set()).add(c)
        attrs = set()
        for m in self.ref.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute):
                    attrs.add(n.attr)
        self.common = set(q for q in self.ref.funcs if q in self.tgt.funcs)
        self.sig_changed = set()
        for q in self.common:
            a = [p for p, _ in self.tgt.funcs[q].params()]
            b = [p for p, _ in self.ref.funcs[q].params()]
            if not set(b) <= set(a) and len(a) != len(b):
                self.sig_changed.add(q)
        self.vocab = {'attrs': attrs, 'funcs': set(self.ref.funcs), 'effects': self.eff}
        self.known = self.common - self.sig_changed
        self.cache = {}
        self.trace = None       # prints the first interpretation that tells two summaries apart

    # ------------------------------------------------------------------

    def summary(self, side, qual, inline=frozenset()):
        key = (side, qual, inline)
        if key in self.cache:
            r = self.cache[key]
            if isinstance(r, Exception):
                raise r
            return r
        prog = self.tgt if side == 'tgt' else self.ref
        f = prog.funcs[qual]
        args = None
        if side == 'tgt':
            args = self.param_map(qual)
        try:
            it = interp.Interp(prog, known=self.known - inline, effects=self.eff, sigs=self.ref.funcs)
            s = it.run(f, args)
        except (interp.Unsupported, RecursionError) as e:
            self.cache[key] = e if isinstance(e, interp.Unsupported) else interp.Unsupported('recursion')
            raise self.cache[key]
        self.cache[key] = s
        return s

    def param_map(self, qual):
        'bind the parameters of the analysed function to those of the reference'
        f, r = self.tgt.funcs[qual], self.ref.funcs[qual]
        a = [p for p, _ in f.params()]
        b = [p for p, _ in r.params()]
        if a == b:
            return None
        m = {}
        if set(b) <= set(a):
            it = interp.Interp(self.tgt, known=self.known, effects=self.eff)
            for nm, d in f.params():
                if nm in b:
                    m[nm] = t.param(nm)
                elif d is not None:
                    it.stack.append(f)
                    m[nm] = it.eval(d, interp.State({}, {}))
                    it.stack.pop()
        elif len(a) == len(b):
            for x, y in zip(a, b):
                m[x] = t.param(y)
        return m

    def default_diffs(self, qual):
        'parameters whose default value changed'
        f, r = self.tgt.funcs[qual], self.ref.funcs[qual]
        a, b = f.params(), r.params()
        if [p for p, _ in a] != [p for p, _ in b]:
            if not set(p for p, _ in b) <= set(p for p, _ in a):
                if len(a) != len(b):
                    return []
                a = [(y, d) for (x, d), (y, _) in zip(a, b)]
        da = dict(a)
        out = []
        for nm, d in b:
            e = da.get(nm)
            if d is None and e is None:
                continue
            if d is None or e is None:
                if d is not None:
                    out.append('parameter %r lost its default value' % nm)
                continue
            va, vb = self.const(self.tgt, f, e), self.const(self.ref, r, d)
            if va is not vb and va.op in ('num', 'str', 'bool', 'none') and vb.op in ('num', 'str', 'bool', 'none'):
                out.append('parameter %r defaults to %s instead of %s' % (nm, t.show(va), t.show(vb)))
        return out

    def const(self, prog, f, node):
        it = interp.Interp(prog, known=self.known, effects=self.eff)
        it.stack.append(f)
        st = interp.State({}, {})
        try:
            return it.resolve(it.eval(node, st), st.heap)
        except interp.Unsupported:
            return t.mk('opaque', 'default')

    # ------------------------------------------------------------------

    def check(self, qual, opts=None):
        r = self.check_with(qual, opts)
        inline = frozenset()
        for find in (self.only_one_side_calls, self.different_calls):
            # the two sides reach their effects through different functions: look inside those
            more = find(r, qual) if r.verdict == 'DIFF' else frozenset()
            if not more - inline:
                continue
            inline |= more
            r2 = self.check_with(qual, opts, inline)
            if r2.verdict == 'SAME' or r2.diffs and all(d.agreed for d in r2.diffs):
                return r2
            if r2.verdict != 'DIFF':
                break
        return r

    def only_one_side_calls(self, r, qual):
        if not r.sides:
            return frozenset()
        a, b = [{e.name for e in s.events if e.kind == 'call'} | {x.args[0] for x in called(s)} for s in r.sides]
        return frozenset(q for q in a ^ b if q in self.known and q != qual)

    def different_calls(self, r, qual):
        'functions that both sides call, but not for the same things'
        a, b = set(), set()
        for d in r.diffs:
            for o, out in ((d.obs, a), (d.other, b)):
                if o is not None and d.verdict == 'DIFF':
                    out |= {y for x in compare.obs_terms(o) for y in t.subterms(x, set()) if y.op == 'call'}
        return frozenset(x.args[0] for x in a ^ b if x.args[0] in self.known and x.args[0] != qual)

    def check_with(self, qual, opts=None, inline=frozenset()):
        o = {'field': lambda f: True, 'event': lambda n: True}
        o.update(opts or {})
        r = Result(qual)
        if qual not in self.ref.funcs:
            raise KeyError('no reference model for ' + qual)
        if qual not in self.tgt.funcs:
            r.verdict = 'UNDET'
            r.why = 'the analysed tree has no function of this name (its callers are analysed with the reference body)'
            return r
        if qual in self.sig_changed:
            r.verdict = 'UNDET'
            r.why = 'signature changed (it is analysed in its callers)'
            return r
        f, g = self.tgt.funcs[qual], self.ref.funcs[qual]
        r.loc = (f.module.path, f.node.lineno, qual)
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, self.budget)
        try:
            a = self.summary('tgt', qual, inline)
            b = self.summary('ref', qual, inline)
            r.sides = (a, b)
            r.diffs, r.effects = compare.compare(a, b, f, g, o, self.vocab)
        except Budget:
            r.verdict, r.why = 'UNDET', 'analysis budget exceeded'
        except (interp.Unsupported, RecursionError) as e:
            r.verdict, r.why = 'UNDET', 'construct outside the analysed fragment: %s' % e
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
        self.refine(r, f, g, o)
        if any(d.verdict == 'DIFF' for d in r.diffs) and max(coupled(a), coupled(b)) > 4:
            # too many mutually dependent loop variables for their order to be canonical
            for d in r.diffs:
                if d.verdict == 'DIFF' and not d.witness and any(t.contains_op(x, ('mu',)) for o in (d.obs, d.other) if o is not None
                                               for x in list(o.args) + [o.guard]):
                    d.verdict = 'UNDET'
        for d in r.diffs:
            if d.verdict == 'DIFF':
                r.verdict = 'DIFF'
            elif r.verdict == 'SAME':
                r.verdict = 'UNDET'
        for m in self.default_diffs(qual) if o.get('defaults', True) else ():
            r.diffs.append(compare.Diff('DIFF', m, r.loc))
            r.verdict = 'DIFF'
        return r

    def refine(self, r, f, g, opts):
        'withdraw the differences that no small interpretation of the symbols confirms'
        if not any(d.verdict == 'DIFF' for d in r.diffs):
            return
        limit = min(REFINE, self.refine_left)
        if limit <= 0:
            return
        began = time.monotonic()
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, limit + 10)
        try:
            compare.refine(r.diffs, r.sides[0], r.sides[1], f, g, opts, limit, self.trace)
        except (Budget, RecursionError):
            pass
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
            self.refine_left -= time.monotonic() - began


def called(s):
    'the function results that occur in a summary'
    seen, out = set(), set()
    for x in [y for e in s.events for y in list(e.args) + [e.guard]] + list(s.heap.values()) + \
            [y for r in s.returns for y in r]:
        if isinstance(x, t.T):
            out |= {y for y in t.subterms(x, seen) if y.op == 'call'}
    return out


def coupled(s):
    'number of different systems of mutually dependent loop variables in a summary'
    seen, out = set(), set()
    for x in [y for e in s.events for y in list(e.args) + [e.guard]] + list(s.heap.values()) + \
            [y for r in s.returns for y in r]:
        if isinstance(x, t.T):
            out |= {y for y in t.subterms(x, seen) if y.op == 'mu'}
    return len(out)
