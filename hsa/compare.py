'''
Decides whether the value graph of a function has the same observable effects as its reference model.

Both summaries are flattened to guarded effects (calls, field updates, raises, returned values); gated terms inside effect
arguments are lifted into the guards; effects that agree on everything but the guard are merged, and the merged guards are
compared as propositional formulas over sign / identity atoms (truth table, with mutually exclusive atoms respected).
The verdict is three-valued: SAME, DIFFERENT (both sides are fully inside the modelled vocabulary), or UNDETERMINED.
'''

import itertools
import time

from hsa import ground
from hsa import terms as t
from hsa.effects import solver_access
from hsa.boolform import atoms_of, groups, evalg
from hsa.terms import T, mk, TRUE, FALSE, NONE, band, bor, bnot, ite

MAX_LIFT = 7
MAX_ATOMS = 12


class Obs():
    __slots__ = ('kind', 'name', 'args', 'loops', 'guard', 'loc', 'order', 'cut', 'sites')

    def __init__(self, kind, name, args, loops, guard, loc, order=0):
        self.kind = kind
        self.name = name
        self.args = args
        self.loops = loops
        self.guard = guard
        self.loc = loc
        self.order = order
        self.cut = False        # gates were left inside the arguments
        self.sites = ((order, guard),)

    @property
    def key(self):
        return (self.kind, self.name, self.args, self.loops)

    def text(self):
        ls = ''.join('for %s < %s%s: ' % (t.show(mk('idx', ('L', k))), t.show(c), '' if b is FALSE else
                                          ' until ' + t.show(b)) for k, (c, b) in enumerate(self.loops))
        g = '' if self.guard is TRUE else 'when %s: ' % t.show(self.guard)
        if self.kind == 'return':
            body = 'return %s' % t.show(self.args[0])
        elif self.kind == 'field':
            body = '%s.%s := %s' % (t.show(self.args[0]), self.name, t.show(self.args[1]))
        elif self.kind == 'raise':
            body = 'raise %s' % self.name
        elif self.kind == 'fails':
            body = 'assertion failure'
        else:
            body = '%s(%s)' % (self.name, ', '.join(t.show(a) for a in self.args))
        return ls + g + body


class Diff():
    def __init__(self, verdict, msg, loc, obs=None, other=None):
        self.verdict = verdict      # 'DIFF' or 'UNDET'
        self.msg = msg
        self.loc = loc
        self.obs = obs
        self.other = other
        self.witness = False        # a bounded interpretation tells the two apart
        self.agreed = False         # equal in every bounded interpretation


def default_field(base, name):
    if name == '#':
        return base
    if name in ('#nrows', '#ncols'):
        return t.attr(base, name)
    return t.attr(base, name)


def observables(s, func, opts):
    '''flatten a summary.  opts: events (predicate or None), fields (predicate), ret (bool), asserts (bool)'''
    out = []
    loc = (func.module.path, func.node.lineno, func.qual)
    for n, e in enumerate(s.events):
        if e.kind == 'assert' or e.kind == 'raise' and e.name == 'AssertionError':
            # "fails when": an assertion and a guarded raise AssertionError are the same effect
            if not opts.get('asserts', True):
                continue
            g = band(e.guard, bnot(e.args[0])) if e.kind == 'assert' else e.guard
            loops = list(e.loops)
            while loops and loops[-1].brk is FALSE and t.is_scalar(loops[-1].count) and\
                    not any(x.op == 'sym' for x in t.subterms(loops[-1].count)):
                l = loops.pop()
                g = t.exists(l.idx, l.count, g)
            out.append(Obs('fails', 'assert', (), loops, g, e.loc, n))
            continue
        elif e.kind == 'raise':
            if not opts.get('raises', True):
                continue
        elif e.kind == 'set':
            base, fname, v = e.args
            nm = fname.args[0]
            if nm == '#':
                # content of a list valued field
                if base.op == 'attr':
                    nm, b2 = base.args[1], base.args[0]
                    if not opts['field'](nm):
                        continue
                    out.append(Obs('field', nm, (b2, v), e.loops, e.guard, e.loc, n))
                    continue
            if nm in ('#nrows', '#ncols', '#dir') or not opts['field'](nm):
                continue
            out.append(Obs('field', nm, (base, v), e.loops, e.guard, e.loc, n))
            continue
        elif not opts['event'](e.name):
            continue
        args = e.args
        if opts.get('pre', True):
            for b, f, v in e.pre:
                if opts['field'](f if f != '#' else b.args[1]):
                    args = args + (mk('pre', t.strc(f), b, v),)
        out.append(Obs(e.kind, e.name, args, e.loops, e.guard, e.loc, n))
    if opts.get('ret', True):
        for g, v in s.returns:
            out.append(Obs('return', 'return', (v,), (), g, loc, 10 ** 6))
    heap = {}
    for (b, f), v in s.heap.items():
        if f == '#':
            if b.op == 'attr':
                key = (b.args[0], b.args[1])
                if key in s.heap:
                    continue
                heap[key] = v
                continue
            if b.op == 'param':
                heap[(b, '#')] = v
                continue
            heap[(b, '#')] = v
            continue
        heap[(b, f)] = v
    normal = t.FALSE
    for g, _ in s.returns:
        normal = t.bor(normal, g)
    for (b, f), v in heap.items():
        if isinstance(f, tuple):
            nm = '[]'
            b = default_field(b, '#')
        else:
            nm = f
        if nm in ('#nrows', '#ncols', '#dir') or not opts['field'](nm):
            continue
        if opts.get('base') is not None and not opts['base'](b):
            continue
        # how fields end up on a path that raises does not matter
        g = normal if has_ite(v) and normal is not t.FALSE and not t.contains_op(normal, ('exists', 'first', 'opaque')) \
            else TRUE
        out.append(Obs('field', nm, (b, v), (), g, loc, 10 ** 6 + 1))
    return out


# ---------------------------------------------------------------- lifting gated terms

def find_gate(x, bound=frozenset(), memo=None):
    'condition of an ite inside x that does not depend on a variable bound inside x'
    if x.op in ('ite', 'condseg'):
        c = x.args[0]
        if not (t.free(c) & bound):
            return c
        if c.op in ('and', 'or', 'not'):
            # a conjunct that does not depend on the bound variables
            a = free_atom(c, bound)
            if a is not None:
                return a
    if x.op in ('exists',):
        return None
    bs = t.binder_of(x)
    b2 = bound | frozenset(bs) if bs else bound
    for c in t.children(x):
        if c.op in ('num', 'str', 'param', 'idx', 'sym', 'bool', 'none'):
            continue
        if not has_ite(c):
            continue
        g = find_gate(c, b2)
        if g is not None:
            return g
    return None


def free_atom(c, bound):
    if c.op in ('and', 'or', 'not'):
        for x in c.args:
            a = free_atom(x, bound)
            if a is not None:
                return a
        return None
    return c if c.op != 'bool' and not (t.free(c) & bound) else None


_ite_memo = {}


def has_ite(x):
    r = _ite_memo.get(x)
    if r is None:
        r = x.op in ('ite', 'condseg') or any(has_ite(c) for c in t.children(x))
        _ite_memo[x] = r
    return r


def assume(x, c, val):
    'simplify x under the assumption that condition c is val (TRUE/FALSE)'
    m = {}
    todo = [(c, val)]
    while todo:
        k, v = todo.pop()
        if k.op == 'bool':
            continue
        m[k] = v
        nk = bnot(k)
        if nk.op != 'bool':
            m[nk] = bnot(v)
        if k.op == 'and' and v is TRUE:
            todo.extend((a, TRUE) for a in k.args)
        if k.op == 'or' and v is FALSE:
            todo.extend((a, FALSE) for a in k.args)
        if k.op == 'not':
            todo.append((k.args[0], bnot(v)))
        if k.op == 'isnone' and v is TRUE:
            m[k.args[0]] = NONE
        if k.op == 'isnone' and v is FALSE:
            pass
        if k.op == 'eq' and v is TRUE and k.args[0].op in t.DISTINCT_CONST:
            m[k.args[1]] = k.args[0]
        elif k.op == 'eq' and v is TRUE and k.args[1].op in t.DISTINCT_CONST:
            m[k.args[0]] = k.args[1]
        if k.op == 'sgn' and v is TRUE and len(k.args[1]) == 1:
            # a known sign decides every weaker condition on the same polynomial
            p, mask = k.args
            for other in ({-1}, {0}, {1}, {-1, 0}, {0, 1}, {-1, 1}):
                o = frozenset(other)
                m[mk('sgn', p, o)] = t.boolc(bool(mask <= o))
    return t.subst(x, m)


def lift(obs, out, depth=0):
    'split an observable on the gates inside its arguments'
    if obs.guard is FALSE:
        return
    gate = None
    for a in obs.args:
        if has_ite(a):
            gate = find_gate(a)
            if gate is not None:
                break
    if gate is None:
        for c, b in obs.loops:
            if has_ite(c):
                gate = find_gate(c)
            if gate is None and has_ite(b):
                gate = find_gate(b)
            if gate is not None:
                break
    if gate is None or depth >= MAX_LIFT:
        obs.cut = gate is not None
        out.append(obs)
        return
    # split on the atoms of the gate
    atom = first_atom(gate)
    for v in (TRUE, FALSE):
        g = band(obs.guard, atom if v is TRUE else bnot(atom))
        if g is FALSE:
            continue
        o = Obs(obs.kind, obs.name, tuple(assume(a, atom, v) for a in obs.args),
                tuple((assume(c, atom, v), assume(b, atom, v)) for c, b in obs.loops),
                g, obs.loc, obs.order)
        lift(o, out, depth + 1)


def lift_guard(g, depth=0):
    'move gated terms inside the atoms of a formula to the formula level'
    if g.op in ('and', 'or', 'not'):
        new = [lift_guard(a, depth) for a in g.args]
        if all(x is y for x, y in zip(new, g.args)):
            return g
        return t.rebuild(g.op, tuple(new))
    if g.op == 'ite':
        c, a, b = [lift_guard(x, depth) for x in g.args]
        return bor(band(c, a), band(bnot(c), b))
    if g.op == 'bool' or not has_ite(g) or depth > 6:
        return g
    gate = find_gate(g)
    if gate is None:
        return g
    atom = first_atom(gate)
    a = lift_guard(t.truthy(assume(g, atom, TRUE)), depth + 1)
    b = lift_guard(t.truthy(assume(g, atom, FALSE)), depth + 1)
    if a is b:
        return a
    return bor(band(atom, a), band(bnot(atom), b))


def first_atom(g):
    while g.op in ('and', 'or', 'not'):
        g = g.args[0]
    return g


def simplify_by_guard(o):
    'use the conjuncts of the guard to simplify the arguments'
    g = o.guard
    lits = list(g.args) if g.op == 'and' else [g]
    args, loops = o.args, o.loops
    for l in lits:
        if l is TRUE or l.op in ('or', 'bool', 'ite', 'exists'):
            continue
        args = tuple(assume(a, l, TRUE) for a in args)
        loops = tuple((assume(c, l, TRUE), assume(b, l, TRUE)) for c, b in loops)
    return Obs(o.kind, o.name, args, loops, g, o.loc, o.order)


def normalise(obs_list, facts):
    'canonical loop indices, facts applied, gates lifted'
    out = []
    for o in obs_list:
        m = {}
        loops = []
        for k, l in enumerate(o.loops):
            loops.append((t.subst(l.count, m), None))
            m[l.idx] = mk('idx', ('L', k))
            loops[-1] = (loops[-1][0], t.subst(l.brk, m))
        args = tuple(t.subst(a, m) for a in o.args)
        guard = t.subst(o.guard, m)
        if facts and o.kind != 'fails':
            args = tuple(apply_facts(a, facts) for a in args)
            guard = apply_facts(guard, facts)
            loops = [(apply_facts(c, facts), apply_facts(b, facts)) for c, b in loops]
        args = tuple(t.canon(a) for a in args)
        guard = lift_guard(t.canon(guard))
        loops = [(t.canon(c), lift_guard(t.canon(b))) for c, b in loops]
        if any(c is t.ZERO for c, _ in loops):
            continue        # a loop over nothing
        o2 = Obs(o.kind, o.name, args, tuple(loops), guard, o.loc, o.order)
        lst = []
        lift(o2, lst)
        for x in lst:
            cut = x.cut
            x = simplify_by_guard(x)
            if x.kind == 'field' and unchanged(x):
                continue
            x = Obs(x.kind, x.name, tuple(post(t.canon(a)) for a in x.args),
                    tuple((post(t.canon(c)), post(t.canon(b))) for c, b in x.loops), post(t.canon(x.guard)),
                    x.loc, x.order)
            x.cut = cut
            if any(c is t.ZERO for c, _ in x.loops):
                continue
            out.append(x)
    return out


def post(x):
    return x


def unchanged(o):
    base, v = o.args
    if v is default_field(base, o.name) or v is base and o.name == '#':
        return True
    # what a called method left there
    return v.op == 'post' and v.args[0] is base and v.args[1] == o.name


def collect_facts(s):
    'unconditional assertions of a summary: equalities become rewrites, other atoms become true'
    rewrites = {}
    for e in s.events:
        if e.kind != 'assert' or e.loops or e.guard is not TRUE:
            continue
        cs = e.args[0].args if e.args[0].op == 'and' else (e.args[0],)
        for c in cs:
            if c.op == 'sgn' and c.args[1] == frozenset({0}):
                p = c.args[0]
                items = t._poly_items(p)
                done = False
                for m, k in sorted(items, key=lambda mc: -len(t.show(mc[0][0])) if mc[0] else 0):
                    if len(m) == 1 and abs(k) == 1 and m[0] not in rewrites:
                        rest = t.mkpoly([(mm, -kk * k) for mm, kk in items if mm != m])
                        if m[0] in set(t.subterms(rest)):
                            continue
                        rewrites[m[0]] = rest
                        done = True
                        break
                if done:
                    continue
            if c.op == 'eq':
                x, y = c.args
                if len(t.show(x)) < len(t.show(y)):
                    x, y = y, x
                rewrites.setdefault(x, y)
                continue
            rewrites[c] = TRUE
            n = bnot(c)
            if n.op != 'bool':
                rewrites[n] = FALSE
            if c.op == 'truthy':
                rewrites[mk('isnone', c.args[0])] = FALSE
    return rewrites


def apply_facts(x, facts):
    for _ in range(3):
        y = t.subst(x, facts)
        if y is x:
            return x
        x = y
    return x


# ---------------------------------------------------------------- guards

def equiv(g1, g2, facts=None):
    '''True / False / None (too large)'''
    if g1 is g2:
        return True
    atoms = set()
    atoms_of(g1, atoms)
    atoms_of(g2, atoms)
    gr = groups(sorted(atoms, key=lambda a: a.uid))
    n = 1
    for a in gr:
        n *= len(a)
        if n > 20000:
            return None
    for combo in itertools.product(*gr):
        env = {}
        for d in combo:
            env.update(d)
        if evalg(g1, env) != evalg(g2, env):
            return False
    return True


def satisfiable(g):
    return equiv(g, FALSE) is not True


# ---------------------------------------------------------------- vocabulary

BASE_CALLS = {'dot', 'identity', 'csrzeros', 'np.zeros', 'np.inf', 'abs', 'min', 'max', 'len', 'range', 'csc', 'hstack',
              'column', 'cols', 'setslice', 'sorted', 'pow', 'mod', 'floordiv', 'int', 'sum', 'round', 'any', 'all',
              '.items', '.values', '.keys', '.get', 'getattr', 'set', 'dict', 'is', 'is_', 'format', '.replace', '.lower', '.upper', '.startswith',
              '.endswith', '.index'}
NONRIGID_OPS = {'opaque', 'closure', 'ref', 'undef'}


class Vocab():
    def __init__(self, attrs, calls):
        self.attrs = attrs
        self.calls = calls

    def rigid(self, x, params):
        memo = {}
        if any(v.op == 'phi' for v in t.free(x)):
            return False

        def go(y):
            if y in memo:
                return memo[y]
            op = y.op
            ok = True
            if op in NONRIGID_OPS:
                ok = False
            elif op in ('call', 'res', 'boolcall'):
                ok = y.args[0] in self.calls or y.args[0] in BASE_CALLS
            elif op == 'attr':
                ok = y.args[1] in self.attrs or y.args[1].startswith('#')
            elif op == 'sym':
                ok = not str(y.args[0]).startswith('name:')
            elif op == 'param':
                ok = params is None or y.args[0] in params
            if ok:
                ok = all(go(c) for c in t.children(y))
            memo[y] = ok
            return ok
        return go(x)


SEQUENCES = set()       # parameters of the compared functions that are iterated over


def sequence_params(obs):
    out = set()
    for o in obs:
        for x in obs_terms(o):
            for y in t.subterms(x):
                if y.op == 'len' and y.args[0].op == 'param':
                    out.add(y.args[0])
    return out


def relax(x, memo=None):
    'coarser normal form: two terms that may denote the same value in practice are identified'
    if memo is None:
        memo = {}
    if x in memo:
        return memo[x]
    op = x.op
    if op == 'post':
        r = relax(t.attr(x.args[0], x.args[1]) if isinstance(x.args[1], str) and x.args[1] != '#' else x.args[0], memo)
    elif op == 'truthy':
        # for a sequence passed by a caller, being empty and being absent are different things
        r = mk('truthy', x.args[0]) if x.args[0] in SEQUENCES else bnot(t.isnone(relax(x.args[0], memo)))
    elif op == 'pre':
        r = mk('pre')
    elif op == 'res' and len(x.args) > 1 and isinstance(x.args[-1], T) and x.args[-1].op == 'num':
        r = mk('res', *[relax(a, memo) if isinstance(a, T) else a for a in x.args[:-1]])
    elif op == 'sgn':
        r = mk('sgn', relax(x.args[0], memo), x.args[1])
    elif op == 'poly':
        items = []
        for m, c in x.args:
            items.append((tuple(sorted((relax(a, memo) for a in m), key=lambda q: q.uid)), c))
        r = mk('poly', *sorted(items, key=lambda mc: (tuple(a.uid for a in mc[0]), mc[1])))
    elif op == 'call' and x.args[0] == 'csc':
        r = relax(x.args[1], memo)
    else:
        new = tuple(relax(a, memo) if isinstance(a, T) else a for a in x.args)
        r = mk(op, *new)
    memo[x] = r
    return r


# ---------------------------------------------------------------- comparison

def group_obs(lst):
    d = {}
    for o in lst:
        k = o.key
        if k in d:
            p = d[k]
            d[k] = Obs(p.kind, p.name, p.args, p.loops, bor(p.guard, o.guard), p.loc, min(p.order, o.order))
            d[k].cut = p.cut or o.cut
            d[k].sites = p.sites + o.sites
        else:
            d[k] = o
    return {k: o for k, o in d.items() if o.guard is not FALSE and satisfiable(o.guard)}


def obs_terms(o):
    yield from o.args
    for c, b in o.loops:
        yield c
        yield b
    yield o.guard


def with_facts(obs, facts):
    'observables with the assertions of the specification used as rewrites'
    out = []
    for o in obs:
        if facts and o.kind != 'fails':
            loops = []
            for l in o.loops:
                l2 = l.subst({})
                l2.count, l2.brk = apply_facts(l.count, facts), apply_facts(l.brk, facts)
                loops.append(l2)
            o = Obs(o.kind, o.name, tuple(apply_facts(a, facts) for a in o.args), tuple(loops),
                    apply_facts(o.guard, facts), o.loc, o.order)
        out.append(o)
    return out


SEEDS = 3000


def refine(diffs, impl, spec, impl_func, spec_func, opts, seconds, trace=None):
    'a difference counts only if some small interpretation of the symbols tells the two apart'
    bad = [d for d in diffs if d.verdict == 'DIFF' and (d.obs is not None or d.other is not None)]
    if not bad:
        return
    facts = collect_facts(spec)
    a = with_facts(observables(impl, impl_func, opts), facts)
    b = with_facts(observables(spec, spec_func, opts), facts)
    c = ground.Comparison(a, b, bad, default_field, trace)
    c.run(SEEDS, time.time() + seconds)
    for d in bad:
        d.witness = c.distinguishes(d)
        if not c.confirmed(d):
            d.verdict = 'UNDET'
            d.agreed = True
            d.msg = 'written differently, equal in every bounded interpretation: ' + d.msg


def rows_of_matrices(obs):
    'the rows of something with a second dimension are as long as that'
    raw = [x for o in obs for x in list(o.args) + [o.guard] + [y for l in o.loops for y in (l.count, l.brk)]
           if isinstance(x, T)]
    seen = set()
    subs = [x for r in raw for x in t.subterms(r, seen)]
    mats = {x.args[0] for x in subs if x.op == 'ncols'}
    m = {x: mk('ncols', x.args[0].args[0]) for x in subs
         if x.op == 'len' and x.args[0].op == 'index' and x.args[0].args[0] in mats}
    if not m:
        return
    for o in obs:
        o.args = tuple(t.subst(x, m) if isinstance(x, T) else x for x in o.args)
        o.guard = t.subst(o.guard, m)
        for l in o.loops:
            l.count, l.brk = t.subst(l.count, m), t.subst(l.brk, m)


def compare(impl, spec, impl_func, spec_func, opts, vocab):
    '''impl/spec: Summaries.  Returns (list of Diff, number of effects compared)'''
    facts = collect_facts(spec)
    a, b = observables(impl, impl_func, opts), observables(spec, spec_func, opts)
    rows_of_matrices(a + b)
    a = group_obs(normalise(a, facts))
    b = group_obs(normalise(b, facts))
    params = set(spec.params)
    spec_calls = set()
    for o in b.values():
        if o.kind not in ('return', 'field'):
            spec_calls.add(o.name)
        for x in obs_terms(o):
            for y in t.subterms(x):
                if y.op in ('call', 'res', 'boolcall'):
                    spec_calls.add(y.args[0])
    voc = Vocab(vocab['attrs'], spec_calls | set(vocab['funcs']))
    only_a, only_b, guards = [], [], []
    for k, o in a.items():
        p = b.get(k)
        if p is None:
            only_a.append(o)
        else:
            e = equiv(o.guard, p.guard)
            if e is not True:
                guards.append((o, p, e))
    for k, o in b.items():
        if k not in a:
            only_b.append(o)
    n = len(b)
    moved = order_diffs(a, b, vocab.get('effects'))
    if not only_a and not only_b and not guards:
        return moved, n
    SEQUENCES.clear()
    SEQUENCES.update(sequence_params(itertools.chain(a.values(), b.values())))
    diffs = moved

    def rigid(o):
        return not o.cut and all(voc.rigid(x, params) for x in obs_terms(o))

    from hsa import matrix
    for o, p, e in guards:
        if e is None or not rigid(o) or not rigid(p) or relax(o.guard) is relax(p.guard) or \
                equiv(relax(o.guard), relax(p.guard)) is not False:
            diffs.append(Diff('UNDET', 'cannot decide under which condition %s' % brief(o), o.loc, o, p))
        else:
            diffs.append(Diff('DIFF', '%s\n      happens under:  %s\n      required under: %s' % (
                brief(o), t.show(o.guard), t.show(p.guard)), o.loc, o, p))
    # soft matches
    def rkey(o):
        return (o.kind, o.name, tuple(relax(x) for x in o.args), tuple((relax(c), relax(x)) for c, x in o.loops))
    rb = {}
    for o in only_b:
        rb.setdefault(rkey(o), []).append(o)
    rest_a = []
    for o in only_a:
        k = rkey(o)
        if k in rb:
            diffs.append(Diff('UNDET', 'equal only up to a relaxed reading: %s' % brief(o), o.loc, o, rb[k][0]))
            for p in rb[k]:
                if p in only_b:
                    only_b.remove(p)
        else:
            rest_a.append(o)
    only_a = rest_a
    # same effect with a differently built matrix / re-associated sequence
    rest_a = []
    for o in only_a:
        done = False
        for p in list(only_b):
            if p.kind == o.kind and p.name == o.name and p.loops == o.loops and len(p.args) == len(o.args):
                v = matrix.same_args(o.args, p.args)
                if v == 'SAME' and equiv(o.guard, p.guard) is True:
                    only_b.remove(p)
                    done = True
                    break
                if v in ('SAME', 'UNDET') and v is not None:
                    only_b.remove(p)
                    diffs.append(Diff('UNDET', 'matrix structure not comparable: %s' % brief(o), o.loc, o, p))
                    done = True
                    break
        if not done:
            rest_a.append(o)
    only_a = rest_a
    if not only_a and not only_b:
        return diffs, n
    soft = any(not rigid(o) for o in only_a + only_b)
    # effects that the interpreter could not model anywhere in the function weaken "missing effect" claims
    used_b = set()
    for o in only_a:
        # closest counterpart
        cand = [p for p in only_b if p.kind == o.kind and p.name == o.name and p not in used_b]
        p = cand[0] if cand else None
        if p is not None:
            used_b.add(p)
        ok = rigid(o) and (p is None or rigid(p))
        if p is None and (soft or o.kind == 'fails'):
            ok = False
        msg = ('unexpected effect: %s' % o.text()) if p is None else \
            ('effect:   %s\n      required: %s' % (o.text(), p.text()))
        diffs.append(Diff('DIFF' if ok else 'UNDET', msg, o.loc, o, p))
    for p in only_b:
        if p in used_b:
            continue
        ok = rigid(p) and not soft
        loc = (impl_func.module.path, impl_func.node.lineno, impl_func.qual)
        diffs.append(Diff('DIFF' if ok else 'UNDET', 'missing effect: %s' % p.text(), loc, None, p))
    return diffs, n


def access(o, effects):
    'parts of the solver state, and fields, that an effect reads and writes'
    if o.kind == 'glpk':
        return solver_access(o.name)
    if o.kind == 'call' and effects is not None:
        e = effects.get(o.name)
        if e is not None:
            return [{x for x in z if x not in ('#lp', '#param')} for z in (e.reads, e.writes)]
    return set(), set()


COMMUTE = {'#con', '#basis', '#sol', 'bytes_allocated', 'num_calls', 'total_secs'}


def conflict(p, q):
    'two accesses do not commute; additions and changes of different constraints do'
    (r1, w1), (r2, w2) = p, q
    return w1 & r2 | w2 & r1 | (w1 & w2) - COMMUTE


def order_diffs(a, b, effects):
    'effects on one object that do not commute and happen in the other order'
    acc = []
    for k, o in a.items():
        p = b.get(k)
        if p is None or not o.args or o.kind not in ('glpk', 'call'):
            continue
        x = access(o, effects)
        if x[0] or x[1]:
            s1, s2 = sites(o), sites(p)
            if len(s1) == len(s2):
                for (n, g), (m, h) in zip(s1, s2):
                    if len(s1) == 1 or equiv(g, h) is True:
                        acc.append((o, n, m, g, x))
    out = []
    for i, (o, n, m, g, x) in enumerate(acc):
        for o2, n2, m2, g2, x2 in acc[i + 1:]:
            if o is o2 or receiver(o) is not receiver(o2) or (n < n2) == (m < m2):
                continue
            c = conflict(x, x2)
            if c and not disjoint(g, g2):
                first, then = (o, o2) if n < n2 else (o2, o)
                out.append(Diff('DIFF', 'order: %s\n      happens before %s\n      required: after it (they share %s)' % (
                    brief(first), brief(then), ', '.join(sorted(c))), then.loc))
                if len(out) > 5:
                    return out
    return out


def receiver(o):
    'the object that owns the linear program'
    x = o.args[0]
    return x.args[0] if x.op == 'attr' and x.args[1] == 'lp' else x


def sites(o):
    'places where an effect happens, with the condition of each'
    d = {}
    for n, g in o.sites:
        d[n] = bor(d.get(n, FALSE), g)
    return sorted(d.items(), key=lambda x: x[0])


def disjoint(g, h):
    return not satisfiable(band(g, h))


def brief(o):
    s = Obs(o.kind, o.name, o.args, o.loops, TRUE, o.loc).text()
    return s if len(s) < 400 else s[:400] + ' ...'
