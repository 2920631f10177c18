'''
Bounded instantiation of value graphs.

A difference between two summaries is only reported when some small interpretation of their symbols tells them apart.  An
interpretation fixes how long the sequences are, which values are None, and the outcome of every primitive comparison
(consistently: two comparisons of one polynomial with constants share an ordering); numbers stay symbolic polynomials.
Under an interpretation every loop unrolls, every gate is decided, and both summaries become finite collections of ground
effects that are compared as collections.  Nothing of the analysed program is executed: only terms are rewritten.
'''

import math
import hashlib
from fractions import Fraction

from hsa import terms as t
from hsa.terms import T, mk, TRUE, FALSE, NONE, ZERO, num

MAX_ITER = 7
MANY_GOOD = 500
MIN_GOOD = 40
PER_GOAL = 20


class NoModel(Exception):
    'this interpretation cannot be completed'


def structural(x, memo):
    'hash of a ground term that does not depend on interning order'
    return t.digest(x, {}, memo)


_digests = {}

ANCHORS = (Fraction(1, 4), Fraction(-64), Fraction(64))
HUGE = Fraction(10 ** 12)
INTS = (0, 1, 2, 3, 0, 1, -1, 5)
LARGE = (3, 4, 5, 0, 3, 4, 1, 6, 2, -1)
REALS = (0, 1, -1, 2, Fraction(1, 2), -3, Fraction(5, 2), 0, 1, 7)

# the values of the constants of glpk
GLPK = {'GLP_EBADB': 1, 'GLP_ESING': 2, 'GLP_ECOND': 3, 'GLP_EBOUND': 4, 'GLP_EFAIL': 5, 'GLP_EOBJLL': 6, 'GLP_EOBJUL': 7,
        'GLP_EITLIM': 8, 'GLP_ETMLIM': 9, 'GLP_ENOPFS': 10, 'GLP_ENODFS': 11, 'GLP_UNDEF': 1, 'GLP_FEAS': 2, 'GLP_INFEAS': 3,
        'GLP_NOFEAS': 4, 'GLP_OPT': 5, 'GLP_UNBND': 6, 'GLP_FR': 1, 'GLP_LO': 2, 'GLP_UP': 3, 'GLP_DB': 4, 'GLP_FX': 5}

NUMERIC = {'abs': abs, 'min': min, 'max': max, 'floordiv': lambda a, b: Fraction(a // b), 'mod': lambda a, b: a % b,
           'math.floor': lambda a: Fraction(math.floor(a)), 'math.ceil': lambda a: Fraction(math.ceil(a)),
           'int': lambda a: Fraction(math.trunc(a)), 'float': lambda a: a, 'math.sqrt': lambda a: Fraction(math.sqrt(a)),
           'np.abs': abs, 'round': lambda a: Fraction(round(a))}


def NATURAL(a):
    'numbers that cannot be negative'
    return a.op in ('len', 'ncols') or a.op == 'call' and a.args[0] == '.count' or a.op == 'attr' and a.args[1] in ('#nrows', '#ncols', 'dims')


def shape(x):
    'what a value is, apart from which object or element it belongs to'
    if x.op == 'attr':
        return ('attr', x.args[1])
    if x.op == 'index':
        return ('index', shape(x.args[0]), x.args[1] if x.args[1].op == 'str' else None)
    if x.op in ('call', 'res'):
        return (x.op, x.args[0])
    if x.op == 'post':
        return ('attr', x.args[1])
    return (x.op, str(x.args[0]) if x.args else '')


def null_tests(obs):
    'shapes of the values that are compared with None'
    out, seen = set(), set()
    for o in obs:
        for x in list(o.args) + [o.guard] + [y for l in o.loops for y in (l.count, l.brk)]:
            for y in t.subterms(x, seen):
                if y.op == 'isnone':
                    out.add(shape(y.args[0]))
    return out


def numbers(obs):
    'shapes of the values that occur in arithmetic or in comparisons of order'
    out, seen = set(), set()
    for o in obs:
        for x in list(o.args) + [o.guard] + [y for l in o.loops for y in (l.count, l.brk)]:
            for y in t.subterms(x, seen):
                if y.op == 'poly':
                    out.update(shape(a) for m, _ in y.args for a in m)
                elif y.op == 'sgn' and y.args[0].op != 'poly':
                    out.add(shape(y.args[0]))
    return out


def divisors(obs):
    'shapes of the values something is divided by'
    out, seen = set(), set()
    for o in obs:
        for x in list(o.args) + [o.guard] + [y for l in o.loops for y in (l.count, l.brk)]:
            out.update(shape(y.args[0]) for y in t.subterms(x, seen) if y.op == 'inv' and y.args[0].op != 'poly')
    return out


def integers(obs):
    'shapes of the values that are used as places and sizes'
    out, seen = set(), set()

    def whole(n):
        for q in n.args[0].args if n.op == 'sliceobj' else ():
            whole(q)
        if n.op == 'seq':
            for s in n.args:
                if s.op == 'el':
                    whole(s.args[0])
        elif n.op == 'poly' and all(isinstance(c, int) for _, c in n.args):
            out.update(shape(a) for m, _ in n.args if len(m) == 1 for a in m)
        elif n.op in OPAQUE:
            out.add(shape(n))

    for o in obs:
        for l in o.loops:
            whole(l.count)
        for x in list(o.args) + [o.guard] + [y for l in o.loops for y in (l.count, l.brk)]:
            for y in t.subterms(x, seen):
                if y.op in ('index', 'store'):
                    whole(y.args[1])
                elif y.op == 'storeloop':
                    whole(y.args[3])
                    whole(y.args[2])
                elif y.op in ('rep', 'exists'):
                    whole(y.args[1])
                elif y.op == 'call' and y.args[0] in ('np.zeros', 'np.ones') and len(y.args) > 1:
                    whole(y.args[1])
    return out


def objects(obs):
    'shapes of the values whose attributes are used'
    out, seen = set(), set()
    for o in obs:
        for x in list(o.args) + [o.guard] + [y for l in o.loops for y in (l.count, l.brk)]:
            for y in t.subterms(x, seen):
                if y.op == 'attr' and not str(y.args[1]).startswith('#') and y.args[1] not in ('shape', 'data', 'indices'):
                    out.add(shape(y.args[0]))
    return out


STRING_TESTS = {'.startswith': str.startswith, '.endswith': str.endswith, '.isdigit': str.isdigit}
STRING_MAPS = {'.strip': str.strip, '.lower': str.lower, '.upper': str.upper, '.replace': str.replace, '.split': str.split,
               '.count': str.count, '.rstrip': str.rstrip, '.lstrip': str.lstrip}
STRING_ONLY = set(STRING_TESTS) | set(STRING_MAPS) - {'.count'}


def strings(obs):
    'shapes of the values that are texts, and the texts they are tested against'
    out, parts, seen = set(), set(), set()
    for o in obs:
        for x in list(o.args) + [o.guard] + [y for l in o.loops for y in (l.count, l.brk)]:
            for y in t.subterms(x, seen):
                if y.op in ('call', 'boolcall') and y.args[0] in STRING_ONLY and len(y.args) > 1 and \
                        y.args[1].op in OPAQUE and not (y.args[1].op == 'call' and y.args[1].args[0] in STRING_ONLY):
                    out.add(shape(y.args[1]))
                    parts.update(z.args[0] for z in y.args[2:] if isinstance(z, T) and z.op == 'str')
                elif y.op == 'in' and y.args[0].op == 'str' or y.op == 'call' and y.args[0] == '.count':
                    parts.update(z.args[0] for z in y.args if isinstance(z, T) and z.op == 'str')
                elif y.op == 'eq':
                    parts.update(z.args[0] for z in y.args if z.op == 'str')
    return out, sorted(q for q in parts if len(q) < 20)


OPAQUE = ('attr', 'param', 'index', 'call', 'res', 'post', 'sym')
FRESH = ('seq', 'new', 'ref', 'store', 'dput', 'dictc', 'setc', 'mat', 'entries', 'clone', 'closure', 'poly')


class Model():
    def __init__(self, seed, nullable=None, numeric=frozenset(), objs=frozenset(), ints_of=frozenset(),
                 texts=(frozenset(), ()), divs=frozenset()):
        self.divisors = divs            # shapes of the values something is divided by
        self.text_of, self.pieces = texts       # shapes of the values that are texts, what to make them of
        self.texts = {}
        self.test = None        # preferred outcome of a test of a text
        self.ints_of = ints_of          # shapes of the values that are integers
        self.seed = seed
        self.objs = objs                # shapes of the values that are objects with attributes
        self.nullable = nullable        # shapes of the values that may be None
        self.numeric = numeric          # shapes of the values used as numbers
        self.ident = {}         # value -> number of the object it denotes
        self.reps = []          # first value that denotes each object
        self.bias = (0.5, 0.25, 0.75, 0.1, 0.9, 0.5)[seed % 6]
        self.lens = ((0, 1, 2, 3), (1, 2), (2, 3), (1, 1, 2), (0, 1), (2, 3, 4, 5))[(seed // 6) % 6]
        self.ints = {}          # opaque length / count -> int
        self.info = {}          # value -> {'none': , 'truthy': , 'inst': {}, 'const': , 'not': set}
        self.pins = {}          # numbers used as places and counts
        self.vals = {}          # number -> value
        self.flags = {}
        self.memo = {}
        self.changed = False
        self.strict = False     # evaluating the specification
        self.wish = None        # preferred outcome of the next choice (a bool or a set of signs)

    # ------------------------------------------------------------ steering
    def steer(self, c, env, want):
        'try to make the choices under which condition c has the value want'
        op, a = c.op, c.args
        if op == 'bool':
            return
        if op == 'not':
            return self.steer(a[0], env, not want)
        if op in ('and', 'or'):
            if (op == 'and') == want:
                if self.text_of:
                    self.aim_texts(a, env, want)
                for y in a:
                    self.steer(y, env, want)
            else:
                r = self.rnd('steer', c.op + str(len(a)), len(a))
                for k in range(len(a)):
                    y = a[(k + r) % len(a)]
                    self.steer(y, env, want)
                    if self.cond(y, env) == want:
                        break
            return
        if op == 'ite':
            return self.steer(a[1] if self.cond(a[0], env) else a[2], env, want)
        if op == 'exists' and a[2].op == 'firstof':
            n = self.room(a[1], env)
            n = MAX_ITER if n is None else min(n, MAX_ITER)
            if n:
                k = self.rnd('steer', 'first', n)
                for q in range(k):
                    self.steer(a[2].args[0], self.bind(env, (a[0], num(q))), False)
                e = self.bind(env, (a[0], num(k)))
                self.steer(a[2].args[0], e, True)
                self.steer(a[2].args[1], e, want)
            return
        if op == 'exists':
            n = self.room(a[1], env) if want else self.count(self.ev(a[1], env))
            n = MAX_ITER if n is None else min(n, MAX_ITER)
            ks = range(n) if not want else [self.rnd('steer', 'exists', n)] if n else ()
            for k in ks:
                self.steer(a[2], self.bind(env, (a[0], num(k))), want)
            return
        if op == 'truthy' and a[0].op == 'first':
            i, n, cond, v = a[0].args
            n = self.room(n, env)
            if n:
                n = min(n, MAX_ITER)
                k = self.rnd('steer', 'first', n)
                for q in range(k):
                    self.steer(cond, self.bind(env, (i, num(q))), False)
                e = self.bind(env, (i, num(k)))
                self.steer(cond, e, True)
                self.steer(t.truthy(v), e, want)
            return
        if op in ('truthy', 'isnone') and a[0].op in ('lastsuch', 'ite'):
            x = a[0]
            if x.op == 'ite':
                g = t.truthy if op == 'truthy' else t.isnone
                return self.steer(g(x.args[1] if self.cond(x.args[0], env) else x.args[2]), env, want)
            i, n, cond, v, init = x.args
            n = self.room(n, env)
            if n:
                n = min(n, MAX_ITER)
                ks = [self.rnd('steer', 'last', n)] if want == (op == 'truthy') else range(n)
                for k in ks:
                    self.steer(cond, self.bind(env, (i, num(k))), want == (op == 'truthy'))
            return
        if op == 'sgn':
            if a[0].op in ('poly', 'len', 'ncols'):
                self.aim_length(a[0], a[1] if want else frozenset({-1, 0, 1}) - a[1], env)
            p = self.ev(a[0], env)
            self.wish = a[1] if want else frozenset({-1, 0, 1}) - a[1]
            try:
                self.truth(mk('sgn', p, a[1]))
            finally:
                self.wish = None
            return
        if self.text_of and self.aim_texts((c,), env, want):
            return
        if op in ('isnone', 'truthy', 'eq', 'isinst', 'in') or op == 'boolcall' and a[0] == 'is':
            g = t.rebuild(op, tuple(self.ev(y, env) if isinstance(y, T) else y for y in a))
        elif self.memo.get(c) is not None:
            return
        else:
            g = self._ev(c, env)
        if g.op in ('bool', 'sgn', 'and', 'or', 'not', 'exists'):
            if g.op != 'bool' and g is not c:
                self.steer(g, env, want)
            return
        if g.op not in t.BOOL_OPS:
            g = t.truthy(g)
        self.wish = want
        try:
            self.truth(g)
        finally:
            self.wish = None

    def aim_length(self, p, goals, env):
        'give a sequence of open length the length at which p has one of these signs'
        terms = p.args if p.op == 'poly' else (((p,), 1),)
        for m, c in terms:
            if len(m) == 1 and m[0].op in ('len', 'ncols') and sum(m[0] in q for q, _ in terms) == 1:
                x = self.ev(m[0].args[0], env)
                if x.op not in OPAQUE:
                    continue
                if m[0].op == 'ncols':
                    x = mk('ncols', x)
                if x in self.ints or any(k not in ('none', 'inst', 'not') or k == 'none' and y
                                         for k, y in self.info.get(x, {}).items()):
                    continue
                v = self.value(self.ev(t.sub(p, t.mul(num(c), m[0])), env))
                if v is None or x in self.ints:
                    continue
                ok = [k for k in range(6) if (v + c * k > 0) - (v + c * k < 0) in goals]
                if ok:
                    if self.lens[-1] > 4:
                        ok = ok[-3:]
                    self.ints[x] = ok[self.rnd('length', x, len(ok))]
                    self.changed = True
                return

    def room(self, n, env):
        'a number of iterations, made positive where that is still open'
        if n.op == 'poly':
            for y in t.subterms(n):
                if y.op == 'len':
                    x = self.ev(y.args[0], env)
                    if x.op in OPAQUE and x not in self.ints and x not in self.info:
                        self.ints[x] = 1 + self.rnd('room', x, 4)
            free = []
            self.open_atoms(self.ev(n, env), free)
            if free:
                self.steer(mk('sgn', n, frozenset({1})), env, True)
                self.pins.update((a, self.vals[a]) for a in free if a in self.vals)
        return self.count(self.ev(n, env))

    def explore(self, x):
        'pick one of the alternatives of a gated value at random'
        n = 0
        while x.op == 'ite' and n < 12:
            want = self.rnd('explore', n, 2) == 1
            self.steer(x.args[0], {}, want)
            x = x.args[1 if self.cond(x.args[0], {}) else 2]
            n += 1

    def text(self, x):
        'the text that a value is'
        r = self.texts.get(x)
        if r is None:
            pool = list(self.pieces) * 2 + ['x', '1', '0', '2']
            best = r = None
            for k in range(12 if self.test is None else 60):
                n = 1 + self.rnd('text%d' % k, x, 4)
                q = ''.join(pool[self.rnd('piece%d' % (q + 7 * k), x, len(pool))] for q in range(n))
                met = sum(f(q) == w for f, w in self.test or ())
                if best is None or met > best:
                    best, r = met, q
                if met == len(self.test or ()):
                    break
            self.texts[x] = r
            self.changed = True
        return r

    def text_test(self, c):
        'the text that a condition tests, and the test'
        if c.op == 'boolcall' and c.args[0] in STRING_TESTS and 2 <= len(c.args) <= 3:
            x, y, f = c.args[1], c.args[2:], STRING_TESTS[c.args[0]]
        elif c.op == 'in':
            x, y, f = c.args[1], c.args[:1], lambda r, q: q in r
        elif c.op == 'eq' and c.args[0].op != c.args[1].op and 'str' in (c.args[0].op, c.args[1].op):
            k = c.args[0].op == 'str'
            x, y, f = c.args[k], (c.args[1 - k],), lambda r, q: q == r
        else:
            return None
        if shape(x) not in self.text_of or any(z.op != 'str' for z in y):
            return None
        return x, lambda r: f(r, *[z.args[0] for z in y])

    def aim_texts(self, conds, env, want):
        'tests of texts that have not been chosen yet, to be met together'
        goals_ = {}
        for c in conds:
            w = want
            if c.op == 'not':
                c, w = c.args[0], not w
            r = self.text_test(c)
            if r is not None:
                goals_.setdefault(r[0], []).append((r[1], w))
        for x, tests in goals_.items():
            self.test = tests
            try:
                self.ev(x, env)
            finally:
                self.test = None
        return bool(goals_)

    # ------------------------------------------------------------ choices
    def rnd(self, tag, x, n):
        d = structural(x, _digests) if isinstance(x, T) else x
        h = hashlib.blake2b(repr((self.seed, tag, d)).encode(), digest_size=8)
        return int.from_bytes(h.digest(), 'big') % n

    def coin(self, tag, x, p=None):
        if isinstance(self.wish, bool):
            return self.wish
        return self.rnd(tag, x, 1000) < 1000 * (self.bias if p is None else p)

    def flag(self, x):
        r = self.flags.get(x)
        if r is None:
            r = self.flags[x] = self.coin('flag', x)
            self.changed = True
        return r

    def rec(self, x):
        r = self.info.get(x)
        if r is None:
            r = self.info[x] = {'inst': {}, 'not': set()}
        return r

    def is_none(self, x):
        r = self.rec(x)
        if 'none' not in r:
            self.changed = True
            if self.nullable is not None and shape(x) not in self.nullable:
                r['none'] = False
            elif 'const' in r or r.get('truthy') or any(r['inst'].values()) or x in self.ints or x in self.vals:
                r['none'] = False
            else:
                r['none'] = self.coin('none', x, 0.35)
        return r['none']

    def is_truthy(self, x):
        r = self.rec(x)
        if 'truthy' not in r:
            self.changed = True
            if shape(x) in self.objs:
                r['truthy'] = not self.is_none(x)
                return r['truthy']
            if 'const' in r:
                r['truthy'] = t.truthy(r['const']) is TRUE
            elif r.get('none'):
                r['truthy'] = False
            elif x in self.ints:
                r['truthy'] = self.ints[x] > 0
            elif x in self.vals:
                r['truthy'] = self.vals[x] != 0
            else:
                r['truthy'] = self.coin('truthy', x)
        return r['truthy']

    def is_inst(self, x, cls):
        r = self.rec(x)
        if cls not in r['inst']:
            self.changed = True
            if r.get('none'):
                r['inst'][cls] = False
            elif 'const' in r:
                r['inst'][cls] = str(cls) == 'str' and r['const'].op == 'str'
            elif any(v and t.disjoint_classes(k, cls) for k, v in r['inst'].items()):
                r['inst'][cls] = False
            else:
                r['inst'][cls] = self.coin('inst' + str(cls), x)
        return r['inst'][cls]

    def is_const(self, x, c):
        r = self.rec(x)
        if 'const' in r:
            return r['const'] is c
        if c in r['not']:
            return False
        if c.op == 'enum' and c.args[0] in GLPK and x in self.vals:
            return self.vals[x] == GLPK[c.args[0]]
        self.changed = True
        ok = not r.get('none') and ('truthy' not in r or (t.truthy(c) is TRUE) == r['truthy']) and \
            not any(v for k, v in r['inst'].items() if str(k) != 'str')
        if ok and self.coin('const' + t.show(c), x, 0.4):
            r['const'] = c
            return True
        r['not'].add(c)
        return False

    def same_object(self, a, b):
        if a is b:
            return True
        if a.op in t.DISTINCT_CONST or b.op in t.DISTINCT_CONST or a.op in FRESH and b.op in FRESH:
            return False
        if a.op in FRESH or b.op in FRESH:
            return False if a.op in ('new', 'ref') or b.op in ('new', 'ref') else self.flag(mk('eq', *sorted(
                (a, b), key=lambda q: q.uid)))
        ia, ib = self.ident.get(a), self.ident.get(b)
        if ia is None and ib is not None:
            a, b, ia, ib = b, a, ib, ia
        if ia is None:
            ia = self.ident[a] = len(self.reps)
            self.reps.append(a)
            self.changed = True
        if ib is None:
            da, db = sorted((structural(a, _digests), structural(b, _digests)))
            if self.coin('is', '%s/%s' % (da, db), 0.4):
                ib = ia
            else:
                ib = len(self.reps)
                self.reps.append(b)
            self.ident[b] = ib
            self.changed = True
        return ia == ib

    def length(self, x):
        'the length of an opaque sequence'
        r = self.ints.get(x)
        if r is None:
            self.changed = True
            i = self.rec(x)
            r = self.lens[self.rnd('len', x, len(self.lens))]
            if i.get('truthy') is True and r == 0:
                r = 1
            elif i.get('truthy') is False:
                r = 0
            self.ints[x] = r
        return r

    def value(self, x):
        'numeric value of a ground term, None if it is still open'
        c = t.as_const(x)
        if c is not None:
            return Fraction(c)
        if x in self.vals:
            return self.vals[x]
        if x is t.INF:
            return HUGE
        if x.op == 'enum' and x.args[0] in GLPK:
            return Fraction(GLPK[x.args[0]])
        if 'const' in self.info.get(x, ()):
            return self.value(self.info[x]['const'])
        if x.op == 'poly':
            tot = Fraction(0)
            for m, k in x.args:
                v = Fraction(k)
                for a in m:
                    w = self.value(a)
                    if w is None:
                        return None
                    v *= w
                tot += v
            return tot
        if x.op == 'inv':
            v = self.value(x.args[0])
            if v == 0:
                raise NoModel       # a division by zero
            return None if v is None else 1 / v
        if x.op in ('len', 'ncols'):
            return Fraction(self.length(x.args[0] if x.op == 'len' else x))
        if x.op == 'call' and x.args[0] in NUMERIC:
            vs = [self.value(y) if isinstance(y, T) and y.op != 'kw' else None for y in x.args[1:]]
            if None not in vs and vs:
                try:
                    return NUMERIC[x.args[0]](*vs)
                except (TypeError, ZeroDivisionError, ValueError):
                    return None
        return None

    def open_atoms(self, x, out):
        if self.value(x) is not None:
            return
        if x.op == 'poly':
            for m, _ in x.args:
                for a in m:
                    self.open_atoms(a, out)
        elif x.op == 'inv':
            self.open_atoms(x.args[0], out)
        elif x.op == 'call' and x.args[0] in NUMERIC and \
                not any(y.op in ('kw', 'seq') for y in x.args[1:]) and len(x.args) > 1:
            for y in x.args[1:]:
                self.open_atoms(y, out)
        elif x not in out:
            out.append(x)

    def whole(self, a):
        return t.is_int(a) or shape(a) in self.ints_of

    def choose_value(self, a, pool=None):
        if pool is None:
            pool = INTS if self.whole(a) else REALS
            if self.lens[-1] > 4:
                pool = LARGE
        i = self.info.get(a)
        if i is not None and i.get('truthy') is True or NATURAL(a):
            pool = [v for v in pool if v > 0 or v == 0 and not (i and i.get('truthy'))] or (1,)
        lo, hi = self.limits(a)
        if lo is not None or hi is not None:
            pool = [v for v in pool if (lo is None or v >= lo) and (hi is None or v <= hi)] or \
                (lo if lo is not None else hi,)
        if self.seed % 2 and shape(a) in self.divisors and 1 in pool:
            pool = (1,)         # quotients are whole numbers
        self.vals[a] = Fraction(pool[self.rnd('value', a, len(pool))])
        self.changed = True

    def sign(self, p):
        'sign of a non-constant ground polynomial; open atoms get values'
        v = self.value(p)
        if v is None:
            free = []
            self.open_atoms(p, free)
            free.sort(key=lambda q: structural(q, _digests))
            last = None
            r = self.rnd('sign', p, 10)
            if p.op == 'poly':
                # the atom that steers the sign occurs linearly
                linear = [a for a in free if all(m.count(a) <= 1 for m, _ in p.args) and
                          not any(a is not y and a in t.subterms(y) for m, _ in p.args for y in m)]
                if linear:
                    last = linear[self.rnd('last', p, len(linear))]
            elif free and free[0] is p:
                last = p
            if last is None and free:
                last = free[self.rnd('last', p, len(free))]
            for a in free:
                if a is not last:
                    self.choose_value(a)
            if last is not None:
                goals = sorted(self.wish) if isinstance(self.wish, frozenset) else \
                    [(-1, 0, 1)[r % 3]] if r < 6 else []
                done = False
                for q in range(len(goals)):
                    if self.aim_at(p, last, goals[(q + r) % len(goals)]):
                        self.changed = True
                        done = True
                        break
                if not done:
                    self.choose_value(last)
            v = self.value(p)
            if v is None:
                # non-numeric content
                return self.rnd('opaque sign', p, 3) - 1
        return (v > 0) - (v < 0)

    def limits(self, a):
        'the lower end of an interval is not above the upper one'
        if a.op == 'attr' and isinstance(a.args[1], str) and a.args[1][-3:] in ('min', 'max'):
            name, low = a.args[1][:-3], a.args[1][-3:] == 'min'
            v = self.vals.get(mk('attr', a.args[0], name + ('max' if low else 'min')))
            return (None, v) if low else (v, None)
        return None, None

    def aim_at(self, p, a, goal):
        'give atom a a value at which the piecewise linear p has this value'
        lo, hi = self.limits(a)
        for at in ANCHORS:
            f = []
            for x in (at, at + Fraction(1, 8)):
                self.vals[a] = x
                f.append(self.value(p))
            if None in f or f[0] == f[1]:
                continue
            x = at + (goal - f[0]) / (8 * (f[1] - f[0]))
            if self.whole(a) and x.denominator != 1 or NATURAL(a) and x < 0:
                continue
            if abs(x) > HUGE / 2 and self.wish != frozenset({0}):
                continue        # numbers are finite unless a test for infinity is to be met
            if lo is not None and x < lo or hi is not None and x > hi:
                continue
            self.vals[a] = x
            if self.value(p) == goal:
                return True
        self.vals.pop(a, None)
        return False

    def exact(self, q):
        'the value given to a number'
        v = self.vals.get(q)
        if v is None:
            return None
        if v.denominator == 1:
            return int(v)
        f = float(v)
        return f if Fraction(f) == v else v

    def count(self, x, empty=False):
        'a small number for a symbolic loop count'
        c = t.as_const(x)
        if c is not None:
            if c != int(c):
                raise NoModel
            return max(0, int(c))
        if x.op == 'sym' and x.args[0] == 'unbounded':
            return None
        v = self.number(x)
        if v < 0:
            if empty:
                return 0
            raise NoModel
        return v

    def number(self, x, pool=None):
        'pin a term to a small integer'
        free = []
        self.open_atoms(x, free)
        for a in sorted(free, key=lambda q: structural(q, _digests)):
            self.choose_value(a, self.lens if pool is None or len(free) > 1 else pool)
            self.pins[a] = self.vals[a]
        v = self.value(x)
        if v is None or v.denominator != 1:
            raise NoModel
        return int(v)

    # ------------------------------------------------------------ evaluation
    def ev(self, x, env):
        fv = t.free(x)
        key = x
        if fv and env:
            sub = tuple((v.uid, env[v]) for v in sorted(fv, key=lambda q: q.uid) if v in env)
            if sub:
                key = (x, sub)
        r = self.memo.get(key)
        if r is None:
            r = self.settle(self._ev(x, env))
            self.memo[key] = r
        return r

    def settle(self, r):
        'apply the choices made so far to a ground value'
        op = r.op
        if op in ('attr', 'param', 'index', 'call', 'res', 'post', 'slice', 'first', 'sym', 'undef', 'tr'):
            k = self.ident.get(r)
            if k is not None and self.reps[k] is not r:
                return self.settle(self.reps[k])
            i = self.info.get(r)
            if i is not None:
                if i.get('none'):
                    return NONE
                if 'const' in i:
                    return i['const']
            if self.text_of and op in OPAQUE and shape(r) in self.text_of:
                return mk('str', self.text(r))
            e = self.exact(r)
            if e is not None:
                return num(e)
        elif op == 'len' or op == 'ncols':
            return num(self.length(r.args[0] if op == 'len' else r))
        elif op == 'poly':
            sub = {}
            for m, _ in r.args:
                for a in m:
                    e = self.length(a.args[0] if a.op == 'len' else a) if a.op in ('len', 'ncols') else self.exact(a)
                    if e is not None:
                        sub[a] = num(e)
            if sub:
                tot = ZERO
                for m, c in r.args:
                    v = num(c)
                    for a in m:
                        v = t.mul(v, sub.get(a, a))
                    tot = t.add(tot, v)
                r = rounded(tot)
        elif op in t.BOOL_OPS and op != 'bool':
            return t.boolc(self.truth(r))
        return r

    def some(self, items, test, want):
        'whether a test has this outcome for some item; one that cannot be tested does not matter if another one decides'
        failed = False
        for y in items:
            try:
                if test(y) == want:
                    return True
            except NoModel:
                failed = True
        if failed:
            raise NoModel
        return False

    def truth(self, g):
        'decide a ground condition'
        op = g.op
        if op == 'bool':
            return g.args[0]
        if op == 'not':
            return not self.truth(g.args[0])
        if op == 'and':
            return not self.some(g.args, self.truth, False)
        if op == 'or':
            return self.some(g.args, self.truth, True)
        if op == 'sgn':
            p = self.settle(g.args[0])
            c = t.as_const(p)
            if c is not None:
                return ((c > 0) - (c < 0)) in g.args[1]
            if p is t.INF:
                return 1 in g.args[1]
            return self.sign(p) in g.args[1]
        if op == 'isnone':
            x = g.args[0]
            if x is NONE:
                return True
            if t.isnone(x) is FALSE:
                return False
            return self.is_none(x)
        if op == 'truthy':
            x = g.args[0]
            y = t.truthy(x)
            if y.op != 'truthy':
                return self.truth(y)
            if x in self.info and self.info[x].get('none'):
                return False
            return self.is_truthy(x)
        if op == 'isinst':
            return self.is_inst(g.args[0], g.args[1])
        if op == 'eq':
            a, b = g.args
            if a is b:
                return True
            if a.op in t.DISTINCT_CONST and b.op in t.DISTINCT_CONST:
                return False
            if a.op in t.DISTINCT_CONST:
                return self.is_const(b, a)
            if b.op in t.DISTINCT_CONST:
                return self.is_const(a, b)
            if shape(a) in self.numeric or shape(b) in self.numeric or self.value(a) is not None or \
                    self.value(b) is not None:
                d = t.sub(a, b)
                c = t.as_const(d)
                return c == 0 if c is not None else self.sign(d) == 0
            return self.same_object(a, b)
        if op == 'boolcall' and g.args[0] == 'is':
            return self.same_object(g.args[1], g.args[2])
        if op == 'in':
            r = self.member(g.args[0], g.args[1])
            if r is not None:
                return r
        return self.flag(g)

    def member(self, x, d):
        if x.op == d.op == 'str':
            return x.args[0] in d.args[0]
        if d.op in ('seq', 'setc'):
            els = [s.args[0] if s.op == 'el' else s for s in d.args]
            return any(self.truth(t.eq(x, e)) for e in els)
        if d.op == 'dput':
            if self.truth(t.eq(x, d.args[1])):
                return True
            return self.member(x, d.args[0])
        if d.op == 'dictc':
            return False
        if d.op == 'store':
            return None
        return self.flag(mk('in', x, d))

    def cond(self, c, env):
        g = self.ev(c, env)
        if g.op == 'bool':
            return g.args[0]
        g = t.truthy(g)
        return self.truth(g)

    def elements(self, s):
        'list of the elements of a ground sequence, or None'
        if s.op == 'seq' and all(x.op == 'el' for x in s.args):
            return [x.args[0] for x in s.args]
        return None

    def elementwise(self, p):
        'a linear combination of vectors whose elements are known'
        if p.op != 'poly':
            return p
        parts = []
        for m, c in p.args:
            vec = [a for a in m if a.op == 'seq']
            if len(vec) != 1 or not self.elements(vec[0]) or not all(a is vec[0] or t.is_scalar(a) for a in m):
                return p
            k = num(c)
            for a in m:
                if a is not vec[0]:
                    k = t.mul(k, a)
            parts.append([t.mul(k, e) for e in self.elements(vec[0])])
        if len({len(x) for x in parts}) != 1:
            return p
        out = []
        for es in zip(*parts):
            tot = ZERO
            for e in es:
                tot = t.add(tot, e)
            out.append(self.elementwise(rounded(tot)))
        return self.seq_of(out)

    def seq_of(self, els):
        return mk('seq', *[t.el(e) for e in els])

    def segs(self, parts, env, out):
        for s in parts:
            if s.op == 'el':
                out.append(self.ev(s.args[0], env))
            elif s.op == 'rep':
                i, n, body = s.args
                cnt = self.count(self.ev(n, env))
                self.limit(cnt)
                for k in range(cnt):
                    e2 = dict(env)
                    e2[i] = num(k)
                    self.segs(body.args, e2, out)
            elif s.op == 'condseg':
                self.segs((s.args[1] if self.cond(s.args[0], env) else s.args[2]).args, env, out)
            elif s.op == 'spread':
                v = self.ev(s.args[0], env)
                els = self.elements(v)
                if els is None:
                    n = self.len_of(v)
                    els = [self.settle(t.index(v, num(k))) for k in range(n)]
                out.extend(els)
            else:
                raise NoModel
        if len(out) > 60:
            raise NoModel

    def limit(self, cnt):
        if cnt is None or cnt > MAX_ITER:
            raise NoModel

    def len_of(self, v):
        l = t.length(v)
        if l.op == 'len':
            return self.length(l.args[0])
        return self.count(self.ev(l, {}))

    def spelled(self, v):
        'a sequence of known length as its elements'
        if v.op in OPAQUE and v in self.ints:
            return self.seq_of([self.settle(t.index(v, num(k))) for k in range(self.ints[v])])
        return v

    def bind(self, env, *pairs):
        e = dict(env)
        for k, v in pairs:
            e[k] = v
        return e

    def search(self, i, n, c, env):
        'first index satisfying c (None if there is none)'
        cnt = self.count(self.ev(n, env), True)
        for k in range(MAX_ITER + 1 if cnt is None else cnt):
            if k > MAX_ITER:
                raise NoModel
            if self.cond(c, self.bind(env, (i, num(k)))):
                return k
        if cnt is None:
            raise NoModel
        return None

    def _ev(self, x, env):
        op, a = x.op, x.args
        if op in ('num', 'str', 'bool', 'none', 'enum', 'sym', 'ref', 'opaque', 'closure', 'param', 'undef'):
            if op == 'param' or op == 'sym' or not a:
                return x
            return x
        if op in ('idx', 'phi'):
            return env.get(x, x)
        if op == 'ite':
            return self.ev(a[1] if self.cond(a[0], env) else a[2], env)
        if op == 'and':
            return t.boolc(not self.some(a, lambda y: self.cond(y, env), False))
        if op == 'or':
            return t.boolc(self.some(a, lambda y: self.cond(y, env), True))
        if op == 'seq':
            out = []
            self.segs(a, env, out)
            return self.seq_of(out)
        if op == 'exists':
            i, n, c = a
            if c.op == 'firstof':
                k = self.search(i, n, c.args[0], env)
                return t.boolc(k is not None and self.cond(c.args[1], self.bind(env, (i, num(k)))))
            return t.boolc(self.search(i, n, c, env) is not None)
        if op == 'first':
            i, n, c, v = a
            k = self.search(i, n, c, env)
            return mk('undef') if k is None else self.ev(v, self.bind(env, (i, num(k))))
        if op == 'stop':
            i, n, c = a
            k = self.search(i, n, c, env)
            return self.ev(n, env) if k is None else num(k)
        if op == 'lastsuch':
            i, n, c, v, init = a
            cnt = self.count(self.ev(n, env))
            self.limit(cnt)
            for k in reversed(range(cnt)):
                e = self.bind(env, (i, num(k)))
                if self.cond(c, e):
                    return self.ev(v, e)
            return self.ev(init, env)
        if op == 'psum':
            i, n, b = a
            cnt = self.count(self.ev(n, env))
            self.limit(cnt)
            tot = ZERO
            for k in range(cnt):
                tot = t.add(tot, self.ev(b, self.bind(env, (i, num(k)))))
            return tot
        if op == 'red':
            name, _, i, n, v, init = a
            cnt = self.count(self.ev(n, env))
            self.limit(cnt)
            vals = [self.ev(init, env)] + [self.ev(v, self.bind(env, (i, num(k)))) for k in range(cnt)]
            return self.pick(name, vals)
        if op == 'fold':
            i, p, n, step, init = a
            cnt = self.count(self.ev(n, env))
            self.limit(cnt)
            cur = self.ev(init, env)
            for k in range(cnt):
                cur = self.ev(step, self.bind(env, (i, num(k)), (p, cur)))
            return cur
        if op == 'mu':
            i, vs, n = a[:3]
            ph = vs.args
            steps, inits = a[3:3 + len(ph)], a[3 + len(ph):]
            cnt = self.count(self.ev(n, env))
            self.limit(cnt)
            cur = [self.ev(q, env) for q in inits]
            for k in range(cnt):
                e = self.bind(env, (i, num(k)), *zip(ph, cur))
                cur = [self.ev(s, e) for s in steps]
            return cur[0]
        if op == 'storeloop':
            init, i, n, k, v, c = a
            cnt = self.count(self.ev(n, env))
            self.limit(cnt)
            cur = self.ev(init, env)
            for q in range(cnt):
                e = self.bind(env, (i, num(q)))
                if self.cond(c, e):
                    cur = self.put(cur, self.ev(k, e), self.ev(v, e))
            return cur
        if op == 'store':
            return self.put(self.ev(a[0], env), self.ev(a[1], env), self.ev(a[2], env))
        if op == 'prefix':
            k = self.count(self.ev(a[0], env))
            full, init = self.elements(self.ev(a[1], env)), self.elements(self.ev(a[2], env))
            if full is None or init is None:
                raise NoModel
            return self.seq_of(full[:k] + init[k:])
        if op == 'len':
            v = self.ev(a[0], env)
            return num(self.len_of(v))
        if op == 'index':
            return self.get(self.ev(a[0], env), self.ev(a[1], env))
        if op == 'slice':
            b, lo, hi = [self.ev(y, env) for y in a]
            els = self.elements(b)
            l, h = (None if y is NONE else t.as_const(y) for y in (lo, hi))
            if b.op == 'str' and (lo is NONE or isinstance(l, int)) and (hi is NONE or isinstance(h, int)):
                return mk('str', b.args[0][l:h])
            if els is not None and (lo is NONE or isinstance(l, int)) and (hi is NONE or isinstance(h, int)):
                return self.seq_of(els[l:h])
            if (l is None or isinstance(l, int) and l >= 0) and isinstance(h, int) and h >= 0 and b.op not in \
                    ('seq', 'store', 'entries', 'mat'):
                l = l or 0
                self.limit(max(0, h - l))
                return self.seq_of([self.settle(t.index(b, num(k))) for k in range(l, h)])
            return t.slice_(b, lo, hi)
        if op == 'dput':
            return self.dput(self.ev(a[0], env), self.ev(a[1], env), self.ev(a[2], env))
        if op == 'in':
            return t.boolc(self.truth(mk('in', self.ev(a[0], env), self.ev(a[1], env))))
        if op in ('truthy', 'isnone', 'eq', 'sgn', 'isinst', 'not'):
            new = tuple(self.ev(y, env) if isinstance(y, T) else y for y in a)
            return t.rebuild(op, new)
        if op == 'poly':
            tot = ZERO
            for m, c in a:
                v = num(c)
                for y in m:
                    v = t.mul(v, self.ev(y, env))
                tot = t.add(tot, v)
            return self.elementwise(rounded(tot))
        if op == 'fnval':
            # what a function does when its assertions fail is that they fail
            for y in a:
                if isinstance(y, T) and y.op == 'ev' and y.args[0] == 'assert':
                    self.steer(y.args[3], env, True)
                    if self.cond(y.args[2], env) and not self.cond(y.args[3], env):
                        return mk('fnval', 'fails')
        new = tuple(self.ev(y, env) if isinstance(y, T) else y for y in a)
        if op == 'call':
            r = self.call(new)
            if r is not None:
                return r
        if op == 'boolcall' and new[0] in STRING_TESTS and len(new) > 1 and all(y.op == 'str' for y in new[1:]):
            return t.boolc(STRING_TESTS[new[0]](*[y.args[0] for y in new[1:]]))
        if op == 'mat':
            return self.matrix(new)
        if all(p is q for p, q in zip(new, a)):
            return x
        return t.rebuild(op, new)

    def get(self, b, k):
        els = self.elements(b)
        c = t.as_const(k)
        if els is not None and c is None and k.op in ('poly', 'param', 'attr', 'index', 'res', 'call', 'len', 'psum'):
            c = self.number(k, range(len(els)) if els else None)
        if els is not None and isinstance(c, int):
            if -len(els) <= c < len(els):
                return els[c]
            if self.strict:
                raise NoModel       # the specification itself fails here
            return mk('undef', 'range')
        while b.op in ('store', 'dput') and k.op in ('num', 'str', 'enum', 'none') and \
                b.args[1].op in ('num', 'str', 'enum', 'none'):
            if b.args[1] is k:
                return b.args[2]
            b = b.args[0]
        while b.op == 'dput':
            if self.truth(t.eq(k, b.args[1])):
                return b.args[2]
            b = b.args[0]
        if self.strict and b in self.ints and (self.ints[b] == 0 or isinstance(c, int) and c >= self.ints[b]):
            raise NoModel           # so here
        if isinstance(c, int) and c < 0 and b.op in ('attr', 'param', 'call', 'res', 'post', 'index'):
            n = self.len_of(b)
            if n + c >= 0:
                return t.index(b, num(n + c))
        return t.index(b, k)

    def put(self, c, k, v):
        if k.op == 'sliceobj':
            from hsa.interp import store
            return store(c, k, v)
        els = self.elements(c)
        kc = t.as_const(k)
        if els is None and isinstance(kc, int) and c.op == 'attr' and isinstance(t.FIXED_LENGTH.get(c.args[1]), int):
            els = [t.index(c, num(j)) for j in range(t.FIXED_LENGTH[c.args[1]])]
        if els is not None and isinstance(kc, int) and -len(els) <= kc < len(els):
            els = list(els)
            els[kc] = v
            return self.seq_of(els)
        # writes to distinct constant places commute
        base, w = c, {}
        while base.op == 'store' and base.args[1].op == 'num':
            w.setdefault(base.args[1], base.args[2])
            base = base.args[0]
        if k.op == 'num':
            if kc < 0:
                n = self.len_of(base)
                if n + kc >= 0:
                    k = num(n + kc)
            w[k] = v
            r = base
            for q in sorted(w, key=lambda z: z.args[0]):
                if w[q] is not t.index(base, q):
                    r = mk('store', r, q, w[q])
            return r
        if c.op == 'store' and c.args[1] is k:
            c = c.args[0]
        return mk('store', c, k, v)

    def dput(self, c, k, v):
        base, w = c, {}
        while base.op == 'dput':
            w.setdefault(base.args[1], base.args[2])
            base = base.args[0]
        w[k] = v
        r = base
        for q in sorted(w, key=lambda z: structural(z, _digests)):
            r = mk('dput', r, q, w[q])
        return r

    def call(self, a):
        name, args = a[0], a[1:]
        consts = [t.as_const(y) for y in args if isinstance(y, T)]
        if name in ('any', 'all') and len(args) == 1:
            els = self.elements(args[0])
            if els is not None:
                vals = [self.truth(t.truthy(e)) for e in els]
                return t.boolc(any(vals) if name == 'any' else all(vals))
        if name == '.index' and len(args) == 2 and args[0].op in OPAQUE + ('seq',):
            els = self.elements(args[0])
            if els is None:
                els = [self.settle(t.index(args[0], num(k))) for k in range(self.len_of(args[0]))]
            for k, e in enumerate(els):
                if self.truth(t.eq(e, args[1])):
                    return num(k)
            raise NoModel           # not there
        if name == '.split' and len(args) == 2 and args[0].op == 'call' and args[0].args[0] == '.replace' and \
                len(args[0].args) == 4 and args[0].args[3] is args[1]:
            x, old, new = args[0].args[1:]
            if old.op == new.op == 'str' and self.sign(mk('call', '.count', x, new)) == 0:
                return mk('call', '.split', x, old)     # the separator occurs only where it was put
        if name in STRING_MAPS and args and all(isinstance(y, T) and y.op == 'str' for y in args) and \
                (len(args) == 1 or args[1].args[0]):
            r = STRING_MAPS[name](*[y.args[0] for y in args])
            if isinstance(r, list):
                return self.seq_of([mk('str', q) for q in r])
            return mk('str', r) if isinstance(r, str) else num(r)
        if name == 'int' and len(args) == 1 and args[0].op == 'str' and args[0].args[0].isdigit():
            return num(int(args[0].args[0]))
        if name == 'sum' and len(args) == 1:
            els = self.elements(args[0])
            if els is not None:
                tot = ZERO
                for e in els:
                    tot = t.add(tot, e)
                return tot
        if name in ('min', 'max') and args:
            els = self.elements(args[0]) if len(args) == 1 else list(args)
            if els and all(isinstance(e, T) and e.op != 'kw' for e in els):
                return self.pick(name, els)
        if name == 'abs' and len(args) == 1 and consts[0] is not None:
            return num(abs(consts[0]))
        if name == 'int' and len(args) == 1 and consts[0] is not None:
            return num(math.trunc(consts[0]))
        if name in ('round', 'float', 'math.floor', 'math.ceil', 'np.abs') and len(args) == 1 and consts[0] is not None:
            return num(NUMERIC[name](consts[0]))
        if name in ('floordiv', 'mod') and len(args) == 2 and None not in consts and consts[1] != 0:
            return num(consts[0] // consts[1] if name == 'floordiv' else consts[0] % consts[1])
        if name == 'pow' and len(args) == 2 and isinstance(consts[1], int) and 0 <= consts[1] <= MAX_ITER:
            r = t.ONE
            for _ in range(consts[1]):
                r = t.mul(r, args[0])
            return r
        if name in ('set', 'frozenset') and len(args) == 1:
            els = self.elements(args[0])
            if els is not None:
                return mk('call', name, self.seq_of(sorted(set(els), key=lambda z: structural(z, _digests))))
        return None

    def pick(self, name, els):
        best = els[0]
        for e in els[1:]:
            if e is best:
                continue
            d = t.sub(e, best)
            c = t.as_const(d)
            if e is t.INF or best is t.neg(t.INF):
                s = 1
            elif best is t.INF or e is t.neg(t.INF):
                s = -1
            else:
                s = self.sign(d) if c is None else c
            if s > 0 and name == 'max' or s < 0 and name == 'min':
                best = e
        return best

    def matrix(self, a):
        'a compressed matrix as the collection of its entries'
        f, data, inds, ptr, rows, cols = a
        d, i, p = self.elements(data), self.elements(inds), self.elements(ptr)
        if d is None or i is None or p is None or len(d) != len(i):
            return mk('mat', *a)
        ptr_ = [t.as_const(q) for q in p]
        if not ptr_ or any(not isinstance(q, int) or not 0 <= q <= len(d) for q in ptr_) or ptr_[0] != 0 or \
                any(x > y for x, y in zip(ptr_, ptr_[1:])):
            return mk('mat', *a)
        ent = {}
        for r in range(len(ptr_) - 1):
            for k in range(ptr_[r], ptr_[r + 1]):
                key = (r, i[k])
                ent[key] = t.add(ent[key], d[k]) if key in ent else d[k]
        ent = {k: v for k, v in ent.items() if v is not ZERO}
        parts = [mk('entry', num(r), c, ent[(r, c)]) for r, c in
                 sorted(ent, key=lambda z: (z[0], structural(z[1], _digests)))]
        return mk('entries', f, num(len(ptr_) - 1), mk('tail', num(len(d) - ptr_[-1])), rows, cols, *parts)


def rounded(x):
    'rounding of the chosen values is not a difference'
    c = t.as_const(x)
    return num(round(c, 12)) if isinstance(c, float) and abs(c) > 1e-10 else x


# ---------------------------------------------------------------- effects under an interpretation

def of_none(x):
    'does a value depend on a part of None?'
    return any(y.op in ('attr', 'index', 'len') and y.args[0] is NONE or
               y.op in ('call', 'res') and str(y.args[0]).startswith('.') and len(y.args) > 1 and y.args[1] is NONE
               for y in t.subterms(x))


def undefined(x):
    while x.op in ('attr', 'index') and isinstance(x.args[0], T):
        x = x.args[0]
    return x.op == 'undef' and x.args == ('range',)


def instances(o, m, env, k, out):
    'ground instances of one observable'
    if k < len(o.loops):
        l = o.loops[k]
        n = m.ev(l.count, env)
        if m.strict and of_none(n):
            raise NoModel
        cnt = m.count(n)
        for q in range(MAX_ITER + 1 if cnt is None else cnt):
            if q >= MAX_ITER:
                raise NoModel
            e = m.bind(env, (l.idx, num(q)))
            instances(o, m, e, k + 1, out)
            if l.brk is not FALSE and m.cond(l.brk, e):
                return
        if cnt is None:
            raise NoModel
        return
    if m.cond(o.guard, env):
        if o.kind == 'field':
            try:
                if undefined(m.ev(o.args[0], env)):
                    return      # there is no such place
            except NoModel:
                return
        args = tuple(m.ev(a, env) for a in o.args)
        if m.strict and (any(of_none(a) for a in args) or o.kind == 'callm' and args[0] is NONE):
            raise NoModel       # the specification itself fails here
        out.append(args)
    if len(out) > 200:
        raise NoModel


def collect(obs, m):
    res = {}
    for o in obs:
        lst = res.setdefault((o.kind, o.name), [])
        instances(o, m, {}, 0, lst)
    return res


def goals(diffs):
    'conditions that are worth reaching: where an effect in doubt happens, and where only one side has it'
    out = []
    for d in diffs:
        sides = [o for o in (d.obs, d.other) if o is not None]
        for o in sides:
            out.append((d, [(o, True)]))
        if len(sides) == 2:
            out.append((d, [(sides[0], True), (sides[1], False)]))
            out.append((d, [(sides[1], True), (sides[0], False)]))
    return out


def aim(m, goal):
    for o, want in goal:
        env = {}
        for k, (c, b) in enumerate(o.loops):
            cnt = m.count(m.ev(c, env))
            cnt = 3 if cnt is None else cnt
            if cnt == 0:
                return
            env[mk('idx', ('L', k))] = num(m.rnd('aim', k, min(cnt, MAX_ITER)))
        m.steer(o.guard, env, want)


def avoid(m, o):
    'make the choices under which an effect does not happen'
    todo = [({}, 0)]
    while todo:
        env, k = todo.pop()
        if k < len(o.loops):
            l = o.loops[k]
            cnt = m.count(m.ev(l.count, env))
            for q in range(min(2 if cnt is None else cnt, MAX_ITER)):
                todo.append((m.bind(env, (l.idx, num(q))), k + 1))
        else:
            m.steer(o.guard, env, False)


def allocated(x):
    'whether an object is, or is part of, one that the function creates'
    while x.op in ('attr', 'index') and isinstance(x.args[0], T):
        x = x.args[0]
    return x.op in ('new', 'clone', 'ref')


def reached(m, d):
    'the effects of a difference that happen in this interpretation'
    out = []
    for o in (d.obs, d.other):
        if o is None:
            continue
        try:
            if happens(o, m, {}, 0):
                out.append(o)
        except (NoModel, RecursionError):
            pass
    return out


def happens(o, m, env, k):
    if k < len(o.loops):
        c, b = o.loops[k]
        cnt = m.count(m.ev(c, env))
        for q in range(MAX_ITER if cnt is None else min(cnt, MAX_ITER)):
            e = m.bind(env, (mk('idx', ('L', k)), num(q)))
            if happens(o, m, e, k + 1):
                return True
            if b is not FALSE and m.cond(b, e):
                return False
        return False
    return m.cond(o.guard, env)


class Comparison():
    def __init__(self, impl, spec, diffs, default_field, trace=None):
        self.classes = set()
        for d in diffs:
            o = d.obs or d.other
            self.classes.add((o.kind, o.name))
        self.diffs = diffs
        self.default_field = default_field
        self.trace = trace
        self.verdict = {c: None for c in self.classes}
        self.good = {c: 0 for c in self.classes}
        self.reached = set()
        self.sides = [[o for o in s if (o.kind, o.name) in self.classes] for s in (impl, spec)]
        self.stops = [[o for o in s if o.kind in ('raise', 'fails')] for s in (impl, spec)]
        self.numeric = numbers(impl) | numbers(spec)
        self.divisors = divisors(impl) | divisors(spec)
        self.objs = objects(impl) | objects(spec) | {('attr', a) for a in t.SOLID}
        self.integers = integers(spec)
        # the elements of a sequence of objects are objects
        self.nullable = {x for x in null_tests(impl) | null_tests(spec) if x[0] != 'index' or x not in self.objs}
        self.texts = strings(list(impl) + list(spec))
        self.preds = True           # the specification only ever returns booleans
        self.pending_ret = False
        self.invalid = 0

    def done(self):
        return all(v is False for v in self.verdict.values())

    def try_model(self, seed, goal=()):
        m = Model(seed, self.nullable, self.numeric, self.objs, self.integers, self.texts, self.divisors)
        try:
            if (seed % 3 == 1 or m.lens[-1] > 4) and not self.texts[0]:
                # what the specification asserts holds
                for o in self.stops[1]:
                    if o.kind == 'fails' and not o.loops:
                        avoid(m, o)
            if goal:
                # numbers that select places first, so that conditions about those places can be aimed at
                m0 = Model(seed, self.nullable, self.numeric, self.objs, self.integers, self.texts, self.divisors)
                try:
                    aim(m0, goal)
                    collect(self.sides[1], m0)
                except (NoModel, RecursionError):
                    pass
                m.vals.update(m0.pins)
            aim(m, goal)
            if seed % 2:
                for o in self.stops[1]:
                    avoid(m, o)
            if seed % 3:
                side = self.sides[seed % 2]
                o = side[m.rnd('explore', 'effect', len(side))] if side else None
                if o is not None and not o.loops:
                    for x in o.args:
                        m.explore(x)
            for _ in range(4):
                m.changed = False
                r, st = [None, None], [None, None]
                for k in (1, 0):
                    m.strict = k == 1
                    m.memo.clear()
                    r[k] = collect(self.sides[k], m)
                    st[k] = collect(self.stops[k], m)
                if not m.changed:
                    break
            else:
                self.invalid += 1
                return
        except (NoModel, RecursionError):
            self.invalid += 1
            if self.trace and self.invalid < 3:
                self.trace(None, seed, m, (), ())
            return
        failed = any(v for s in st for v in s.values())
        broken = bool(st[1].get(('fails', 'assert')))       # an assertion of the specification fails
        for c in self.classes:
            if self.verdict[c] is False:
                continue
            a, b = r[0].get(c, []), r[1].get(c, [])
            if c[0] in ('field', 'return') and failed or broken and c[0] != 'fails':
                continue
            if self.equal(m, c, a, b):
                self.good[c] += 1
            else:
                self.verdict[c] = False
                if self.trace:
                    self.trace(c, seed, m, a, b)
        for d in self.diffs:
            o = d.obs or d.other
            if o.kind in ('field', 'return') and failed:
                continue
            if not (d.obs is None or d.obs in self.reached) or not (d.other is None or d.other in self.reached):
                self.reached.update(reached(m, d))

    def equal(self, m, c, a, b):
        if c[0] == 'field':
            fa, fb = ({q[0]: q[1] for q in z} for z in (a, b))
            if a and b and any(len(z) > len(f) for z, f in ((a, fa), (b, fb))):
                # an object of an allocation in a loop stands for many: all that is written to it counts
                for k in set(fa) & set(fb):
                    if allocated(k):
                        d = m.settle(self.default_field(k, c[1]))
                        va, vb = ({m.spelled(d if q[1] is k else q[1]) for q in z if q[0] is k} for z in (a, b))
                        if va != vb:
                            return False
            for k in set(fa) | set(fb):
                d = m.settle(self.default_field(k, c[1]))
                x, y = m.spelled(fa.get(k, d)), m.spelled(fb.get(k, d))
                d = m.spelled(d)
                if not (x is y or x is k and y is d or x is d and y is k):
                    return False
            return True
        if c[0] == 'return':
            va, vb = set(a), set(b)
            if any(q[0].op != 'bool' for q in vb):
                self.preds = False
            if va == vb:
                return True
            if self.preds and len(va) == len(vb) == 1 and m.truth(t.truthy(a[0][0])) == m.truth(t.truthy(b[0][0])):
                self.pending_ret = True
                return True
            return False
        if c[0] == 'fails':
            return bool(a) == bool(b)

        def key(q):
            return [structural(z, _digests) for z in q]
        return sorted(a, key=key) == sorted(b, key=key)

    def run(self, seeds, deadline):
        import time
        seed = 0
        todo = goals(self.diffs)
        for k in range(PER_GOAL * 4):
            for d, g in todo:
                seed += 1
                o = d.obs or d.other
                if k >= PER_GOAL and (d.obs is None or d.obs in self.reached) and \
                        (d.other is None or d.other in self.reached):
                    continue
                if self.verdict[(o.kind, o.name)] is not False and time.time() < deadline:
                    self.try_model(seed, g)
        seed = len(todo) * PER_GOAL
        while seed < seeds and not self.done() and time.time() < deadline:
            seed += 1
            self.try_model(seed)
        if self.trace:
            self.trace(('interpretations', seed, 'invalid', self.invalid, 'used', self.good), 0, None, (), ())
            for d in self.diffs:
                for o in (d.obs, d.other):
                    if o is not None and o not in self.reached and self.verdict[(o.kind, o.name)] is None:
                        self.trace(('never reached', o.text()[:6000]), 0, None, (), ())

    def distinguishes(self, d):
        'whether an interpretation was found that tells the two apart'
        o = d.obs or d.other
        return self.verdict[(o.kind, o.name)] is False

    def confirmed(self, d):
        'whether a difference stands'
        o = d.obs or d.other
        c = (o.kind, o.name)
        if self.verdict[c] is False or self.good[c] < MIN_GOOD:
            return True
        if c[0] == 'return' and self.pending_ret and not self.preds:
            return True
        if any(x in self.reached for x in (d.obs, d.other)):
            return False
        # an effect that hardly any of many interpretations can bring about: its condition is taken to be contradictory
        return self.good[c] < MANY_GOOD or self.invalid > self.good[c]
