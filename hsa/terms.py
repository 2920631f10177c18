'''
Hash-consed value-graph terms.

Every value the abstract interpreter manipulates is an interned term ``T``.  Smart constructors keep terms in a
canonical form, so that two expressions that always denote the same value usually intern to the same object:

* arithmetic is kept as a sum of products ('poly'), commutative on scalars, order-preserving on possible matrices;
* comparisons are kept as a sign condition on one oriented polynomial ('sgn');
* lists/tuples are symbolic sequences ('seq') made of elements, spreads, repetitions over an index and guarded parts;
* merges of control flow are gated by their condition ('ite').

No solver is involved and nothing is executed: this is value numbering with algebraic normalisation.
'''

from fractions import Fraction
import zlib
import itertools

_intern = {}
_uid = itertools.count()


class T():
    '''an interned term'''
    __slots__ = ('op', 'args', 'uid', '_fv', '_opaque')

    def __repr__(self):
        return show(self)


def mk(op, *args):
    '''intern a raw term (no normalisation)'''
    key = (op, args)
    t = _intern.get(key)
    if t is None:
        t = T.__new__(T)
        t.op = op
        t.args = args
        t.uid = next(_uid)
        t._fv = None
        t._opaque = None
        _intern[key] = t
    return t


# ---------------------------------------------------------------- constants

TRUE = mk('bool', True)
FALSE = mk('bool', False)
NONE = mk('none')


def boolc(b):
    return TRUE if b else FALSE


def num(v):
    '''numeric constant'''
    if isinstance(v, bool):
        return boolc(v)
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            return INF if v > 0 else neg(INF)
        if v == int(v) and abs(v) < 2 ** 53:
            v = int(v)
    elif v.__class__ is Fraction and v.denominator == 1:
        v = int(v)
    return mk('num', v)


def _coef(v):
    if isinstance(v, float) and v == v and abs(v) < 2 ** 53 and v == int(v):
        return int(v)
    return v


ZERO = num(0)
ONE = num(1)
INF = mk('sym', 'inf')


def strc(s):
    return mk('str', s)


def sym(*args):
    return mk('sym', *args)


def param(name):
    return mk('param', name)


_fresh = itertools.count()


def new_idx():
    return mk('idx', next(_fresh))


def new_phi(name):
    return mk('phi', next(_fresh), name)


def new_ref(kind):
    return mk('ref', next(_fresh), kind)


# attribute / function names known to denote scalars or integers
INT_ATTRS = {'dims', 'cur_vars_offset', 'cur_step_in_mode', 'num_steps', 'mode_id', 'transition_index', 'cur_step',
             'inputs_count', 'steps', 'step', 'replay_step', 'nnz', 'continuous_steps', 'num_subplots',
             'max_steps_remaining', 'i_index', '#nrows', '#ncols', 'num_calls'}
SCALAR_ATTRS = {'rhs', 'step_size', 'lgg_beta', 'total_secs', 'last_start_time'} | INT_ATTRS
INT_SEQ_ATTRS = {'indices', 'indptr', 'basis_mat_pos', 'input_effects_offsets', 'shape', 'cur_steps_since_start',
                 'bm_indices'}
FLOAT_SEQ_ATTRS = {'data', 'u_constraints_rhs', 'guard_rhs'}
SCALAR_CALLS = {'len', 'abs', 'min', 'max', 'int', 'float', 'round', 'np.linalg.norm', 'norm', 'math.exp',
                'math.ceil', 'math.floor', 'floordiv', 'mod', 'np.abs', 'math.sqrt', 'sp.sparse.linalg.norm',
                'math.cos', 'math.sin', 'time.time'}
INT_CALLS = {'len', 'int', 'floordiv', 'math.ceil', 'math.floor'}
SCALAR_PARAMS = set()
INT_PARAMS = set()


def is_int(t):
    '''is this term known to be an integer?'''
    op = t.op
    if op == 'num':
        return isinstance(t.args[0], int)
    if op in ('idx', 'len', 'ncols'):
        return True
    if op == 'attr':
        return t.args[1] in INT_ATTRS
    if op == 'param':
        return t.args[0] in INT_PARAMS
    if op == 'index':
        b = t.args[0]
        return b.op == 'attr' and b.args[1] in INT_SEQ_ATTRS
    if op == 'call':
        return t.args[0] in INT_CALLS
    if op == 'poly':
        return all(isinstance(c, int) and all(is_int(a) for a in m) for m, c in t.args)
    if op == 'psum':
        return is_int(t.args[2])
    if op == 'ite':
        return is_int(t.args[1]) and is_int(t.args[2])
    return False


def is_scalar(t):
    '''is this term known to be a scalar (so products with it commute)?'''
    op = t.op
    if op in ('num', 'idx', 'len', 'ncols'):
        return True
    if op == 'sym':
        return t is INF
    if op == 'attr':
        return t.args[1] in SCALAR_ATTRS
    if op == 'param':
        return t.args[0] in SCALAR_PARAMS or t.args[0] in INT_PARAMS
    if op == 'index':
        b = t.args[0]
        if b.op == 'attr' and b.args[1] in (INT_SEQ_ATTRS | FLOAT_SEQ_ATTRS):
            return True
        return is_int(t)
    if op == 'call':
        return t.args[0] in SCALAR_CALLS
    if op == 'poly':
        return all(all(is_scalar(a) for a in m) for m, _ in t.args)
    if op in ('psum', 'red'):
        return True
    if op == 'inv':
        return is_scalar(t.args[0])
    if op == 'ite':
        return is_scalar(t.args[1]) and is_scalar(t.args[2])
    return False


# ---------------------------------------------------------------- polynomials

def _poly_items(t):
    if t.op == 'poly':
        return t.args
    if t.op == 'num':
        return () if t.args[0] == 0 else (((), t.args[0]),)
    return (((t,), 1),)


def _norm_mono(atoms):
    sc = [a for a in atoms if is_scalar(a)]
    ns = [a for a in atoms if not is_scalar(a)]
    # cancel x * inv(x)
    changed = True
    while changed:
        changed = False
        for a in sc:
            if a.op == 'inv' and a.args[0] in sc:
                sc.remove(a)
                sc.remove(a.args[0])
                changed = True
                break
    sc.sort(key=lambda a: a.uid)
    return tuple(sc + ns)


def mkpoly(items):
    '''build a polynomial from (mono, coef) items'''
    d = {}
    for m, c in items:
        d[m] = d.get(m, 0) + c
    out = [(m, _coef(c)) for m, c in d.items() if c != 0]
    if not out:
        return ZERO
    if len(out) == 1:
        m, c = out[0]
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1:
            return m[0]
    out.sort(key=lambda mc: tuple(a.uid for a in mc[0]))
    return mk('poly', *out)


def add(a, b):
    if a.op == 'ite' and b.op == 'ite' and a.args[0] is b.args[0]:
        return ite(a.args[0], add(a.args[1], b.args[1]), add(a.args[2], b.args[2]))
    if a.op == 'ite':
        return ite(a.args[0], add(a.args[1], b), add(a.args[2], b))
    if b.op == 'ite':
        return ite(b.args[0], add(a, b.args[1]), add(a, b.args[2]))
    return mkpoly(_poly_items(a) + _poly_items(b))


def mul(a, b):
    if a.op == 'ite':
        return ite(a.args[0], mul(a.args[1], b), mul(a.args[2], b))
    if b.op == 'ite':
        return ite(b.args[0], mul(a, b.args[1]), mul(a, b.args[2]))
    if a is ZERO and (is_scalar(b)):
        return ZERO
    if b is ZERO and (is_scalar(a)):
        return ZERO
    items = []
    for m1, c1 in _poly_items(a):
        for m2, c2 in _poly_items(b):
            items.append((_norm_mono(m1 + m2), c1 * c2))
    return mkpoly(items)


def neg(a):
    return mul(num(-1), a)


def sub(a, b):
    return add(a, neg(b))


def inv(a):
    if a.op == 'num' and a.args[0] != 0:
        return num(1.0 / a.args[0])
    if a.op == 'poly' and len(a.args) == 1:
        m, c = a.args[0]
        r = num(1.0 / c)
        for at in m:
            r = mul(r, inv(at))
        return r
    if a.op == 'inv':
        return a.args[0]
    if a.op == 'ite':
        return ite(a.args[0], inv(a.args[1]), inv(a.args[2]))
    return mk('inv', a)


def div(a, b):
    return mul(a, inv(b))


def as_const(t):
    '''numeric value of a constant term, or None'''
    if t.op == 'num':
        return t.args[0]
    return None


# ---------------------------------------------------------------- booleans

BOOL_OPS = {'bool', 'not', 'and', 'or', 'sgn', 'eq', 'isnone', 'isinst', 'truthy', 'exists', 'in', 'boolcall'}


def is_bool(t):
    if t.op == 'ite':
        return is_bool(t.args[1]) and is_bool(t.args[2])
    return t.op in BOOL_OPS


_not_memo = {}
_junct_memo = {}


def bnot(a):
    r = _not_memo.get(a)
    if r is None:
        r = _not_memo[a] = _bnot(a)
    return r


def _bnot(a):
    if a.op == 'bool':
        return boolc(not a.args[0])
    if a.op == 'not':
        return a.args[0]
    if a.op == 'sgn':
        return sgn(a.args[0], frozenset({-1, 0, 1}) - a.args[1])
    if a.op == 'and':
        return bor(*[bnot(x) for x in a.args])
    if a.op == 'or':
        return band(*[bnot(x) for x in a.args])
    if a.op == 'ite':
        return ite(a.args[0], bnot(a.args[1]), bnot(a.args[2]))
    return mk('not', a)


def _junct(op, unit, zero, args):
    out = []
    for a in args:
        if a.op == 'ite':
            c, x, y = a.args
            a = bor(band(c, x), band(bnot(c), y))
        if a.op == op:
            out.extend(a.args)
        else:
            out.append(a)
    res = {}
    sgns = {}
    for a in out:
        if a is unit:
            continue
        if a is zero:
            return zero
        if a.op == 'sgn':
            p, m = a.args
            if p in sgns:
                sgns[p] = (sgns[p] & m) if op == 'and' else (sgns[p] | m)
            else:
                sgns[p] = m
            continue
        res[a] = True
    for p, m in sgns.items():
        if not m:
            if op == 'and':
                return zero
            continue
        if len(m) == 3:
            if op == 'or':
                return zero
            continue
        res[mk('sgn', p, m)] = True
    for a in res:
        if bnot(a) in res:
            return zero
    # absorption: a & (a | b) = a, a & (!a | b) = a & b
    other = 'or' if op == 'and' else 'and'
    final = []
    for a in res:
        if a.op == other:
            if any(x in res for x in a.args):
                continue
            keep = [x for x in a.args if bnot(x) not in res]
            if len(keep) != len(a.args):
                na = bor(*keep) if other == 'or' else band(*keep)
                rest = [r for r in res if r is not a]
                return _junct(op, unit, zero, rest + [na])
        final.append(a)
    if not final:
        return unit
    if len(final) == 1:
        return final[0]
    final.sort(key=lambda t: t.uid)
    return mk(op, *final)


def band(*args):
    r = _junct_memo.get(('and', args))
    if r is None:
        r = _junct_memo[('and', args)] = _junct('and', TRUE, FALSE, args)
    return r


def bor(*args):
    r = _junct_memo.get(('or', args))
    if r is None:
        r = _junct_memo[('or', args)] = _junct('or', FALSE, TRUE, args)
    return r


def sgn(p, mask):
    '''sign of polynomial p is in mask'''
    if p.op == 'ite':
        return ite(p.args[0], sgn(p.args[1], mask), sgn(p.args[2], mask))
    if p.op == 'num':
        v = p.args[0]
        return boolc((v > 0) - (v < 0) in mask)
    mask = frozenset(mask)
    if not mask:
        return FALSE
    if len(mask) == 3:
        return TRUE
    # the length of something is never negative
    if p.op == 'len':
        if mask == frozenset({0, 1}):
            return TRUE
        if mask == frozenset({-1}):
            return FALSE
        if mask == frozenset({-1, 1}):
            mask = frozenset({1})
        if mask == frozenset({-1, 0}):
            mask = frozenset({0})
    # orient: leading monomial (smallest key that is not constant) positive
    items = _poly_items(p)
    lead = [c for m, c in items if m != ()][0]
    # scale so that the leading coefficient is 1 in absolute value (keeps sign)
    scale = abs(lead)
    if lead < 0:
        p = mkpoly([(m, -c) for m, c in items])
        mask = frozenset(-x for x in mask)
    if scale != 1 and all(isinstance(c, float) or c % scale == 0 for _, c in items if isinstance(scale, int)):
        try:
            p = mkpoly([(m, _coef(c / scale)) for m, c in _poly_items(p)])
        except (OverflowError, ZeroDivisionError):
            pass
    if is_int(p):
        # p <= 0 -> p - 1 < 0 ; p >= 0 -> p + 1 > 0
        if mask == frozenset({-1, 0}):
            return _sgn_len(sub(p, ONE), frozenset({-1}))
        if mask == frozenset({0, 1}):
            return _sgn_len(add(p, ONE), frozenset({1}))
    return mk('sgn', p, mask)


def _sgn_len(p, mask):
    if p.op == 'len' and mask == frozenset({-1}):
        return FALSE
    # len(x) - 1 < 0  <=> len(x) == 0
    items = dict(_poly_items(p))
    if mask == frozenset({-1}) and len(items) == 2 and items.get(()) == -1:
        (m,) = [k for k in items if k != ()]
        if len(m) == 1 and m[0].op == 'len' and items[m] == 1:
            return mk('sgn', m[0], frozenset({0}))
    return mk('sgn', p, mask)


def lt(a, b):
    return sgn(sub(a, b), {-1})


def le(a, b):
    return sgn(sub(a, b), {-1, 0})


def numeric_like(t):
    return t.op in ('num', 'poly', 'len', 'idx', 'ncols', 'psum', 'red') or is_scalar(t)


DISTINCT_CONST = ('num', 'str', 'bool', 'none', 'enum')


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == 'ite':
        return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op == 'ite':
        return ite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]))
    if a is NONE or b is NONE:
        return isnone(b if a is NONE else a)
    if a.op in DISTINCT_CONST and b.op in DISTINCT_CONST:
        return FALSE if a is not b else TRUE
    if a is TRUE or b is TRUE:
        return truthy(b if a is TRUE else a)
    if a is FALSE or b is FALSE:
        return bnot(truthy(b if a is FALSE else a))
    if a.op == 'seq' and b.op == 'seq' and all(s.op == 'el' for s in a.args + b.args):
        if len(a.args) != len(b.args):
            return FALSE
        return band(*[eq(x.args[0], y.args[0]) for x, y in zip(a.args, b.args)])
    if numeric_like(a) or numeric_like(b):
        return sgn(sub(a, b), {0})
    x, y = sorted((a, b), key=lambda t: t.uid)
    return mk('eq', x, y)


NEVER_NONE = {'seq', 'num', 'str', 'bool', 'new', 'ref', 'poly', 'len', 'mat', 'sgn', 'not', 'and', 'or', 'fmt',
              'idx', 'closure', 'red', 'psum', 'enum', 'clone', 'store', 'slice', 'ncols', 'dictc', 'identity',
              'storeloop'}


RETURNS_SOME = set()    # functions whose result is never None
NONE_FIELDS = set()     # (class, attribute) that is None in a new object
MEMO = set()        # functions that keep their result: repeating a call changes nothing
DENSE_ATTRS = ('equations',)       # attributes that hold two-dimensional numpy arrays
FIXED_LENGTH = {}   # attribute -> length of whatever it holds
CONSTRUCTOR = {}    # (class, attribute) -> position of the constructor argument it always holds
LISTS = set()       # attributes that only ever hold lists
SOLID = set()       # attributes that hold None or something that is never empty


def lookup(d, k):
    'd.get(k); dicts that are read in this way hold no None'
    return ite(mk('in', k, d), index(d, k), NONE)


def isnone(a):
    if a is NONE:
        return TRUE
    if a.op in ('call', 'res') and a.args[0] in RETURNS_SOME:
        return FALSE
    if a.op in NEVER_NONE or is_bool(a):
        return FALSE
    if a.op == 'ite':
        if a.args[0].op == 'in' and a is lookup(*a.args[0].args[::-1]):
            return bnot(a.args[0])
        return ite(a.args[0], isnone(a.args[1]), isnone(a.args[2]))
    if a.op == 'first':
        # value at the first index that satisfies a condition: None-ness decided if uniform
        v = isnone(a.args[3])
        if v.op == 'bool':
            return v
    if a.op == 'call' and a.args[0] in ('np.zeros', 'dot', 'np.array', 'np.identity', 'len', 'hstack'):
        return FALSE
    return mk('isnone', a)


# results / attributes that hold "an object or None" (never a falsy non-None value)
OBJECT_OR_NONE = {'get_guard_intersection', 'get_cur_state', 'make_op_transition', 'get_deagg_node', 'lpi', 'cur_node',
                  'parent_node', 'child_node', 'counterexample_none', 'minimize', 'op', 'deagg_node', 'reset_csr',
                  'new_op', 'parent_op', 'transition', 'node', 't_lpi'}


def truthy(a):
    if a.op in BOOL_OPS:
        return a
    if a is NONE:
        return FALSE
    if a.op == 'num':
        return boolc(a.args[0] != 0)
    if a.op == 'str':
        return boolc(a.args[0] != '')
    if a.op in ('seq', 'slice'):
        return sgn(length(a), {1})
    if a.op in ('new', 'clone', 'closure', 'enum') or (a.op == 'ref'):
        return TRUE
    if a.op == 'ite':
        return ite(a.args[0], truthy(a.args[1]), truthy(a.args[2]))
    if a.op in ('poly', 'len', 'idx') or is_scalar(a):
        return sgn(a, {-1, 1})
    if (a.op == 'call' or a.op == 'res') and a.args[0].lstrip('.').split('.')[-1] in OBJECT_OR_NONE:
        return bnot(isnone(a))
    if a.op == 'attr' and a.args[1] in OBJECT_OR_NONE:
        return bnot(isnone(a))
    return mk('truthy', a)


DISJOINT = (frozenset(('str', 'list', 'tuple', 'dict', 'set', 'int', 'float', 'ndarray', 'csr_matrix', 'csc_matrix')),
            frozenset(('Add', 'Mul', 'Symbol', 'Number')))
DESCENDANTS = {}     # class of the program -> its subclasses and itself


def disjoint_classes(a, b):
    'can no value be an instance of both classes?'
    if a == b:
        return False
    if a in DESCENDANTS and b in DESCENDANTS:
        return not DESCENDANTS[a] & DESCENDANTS[b]
    return any(a in g and b in g for g in DISJOINT)


def isinst(a, cls):
    if a.op == 'ite':
        return ite(a.args[0], isinst(a.args[1], cls), isinst(a.args[2], cls))
    if a.op == 'new':
        if a.args[0] == cls:
            return TRUE
        return FALSE
    if a is NONE:
        return FALSE
    return mk('isinst', a, cls)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if is_bool(a) and is_bool(b):
        return bor(band(c, a), band(bnot(c), b))
    if flipped(c):
        return ite(bnot(c), b, a)
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if a.op == 'seq' and b.op == 'seq':
        return seq_ite(c, a, b)
    # a leaf that occurs on both levels
    if a.op == 'ite' and (a.args[1] is b or a.args[2] is b):
        d, x, y = a.args
        return ite(band(c, d), x, b) if y is b else ite(band(c, bnot(d)), y, b)
    if b.op == 'ite' and (b.args[1] is a or b.args[2] is a):
        d, x, y = b.args
        return ite(bor(c, d), a, y) if x is a else ite(bor(c, bnot(d)), a, x)
    return mk('ite', c, a, b)


def flipped(c):
    'whether a gate is written the other way around (one orientation per condition)'
    if c.op == 'not':
        return True
    if c.op in ('sgn', 'and', 'or'):
        n = bnot(c)
        return n.uid < c.uid and n.op != 'bool' and bnot(n) is c
    return False


def exists(idx, count, cond):
    '''exists idx in [0, count): cond'''
    if cond is FALSE or count is ZERO:
        return FALSE
    if count.op == 'ite':
        return ite(count.args[0], exists(idx, count.args[1], cond), exists(idx, count.args[2], cond))
    if cond is TRUE:
        return sgn(count, {1}) if not (count.op == 'sgn') else count
    if cond.op == 'or':
        return bor(*[exists(idx, count, c) for c in cond.args])
    if idx not in free(cond) and cond.op != 'opaque':
        return band(cond, sgn(count, {1}))
    if cond.op == 'and':
        # pull out the idx-free conjuncts
        inner = [c for c in cond.args if idx in free(c)]
        outer = [c for c in cond.args if idx not in free(c)]
        if outer:
            return band(*(outer + [exists(idx, count, band(*inner))]))
    return mk('exists', idx, count, cond)


# ---------------------------------------------------------------- sequences

def el(v):
    return mk('el', v)


def seq(*segs):
    out = []
    for s in segs:
        if s.op == 'seq':
            out.extend(s.args)
        elif s.op == 'spread' and s.args[0].op == 'seq':
            out.extend(s.args[0].args)
        elif s.op == 'spread' and s.args[0].op == 'ite':
            c, x, y = s.args[0].args
            out.append(condseg(c, seq(spread(x)), seq(spread(y))))
        elif s.op == 'rep' and (s.args[2].op == 'seq' and not s.args[2].args or s.args[1] is ZERO):
            continue
        elif s.op == 'rep' and s.args[2].op == 'seq' and s.args[1].op == 'num' and s.args[0] not in free(s.args[2]) \
                and isinstance(s.args[1].args[0], int) and 0 <= s.args[1].args[0] <= 8:
            for _ in range(s.args[1].args[0]):
                out.extend(s.args[2].args)
        elif s.op == 'condseg':
            c, x, y = s.args
            if c is TRUE:
                out.extend(x.args)
            elif c is FALSE:
                out.extend(y.args)
            elif x is y:
                out.extend(x.args)
            else:
                push_cond(out, c, x, y)
        else:
            out.append(s)
    return mk('seq', *out)


def push_cond(out, c, x, y):
    'append a guarded part, merging nested and adjacent guards'
    for _ in range(4):
        if len(x.args) == 1 and x.args[0].op == 'condseg' and x.args[0].args[2] is y:
            c, x = band(c, x.args[0].args[0]), x.args[0].args[1]
        elif len(x.args) == 1 and x.args[0].op == 'condseg' and x.args[0].args[1] is y:
            c, x = band(c, bnot(x.args[0].args[0])), x.args[0].args[2]
        elif len(y.args) == 1 and y.args[0].op == 'condseg' and y.args[0].args[1] is x:
            c, y = bor(c, y.args[0].args[0]), y.args[0].args[2]
        elif len(y.args) == 1 and y.args[0].op == 'condseg' and y.args[0].args[2] is x:
            c, y = bor(c, bnot(y.args[0].args[0])), y.args[0].args[1]
        else:
            break
    if flipped(c):
        c, x, y = bnot(c), y, x
    if out and out[-1].op == 'condseg' and out[-1].args[0] is c:
        p = out.pop()
        x = mk('seq', *(p.args[1].args + x.args))
        y = mk('seq', *(p.args[2].args + y.args))
    if c is TRUE:
        out.extend(x.args)
    elif c is FALSE:
        out.extend(y.args)
    elif x is y:
        out.extend(x.args)
    else:
        out.append(mk('condseg', c, x, y))


EMPTY = seq()


def spread(t):
    # an element-wise copy of t: rep(i < len t, t[i]) is the canonical form
    if t.op in ('seq',):
        return t
    if t.op == 'phi':
        return mk('spread', t)
    i = new_idx()
    return mk('rep', i, length(t), seq(el(index(t, i))))


def rep(idx, count, body):
    if body.op != 'seq':
        raise TypeError('rep body must be seq')
    return mk('rep', idx, count, body)


def condseg(c, a, b):
    return mk('condseg', c, a, b)


def seq_ite(c, a, b):
    '''merge two sequences under a gate, keeping the common prefix'''
    n = 0
    while n < len(a.args) and n < len(b.args) and a.args[n] is b.args[n]:
        n += 1
    ra = list(a.args[n:])
    rb = list(b.args[n:])
    suf = []
    while ra and rb and ra[-1] is rb[-1]:
        suf.insert(0, ra.pop())
        rb.pop()
    # element-wise when all elements
    if len(ra) == len(rb) and all(s.op == 'el' for s in ra + rb):
        mid = [el(ite(c, x.args[0], y.args[0])) for x, y in zip(ra, rb)]
    else:
        mid = [condseg(c, mk('seq', *ra), mk('seq', *rb))]
    return seq(*(list(a.args[:n]) + mid + suf))


def seg_len(s):
    if s.op == 'el':
        return ONE
    if s.op == 'spread':
        return length(s.args[0])
    if s.op == 'rep':
        i, n, body = s.args
        return psum(i, n, length(body))
    if s.op == 'condseg':
        return ite(s.args[0], length(s.args[1]), length(s.args[2]))
    raise TypeError(s.op)


def psum(i, n, body):
    '''sum over i in [0, n) of body(i)'''
    if n is ZERO:
        return ZERO
    if n.op == 'ite':
        return ite(n.args[0], psum(i, n.args[1], body), psum(i, n.args[2], body))
    if i not in free(body):
        return mul(n, body)
    if body.op == 'ite' and i not in free(body.args[0]):
        return ite(body.args[0], psum(i, n, body.args[1]), psum(i, n, body.args[2]))
    items = _poly_items(body)
    if len(items) > 1:
        tot = ZERO
        for m, c in items:
            tot = add(tot, psum(i, n, mkpoly([(m, c)])))
        return tot
    if len(items) == 1:
        m, c = items[0]
        if c != 1:
            return mul(num(c), psum(i, n, mkpoly([(m, 1)])))
        out = [a for a in m if i not in free(a)]
        inn = [a for a in m if i in free(a)]
        if out and all(is_scalar(a) for a in out):
            r = psum(i, n, mkpoly([(tuple(inn), 1)]))
            for a in out:
                r = mul(a, r)
            return r
    j = mk('bidx', 0)
    return mk('psum', i, n, body)


def length(t):
    '''len(t)'''
    if t.op == 'seq':
        tot = ZERO
        for s in t.args:
            tot = add(tot, seg_len(s))
        return tot
    if t.op == 'ite':
        return ite(t.args[0], length(t.args[1]), length(t.args[2]))
    if t.op == 'str':
        return num(len(t.args[0]))
    if t.op == 'mat':
        return t.args[4]
    if t.op == 'slice':
        b, lo, hi = t.args
        lo_ = ZERO if lo is NONE else lo
        hi_ = length(b) if hi is NONE else hi
        if hi_.op == 'num' and hi_.args[0] < 0:
            hi_ = add(length(b), hi_)
        return sub(hi_, lo_)
    if t.op == 'attr' and t.args[1] in FIXED_LENGTH:
        k = FIXED_LENGTH[t.args[1]]
        return attr(t.args[0], k) if isinstance(k, str) else num(k)
    if t.op == 'attr' and t.args[1] == 'indices':
        return mk('len', attr(t.args[0], 'data'))
    if t.op == 'attr' and t.args[1] == 'indptr':
        b = t.args[0]
        if is_csc(b):
            return add(shape1(b), ONE)
        return add(length(b), ONE)
    if t.op == 'poly' and len(t.args) == 1:
        m, _ = t.args[0]
        ns = [a for a in m if not is_scalar(a)]
        if len(ns) == 1:
            return length(ns[0])
    if t.op == 'call' and t.args[0] in ('.toarray', '.tolist', '.copy', 'enumerate', 'np.negative', '.items', '.keys',
                                        '.values'):
        return length(t.args[1])
    if t.op == 'call' and t.args[0] in ('np.zeros', 'np.ones', 'identity', 'csrzeros') and len(t.args) > 1:
        s = t.args[1]
        if s.op == 'seq':
            return index(s, ZERO)
        return s
    if t.op == 'store' or t.op == 'storeloop':
        return length(t.args[0])
    if t.op == 'tr':
        return shape1(t.args[0])
    return mk('len', t)


def is_csc(b):
    return (b.op == 'attr' and b.args[1].endswith('_csc')) or (b.op == 'mat' and b.args[0] == 'csc') \
        or (b.op == 'param' and 'csc' in b.args[0])


def shape1(t):
    '''t.shape[1]'''
    if t.op == 'ite':
        return ite(t.args[0], shape1(t.args[1]), shape1(t.args[2]))
    if t.op == 'mat':
        return t.args[5]
    if t.op == 'tr':
        return length(t.args[0])
    if t.op == 'poly' and len(t.args) == 1:
        m, _ = t.args[0]
        ns = [a for a in m if not is_scalar(a)]
        if len(ns) == 1:
            return shape1(ns[0])
    if t.op == 'call' and t.args[0] in ('.toarray', '.copy'):
        return shape1(t.args[1])
    if t.op == 'call' and t.args[0] == 'identity':
        return t.args[1]
    if t.op == 'call' and t.args[0] == 'csrzeros' and t.args[1].op == 'seq':
        return index(t.args[1], ONE)
    if t.op == 'slice':
        return shape1(t.args[0])
    return mk('ncols', t)


NT_FIELDS = {}   # namedtuple class -> field list


def index(b, k):
    '''b[k]'''
    if b.op == 'ite':
        return ite(b.args[0], index(b.args[1], k), index(b.args[2], k))
    if k.op == 'ite':
        return ite(k.args[0], index(b, k.args[1]), index(b, k.args[2]))
    if b.op == 'attr' and b.args[1] == 'shape' and k.op == 'num':
        if k.args[0] == 0:
            return length(b.args[0])
        if k.args[0] == 1:
            return shape1(b.args[0])
    if b.op == 'call' and b.args[0] == 'identity' and len(b.args) == 2 and k.op not in ('seq', 'sliceobj', 'slice') and \
            not (k.op == 'num' and k.args[0] < 0):
        i = new_idx()
        return seq(rep(i, b.args[1], mk('seq', el(ite(eq(i, k), ONE, ZERO)))))
    if b.op == 'attr' and b.args[1] == 'indptr' and k.op == 'num':
        if k.args[0] == 0:
            return ZERO
        if k.args[0] == -1:
            return length(attr(b.args[0], 'data'))
    if k.op == 'seq' and len(k.args) == 2 and all(s.op == 'el' and s.args[0].op not in ('sliceobj',) for s in k.args):
        return index(index(b, k.args[0].args[0]), k.args[1].args[0])
    if k.op == 'seq' and len(k.args) == 2 and b.op == 'attr' and b.args[1] in DENSE_ATTRS and \
            k.args[0].args[0].op != 'sliceobj' and k.args[1].args[0].op == 'sliceobj' and \
            k.args[1].args[0].args[2] is NONE:
        return slice_(index(b, k.args[0].args[0]), *k.args[1].args[0].args[:2])
    if b.op == 'seq':
        if k.op == 'num' and isinstance(k.args[0], int):
            n = k.args[0]
            segs = list(b.args)
            if n >= 0:
                for s in segs:
                    if s.op != 'el':
                        if s.op == 'rep' and n == 0 and len(s.args[2].args) == 1 and s.args[2].args[0].op == 'el' \
                                and len(segs) == 1:
                            return subst(s.args[2].args[0].args[0], {s.args[0]: ZERO})
                        if s.op == 'rep' and len(segs) == 1 and all(x.op == 'el' for x in s.args[2].args) \
                                and len(s.args[2].args) == 1:
                            return subst(s.args[2].args[0].args[0], {s.args[0]: num(n)})
                        break
                    if n == 0:
                        return s.args[0]
                    n -= 1
            else:
                for s in reversed(segs):
                    if s.op == 'rep' and n == -1:
                        i, cnt, body = s.args
                        if body.args and body.args[-1].op == 'el':
                            last = subst(body.args[-1].args[0], {i: sub(cnt, ONE)})
                            return last
                        break
                    if s.op != 'el':
                        break
                    n += 1
                    if n == 0:
                        return s.args[0]
        # offset into: leading constant-length elements then a rep
        segs = list(b.args)
        if len(segs) == 1 and segs[0].op == 'rep':
            i, cnt, body = segs[0].args
            if len(body.args) == 1 and body.args[0].op == 'el':
                return subst(body.args[0].args[0], {i: k})
    if b.op == 'slice':
        base, lo, _ = b.args
        if not (k.op == 'num' and k.args[0] < 0):
            return index(base, add(ZERO if lo is NONE else lo, k))
    if b.op == 'store':
        base, kk, v = b.args
        if kk is k:
            return v
        d = sub(kk, k)
        if d.op == 'num' and d is not ZERO:
            return index(base, k)
    if b.op == 'poly' and len(b.args) == 1 and k.op != 'sliceobj':
        m, c = b.args[0]
        ns = [a for a in m if not is_scalar(a)]
        if len(ns) == 1:
            r = num(c)
            for a in m:
                if a is not ns[0]:
                    r = mul(r, a)
            return mul(r, index(ns[0], k))
    if b.op == 'call' and b.args[0] in ('.tolist', '.copy'):
        return index(b.args[1], k)
    if b.op == 'index' and b.args[0].op == 'call' and b.args[0].args[0] == '.items' and k.op == 'num' and \
            k.args[0] in (0, 1) and len(b.args[0].args) == 2:
        # the items of a dict are its keys with its values
        return index(mk('call', ('.keys', '.values')[k.args[0]], b.args[0].args[1]), b.args[1])
    if k.op == 'index' and k.args[0].op == 'call' and k.args[0].args[0] == '.keys' and len(k.args[0].args) == 2 and \
            k.args[0].args[1] is b:
        return index(mk('call', '.values', b), k.args[1])
    if b.op == 'new' and b.args[0] in NT_FIELDS and k.op == 'num' and 0 <= k.args[0] < len(b.args) - 1:
        return b.args[1 + k.args[0]]
    return mk('index', b, k)


def slice_(b, lo, hi):
    if b.op == 'ite':
        return ite(b.args[0], slice_(b.args[1], lo, hi), slice_(b.args[2], lo, hi))
    if lo is ZERO:
        lo = NONE
    if lo is NONE and hi is NONE:
        return b
    if hi is not NONE and hi is length(b):
        hi = NONE
        if lo is NONE:
            return b
    if b.op == 'seq' and all(s.op == 'el' for s in b.args):
        def cv(x, d):
            return d if x is NONE else as_const(x)
        l, h = cv(lo, 0), cv(hi, len(b.args))
        if l is not None and h is not None:
            return mk('seq', *b.args[l:h])
    if b.op == 'seq' and as_const(lo) is not None and as_const(lo) > 0 and hi is NONE:
        n = as_const(lo)
        if len(b.args) >= n and all(s.op == 'el' for s in b.args[:n]):
            return mk('seq', *b.args[n:])
    if b.op == 'slice' and b.args[2] is NONE and hi is NONE:
        return slice_(b.args[0], add(ZERO if b.args[1] is NONE else b.args[1], ZERO if lo is NONE else lo), NONE)
    return mk('slice', b, lo, hi)


def attr(b, name):
    if b.op == 'ite':
        return ite(b.args[0], attr(b.args[1], name), attr(b.args[2], name))
    if b.op == 'new' and (b.args[0], name) in NONE_FIELDS:
        return NONE
    if b.op == 'mat':
        if name == 'data':
            return b.args[1]
        if name == 'indices':
            return b.args[2]
        if name == 'indptr':
            return b.args[3]
        if name == 'shape':
            return seq(el(b.args[4]), el(b.args[5]))
    if b.op == 'call' and b.args[0] in ('.copy', 'csc', 'csr') and name == 'shape':
        return attr(b.args[1], name)
    if name == 'T':
        return transpose(b)
    if b.op == 'new' and b.args[0] in NT_FIELDS and name in NT_FIELDS[b.args[0]]:
        return b.args[1 + NT_FIELDS[b.args[0]].index(name)]
    return mk('attr', b, name)


def transpose(b):
    if b.op == 'tr':
        return b.args[0]
    return mk('tr', b)


def concat(a, b):
    '''list concatenation'''
    if a.op == 'ite' and b.op != 'ite':
        return ite(a.args[0], concat(a.args[1], b), concat(a.args[2], b))
    if b.op == 'ite' and a.op != 'ite':
        return seq(*(list(seq(a if a.op == 'seq' else spread(a)).args) + [
            condseg(b.args[0], concat(EMPTY, b.args[1]), concat(EMPTY, b.args[2]))]))
    sa = a if a.op == 'seq' else seq(spread(a))
    sb = b if b.op == 'seq' else seq(spread(b))
    return seq(*(sa.args + sb.args))


def string_choice(p):
    'number of literals that a value is chosen from'
    if p.op == 'ite':
        return string_choice(p.args[1]) + string_choice(p.args[2])
    return 1 if p.op == 'str' else 100


def fmt(parts):
    '''canonical string formatting: merge adjacent literals'''
    chosen = [k for k, p in enumerate(parts) if p.op == 'ite' and string_choice(p) <= 4]
    if len(chosen) == 1:
        k = chosen[0]
        c, a, b = parts[k].args
        return ite(c, fmt(list(parts[:k]) + [a] + list(parts[k + 1:])), fmt(list(parts[:k]) + [b] + list(parts[k + 1:])))
    out = []
    for p in parts:
        if p.op == 'fmt':
            items = p.args
        else:
            items = (p,)
        for q in items:
            if q.op == 'num':
                q = strc(str(q.args[0]))
            if q.op == 'str' and out and out[-1].op == 'str':
                out[-1] = strc(out[-1].args[0] + q.args[0])
            elif q.op == 'str' and q.args[0] == '':
                continue
            else:
                out.append(q)
    if not out:
        return strc('')
    if len(out) == 1 and out[0].op == 'str':
        return out[0]
    return mk('fmt', *out)


# ---------------------------------------------------------------- traversal

def children(t):
    for a in t.args:
        if isinstance(a, T):
            yield a
        elif t.op == 'poly':
            for x in a[0]:
                yield x


def free(t):
    '''set of idx/phi leaves occurring free'''
    if t._fv is None:
        if t.op in ('idx', 'phi'):
            t._fv = frozenset([t])
        else:
            s = set()
            for c in children(t):
                s |= free(c)
            if t.op in ('rep', 'exists', 'psum', 'first', 'lastsuch', 'storeloop', 'red', 'mu', 'argbest', 'filtered', 'stop', 'lam') or \
                    t.op == 'fold':
                b = binder_of(t)
                # the bound variable is not free in the body, but may be in the bound itself (never in practice)
                s -= set(b)
            t._fv = frozenset(s)
    return t._fv


def binder_of(t):
    '''the bound idx/phi leaves of a binding term'''
    if t.op in ('rep', 'exists', 'psum', 'first', 'lastsuch', 'filtered'):
        return (t.args[0],)
    if t.op == 'storeloop':
        return (t.args[1],)
    if t.op == 'red':
        return (t.args[2],)
    if t.op == 'fold':
        return (t.args[0], t.args[1])
    if t.op == 'mu':
        return (t.args[0],) + t.args[1].args
    if t.op == 'stop':
        return (t.args[0],)
    if t.op == 'lam':
        return t.args[0].args
    if t.op == 'argbest':
        return (t.args[0],)
    return ()


_COMM = ('and', 'or', 'poly', 'eq')


def H(x):
    return zlib.crc32(repr(x).encode())


def digest(t, colors, memo):
    'structural hash, independent of interning order; colors maps leaves to labels'
    if t in memo:
        return memo[t]
    if t in colors:
        r = hash(('color', colors[t]))
    elif t.op in ('idx', 'phi'):
        r = H((t.op, t.args[0] if isinstance(t.args[0], tuple) else 'var'))
    elif t.op == 'sgn':
        # the orientation depends on interning order: p < 0 and -p > 0 are one thing
        p, mask = t.args
        r = H(('sgn',) + tuple(sorted(H((digest(q, colors, memo), str(sorted(m)))) for q, m in
                                      ((p, mask), (neg(p), frozenset(-x for x in mask))))))
    else:
        parts = []
        for a in t.args:
            if isinstance(a, T):
                parts.append(digest(a, colors, memo))
            elif t.op == 'poly':
                parts.append(H((tuple(sorted(digest(x, colors, memo) for x in a[0])), str(a[1]))))
            else:
                parts.append(H(str(sorted(a) if isinstance(a, frozenset) else a)))
        if t.op in _COMM:
            parts.sort()
        r = H((t.op,) + tuple(parts))
    memo[t] = r
    return r


def contains_op(t, ops, _memo=None):
    if _memo is None:
        _memo = {}
    if t in _memo:
        return _memo[t]
    r = t.op in ops or any(contains_op(c, ops, _memo) for c in children(t))
    _memo[t] = r
    return r


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    if t in seen:
        return
    seen.add(t)
    yield t
    for c in children(t):
        yield from subterms(c, seen)


def rebuild(op, args):
    '''re-apply the smart constructor of op'''
    if op == 'poly':
        tot = ZERO
        for m, c in args:
            r = num(c)
            for a in m:
                r = mul(r, a)
            tot = add(tot, r)
        return tot
    if op == 'not':
        return bnot(args[0])
    if op == 'and':
        return band(*args)
    if op == 'or':
        return bor(*args)
    if op == 'sgn':
        return sgn(args[0], args[1])
    if op == 'eq':
        return eq(args[0], args[1])
    if op == 'isnone':
        return isnone(args[0])
    if op == 'truthy':
        return truthy(args[0])
    if op == 'isinst':
        return isinst(args[0], args[1])
    if op == 'ite':
        return ite(truthy(args[0]), args[1], args[2])
    if op == 'seq':
        return seq(*args)
    if op == 'spread':
        return seq(spread(args[0])) if args[0].op != 'phi' else mk('spread', args[0])
    if op == 'condseg':
        a, b = args[1], args[2]
        return condseg(truthy(args[0]), a, b)
    if op == 'len':
        return length(args[0])
    if op == 'ncols':
        return shape1(args[0])
    if op == 'index':
        return index(args[0], args[1])
    if op == 'slice':
        return slice_(*args)
    if op == 'attr':
        return attr(*args)
    if op == 'tr':
        return transpose(args[0])
    if op == 'fmt':
        return fmt(args)
    if op == 'inv':
        return inv(args[0])
    if op == 'exists':
        return exists(*args)
    if op == 'psum':
        return psum(*args)
    if op == 'lastsuch':
        return lastsuch(*args)
    if op == 'first':
        return first(*args)
    if op == 'prefix':
        return prefix(*args)
    if op == 'call' and args[0] in ('min', 'max') and len(args) > 2 and \
            all(isinstance(x, T) and x.op not in ('kw', 'seq', 'spread') for x in args[1:]):
        rest = sorted(set(args[1:]), key=lambda q: q.uid)
        return rest[0] if len(rest) == 1 else mk(op, args[0], *rest)
    if op == 'boolcall' and args[0] == 'np.allclose' and len(args) == 3 and args[1] is args[2] and args[1].op == 'num':
        return TRUE
    return mk(op, *args)


def prefix(k, full, init):
    'array whose first k elements are those of full and whose others are those of init'
    if k is length(full):
        return full
    return mk('prefix', k, full, init)


def first(i, n, c, v):
    '''value of v at the first i in [0,n) with c(i)'''
    v = boolform.under(c, v)
    if i not in free(v):
        return v
    if c is TRUE:
        return subst(v, {i: ZERO})
    return mk('first', i, n, c, v)


def lastsuch(i, n, c, v, init):
    '''value of v at the last i in [0,n) with c(i), else init'''
    if i not in free(v):
        return ite(exists(i, n, c), v, init)
    return mk('lastsuch', i, n, c, v, init)


def subst(t, m, memo=None):
    '''substitute leaves (idx / phi / param / any term) by map m'''
    if not m:
        return t
    if memo is None:
        memo = {}
    if t in m:
        return m[t]
    if t in memo:
        return memo[t]
    # quick exit when no key occurs
    keys_leaf = all(k.op in ('idx', 'phi') for k in m)
    if keys_leaf and not (free(t) & set(m)):
        memo[t] = t
        return t
    new = []
    changed = False
    for a in t.args:
        if isinstance(a, T):
            b = subst(a, m, memo)
            changed |= b is not a
            new.append(b)
        elif t.op == 'poly':
            mono = tuple(subst(x, m, memo) for x in a[0])
            changed |= any(x is not y for x, y in zip(mono, a[0]))
            new.append((mono, a[1]))
        else:
            new.append(a)
    r = rebuild(t.op, tuple(new)) if changed else t
    memo[t] = r
    return r


def in_range(x, idx, n):
    'simplify x using 0 <= idx < n'
    m = {}
    for y in subterms(x):
        if y.op == 'sgn' and idx in free(y):
            for sign in (1, -1):
                p = y.args[0] if sign == 1 else neg(y.args[0])
                mask = y.args[1] if sign == 1 else frozenset(-k for k in y.args[1])
                # p = idx - n + c
                c = as_const(add(sub(p, idx), n))
                poss = None
                if c is not None:
                    if c - 1 < 0:
                        poss = frozenset({-1})
                    elif c - 1 == 0:
                        poss = frozenset({-1, 0})
                else:
                    c = as_const(sub(p, idx))
                    if c is not None and c > 0:
                        poss = frozenset({1})
                    elif c is not None and c == 0:
                        poss = frozenset({0, 1})
                if poss is not None:
                    r = mask & poss
                    if not r:
                        m[y] = FALSE
                    elif r == poss:
                        m[y] = TRUE
    return subst(x, m) if m else x


def bound_body(r):
    'use the range of the bound index inside a binding term'
    a = r.args
    pos = {'rep': (0, 1), 'exists': (0, 1), 'psum': (0, 1), 'first': (0, 1), 'lastsuch': (0, 1), 'storeloop': (1, 2),
           'red': (2, 3)}[r.op]
    idx, n = a[pos[0]], a[pos[1]]
    new = tuple(in_range(x, idx, n) if isinstance(x, T) and k not in pos and idx in free(x) else x
                for k, x in enumerate(a))
    if all(x is y for x, y in zip(new, a)):
        return r
    return rebuild(r.op, new)


_canon_memo = {}


def canon(t):
    '''rename bound variables canonically (by binder depth) so that alpha-equivalent terms intern to one object'''
    r = _canon_memo.get(t)
    if r is None:
        r = t
        for _ in range(5):      # simplifications on the way may leave new binders behind
            n = _canon1(r)
            if n is r:
                break
            r = n
        if len(_canon_memo) > 200000:
            _canon_memo.clear()
        _canon_memo[t] = r
        _canon_memo[r] = r
    return r


def _canon1(t):
    memo = {}

    def height(x, hm):
        if x in hm:
            return hm[x]
        h = 0
        for c in children(x):
            h = max(h, height(c, hm))
        if binder_of(x):
            h += 1
        hm[x] = h
        return h

    hm = {}

    def go(x):
        if x in memo:
            return memo[x]
        new = []
        changed = False
        for a in x.args:
            if isinstance(a, T):
                b = go(a)
                changed |= b is not a
                new.append(b)
            elif x.op == 'poly':
                mono = tuple(go(y) for y in a[0])
                changed |= any(p is not q for p, q in zip(mono, a[0]))
                new.append((mono, a[1]))
            else:
                new.append(a)
        r = rebuild(x.op, tuple(new)) if changed else x
        if r.op in ('rep', 'exists', 'psum', 'first', 'lastsuch', 'storeloop', 'red'):
            r2 = bound_body(r)
            if r2 is not r:
                r = r2 if not binder_of(r2) else r2
        if r.op in ('and', 'or'):
            r = boolform.boolcanon(r)
        elif r.op == 'ite' and (r.args[1].op == 'ite' or r.args[2].op == 'ite'):
            r = boolform.itecanon(r)
        bs = binder_of(r)
        if bs:
            h = height(r, hm)
            mp = {}
            for k, b in enumerate(bs):
                if b.op == 'idx':
                    nb = mk('idx', ('b', h, k))
                else:
                    nb = mk('phi', ('b', h, k), '')
                if nb is not b:
                    mp[b] = nb
            if mp:
                args = tuple(subst(a, mp) if isinstance(a, T) else a for a in r.args)
                r = rebuild(r.op, args)
        memo[x] = r
        return r

    return go(t)


# ---------------------------------------------------------------- printing

def show(t, depth=0):
    '''readable rendering'''
    if depth > 12:
        return '...'
    d = depth + 1
    op, a = t.op, t.args
    if op == 'num':
        return str(a[0])
    if op == 'str':
        return repr(a[0])
    if op == 'bool':
        return str(a[0])
    if op == 'none':
        return 'None'
    if op == 'sym':
        return str(a[0])
    if op == 'param':
        return str(a[0])
    if op == 'enum':
        return str(a[0])
    if op == 'idx':
        return 'i%s' % (a[0] if not isinstance(a[0], tuple) else '_' + ''.join(str(q) for q in a[0][1:]))
    if op == 'phi':
        return 'phi:%s' % (a[1] or '')
    if op == 'ref':
        return '<%s>' % a[1]
    if op == 'attr':
        return '%s.%s' % (show(a[0], d), a[1])
    if op == 'index':
        return '%s[%s]' % (show(a[0], d), show(a[1], d))
    if op == 'slice':
        return '%s[%s:%s]' % (show(a[0], d), '' if a[1] is NONE else show(a[1], d), '' if a[2] is NONE else show(a[2], d))
    if op == 'len':
        return 'len(%s)' % show(a[0], d)
    if op == 'ncols':
        return '%s.shape[1]' % show(a[0], d)
    if op == 'poly':
        parts = []
        for m, c in a:
            s = '*'.join(show(x, d) for x in m)
            if not m:
                s = str(c)
            elif c == -1:
                s = '-' + s
            elif c != 1:
                s = '%s*%s' % (c, s)
            parts.append(s)
        return '(' + ' + '.join(parts).replace('+ -', '- ') + ')'
    if op == 'sgn':
        names = {frozenset({-1}): '< 0', frozenset({0}): '== 0', frozenset({1}): '> 0', frozenset({-1, 0}): '<= 0',
                 frozenset({0, 1}): '>= 0', frozenset({-1, 1}): '!= 0'}
        return '(%s %s)' % (show(a[0], d), names[a[1]])
    if op == 'not':
        return 'not %s' % show(a[0], d)
    if op in ('and', 'or'):
        return '(' + (' %s ' % op).join(show(x, d) for x in a) + ')'
    if op == 'eq':
        return '(%s == %s)' % (show(a[0], d), show(a[1], d))
    if op == 'isnone':
        return '(%s is None)' % show(a[0], d)
    if op == 'truthy':
        return 'bool(%s)' % show(a[0], d)
    if op == 'isinst':
        return 'isinstance(%s, %s)' % (show(a[0], d), a[1])
    if op == 'ite':
        return '(%s ? %s : %s)' % (show(a[0], d), show(a[1], d), show(a[2], d))
    if op == 'seq':
        return '[' + ', '.join(show(x, d) for x in a) + ']'
    if op == 'el':
        return show(a[0], d)
    if op == 'spread':
        return '*' + show(a[0], d)
    if op == 'rep':
        return '*{%s for %s<%s}' % (show(a[2], d)[1:-1], show(a[0], d), show(a[1], d))
    if op == 'condseg':
        return '*(%s if %s else %s)' % (show(a[1], d), show(a[0], d), show(a[2], d))
    if op in ('call', 'res', 'new', 'boolcall'):
        extra = [x for x in a[1:]]
        return '%s(%s)' % (a[0], ', '.join(show(x, d) if isinstance(x, T) else str(x) for x in extra))
    if op == 'kw':
        return '%s=%s' % (a[0], show(a[1], d))
    if op == 'fmt':
        return 'f"' + ''.join(x.args[0] if x.op == 'str' else '{%s}' % show(x, d) for x in a) + '"'
    if op == 'exists':
        return 'any(%s for %s<%s)' % (show(a[2], d), show(a[0], d), show(a[1], d))
    if op == 'psum':
        return 'sum(%s for %s<%s)' % (show(a[2], d), show(a[0], d), show(a[1], d))
    if op == 'tr':
        return show(a[0], d) + '.T'
    return '%s(%s)' % (op, ', '.join(show(x, d) if isinstance(x, T) else str(x) for x in a))


from hsa import boolform     # noqa: E402 (needs the definitions above)
