'''
Abstract interpreter: turns one function body into a value graph.

The program is never executed.  Every expression is mapped to an interned term (terms.py); branches are merged with gated
terms; loops are summarised by solving the recurrences of the variables they change; calls to functions of the analysed
package are either summarised as one event (a function that has its own obligation) or inlined (a helper that has none).
The result is the list of guarded, loop-indexed effects the function has, and its guarded return values.
'''

import ast
import copy
import itertools

from hsa import terms as t, boolform
from hsa.terms import T, mk, TRUE, FALSE, NONE, ZERO, ONE, num, strc, band, bor, bnot, ite, truthy


class Unsupported(Exception):
    'construct outside the modelled subset'


UNROLL = 16     # loops with a constant number of iterations up to this one are unrolled


class ConstCount(Exception):
    def __init__(self, n):
        super().__init__()
        self.n = n


class LoopCtx():
    'one enclosing loop of an event'
    __slots__ = ('idx', 'count', 'brk', 'rev')

    def __init__(self, idx, count, brk=FALSE):
        self.idx = idx
        self.count = count
        self.brk = brk

    def subst(self, m):
        return LoopCtx(self.idx, t.subst(self.count, m), t.subst(self.brk, m))


class Event():
    'one observable effect'
    __slots__ = ('kind', 'name', 'args', 'guard', 'loops', 'loc', 'pre')

    def __init__(self, kind, name, args, guard, loops, loc, pre=()):
        self.kind = kind
        self.name = name
        self.args = tuple(args)
        self.guard = guard
        self.loops = tuple(loops)
        self.loc = loc
        self.pre = tuple(pre)   # (base, field, value) dirty fields the callee may read

    def subst(self, m):
        if not m:
            return self
        return Event(self.kind, self.name, [t.subst(a, m) for a in self.args], t.subst(self.guard, m),
                     [l.subst(m) for l in self.loops], self.loc,
                     [(t.subst(b, m), f, t.subst(v, m)) for b, f, v in self.pre])

    def __repr__(self):
        ls = ''.join('for %r<%r%s: ' % (l.idx, l.count, '' if l.brk is FALSE else ' until %r' % l.brk)
                     for l in self.loops)
        g = '' if self.guard is TRUE else '[%r] ' % self.guard
        return '%s%s%s %s(%s)' % (ls, g, self.kind, self.name, ', '.join(repr(a) for a in self.args))


class State():
    __slots__ = ('env', 'heap', 'live')

    def __init__(self, env, heap, live=TRUE):
        self.env = env
        self.heap = heap
        self.live = live        # condition (relative to the entry of the current function) under which we are here

    def copy(self):
        return State(dict(self.env), dict(self.heap), self.live)


class Summary():
    def __init__(self):
        self.events = []
        self.returns = []       # (guard, value)
        self.heap = {}
        self.params = []
        self.problems = []

    @property
    def ret(self):
        'single gated return value'
        rv = None
        for g, v in reversed(self.returns):
            rv = v if rv is None else ite(g, v, rv)
        return NONE if rv is None else rv


EXT_PREFIX = [('numpy.', 'np.'), ('scipy.sparse.', 'sparse.'), ('swiglpk.', 'glpk.')]

IDENTITY_CALLS = {'np.array', 'np.asarray', 'float', 'sparse.csr_matrix', 'list', 'tuple', 'np.copy', 'copy.copy',
                  'copy.deepcopy', 'np.ascontiguousarray', 'sorted_noop', 'bool_noop', 'iter'}
FRESH_CALLS = {'np.array', 'np.copy', 'list', 'copy.copy', 'copy.deepcopy'}
IDENTITY_METHODS = {'toarray', 'tocsr', 'tolist', 'copy', 'flatten', 'ravel', 'astype', 'deepcopy', 'todense'}
FRESH_METHODS = {'toarray', 'tolist', 'copy', 'flatten', 'astype'}
CONTAINER_METHODS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'add', 'discard',
                     'update', 'setdefault', 'popitem', 'get', 'items', 'keys', 'values', 'index', 'count', 'join',
                     'split', 'strip', 'startswith', 'endswith', 'format', 'rjust', 'ljust', 'lower', 'upper',
                     'replace', 'dot', 'sum', 'min', 'max', 'any', 'all', 'reshape', 'transpose', 'difference',
                     'getrow', 'getcol', 'tocsc', 'tolil', 'eliminate_zeros', 'argmin', 'argmax', 'conj', 'isdigit'} \
    | IDENTITY_METHODS
PURE_BUILTINS = {'len', 'abs', 'min', 'max', 'int', 'float', 'round', 'sum', 'any', 'all', 'range', 'enumerate', 'zip',
                 'isinstance', 'hasattr', 'getattr', 'str', 'repr', 'list', 'tuple', 'set', 'dict', 'sorted',
                 'reversed', 'map', 'filter', 'bool', 'type', 'print', 'id', 'next', 'iter', 'callable', 'super',
                 'issubclass', 'divmod', 'pow', 'vars', 'dir', 'open', 'input', 'exit', 'eval', 'exec', 'setattr',
                 'frozenset', 'ord', 'chr', 'format', 'slice', 'object', 'hash', 'staticmethod'}
IGNORED_METHODS = {'check_format', 'freeze_attrs', 'print_verbose', 'print_normal', 'print_debug',
                   'sort_indices', 'flush', 'sum_duplicates'}
# functions whose purpose is what they print
PRINT_SITES = {'Core.print_normal', 'Core.print_verbose', 'Core.print_debug', 'Timers.print_stats_recursive'}
TIMER_CLASSES = ('Timers', 'TimerData')
IGNORED_CALLS = {'print', 'cprint', 'warnings.warn', 'warnings.filterwarnings', 'termcolor.cprint'}
MAX_INLINE = 8


def joined(x, y):
    'texts put together, None if these are not known to be texts'
    if x.op in ('str', 'fmt') or y.op in ('str', 'fmt'):
        if t.strc('') in (x, y):
            return y if x is t.strc('') else x
        return t.fmt([x, y])
    for k, p in enumerate((x, y)):
        if p.op == 'ite':
            a, b = (joined(q, y) if k == 0 else joined(x, q) for q in p.args[1:])
            if a is not None and b is not None:
                return ite(p.args[0], a, b)
    return None


class Interp():
    '''analyses one function (plus the helpers it inlines)'''

    debug = False

    def __init__(self, prog, known=(), inline=(), spec=None, effects=None, hints=None, pure=(), ignore_fields=(),
                 force_event=(), sigs=None):
        self.prog = prog
        self.sigs = sigs or {}          # qual -> Func: the signature call events are reported with
        self.known = set(known)
        self.inline = set(inline)
        self.spec = spec or {}          # qual -> Func: bodies to use instead of the program's (reference models)
        self.effects = effects
        self.hints = hints or {}
        self.pure = set(pure)
        self.force_event = set(force_event)
        self.events = []
        self.loops = []
        self.stack = []                 # inlined functions
        self.frames = []                # exits of the functions being interpreted
        self.occ = {}
        self.memo = []          # calls of functions that keep their result
        self.problems = []
        self.body_mark = []
        self.cur_pc = TRUE

    # ------------------------------------------------------------------ entry

    def run(self, func, args=None):
        'summarise one function'
        s = Summary()
        st = State({}, {})
        for name, _ in func.params():
            v = (args or {}).get(name)
            if v is None:
                v = t.param(name)
            st.env[name] = v
            s.params.append(name)
        va = func.node.args.vararg
        if va is not None:
            st.env[va.arg] = t.param('*' + va.arg)
        kw = func.node.args.kwarg
        if kw is not None:
            st.env[kw.arg] = t.param('**' + kw.arg)
        exits = self.exec_function(func, st)
        heap = None
        for kind, guard, value, est in exits:
            if kind == 'raise':
                continue
            s.returns.append((guard, self.resolve(value, est.heap)))
            # merged final heap
            if heap is None:
                heap = dict(est.heap)
                hg = guard
            else:
                heap = self.merge_heaps(guard, est.heap, heap, {})
        s.events = self.events
        s.heap = heap or {}
        self.final_heap = s.heap
        final = {}
        for (b, f), v in s.heap.items():
            if b.op == 'ref' or b.op == 'phi' and f == '#':
                continue
            base = self.resolve_sym(self.refs(b, s.heap, b, 0), s.heap, frozenset((b,)), 0)
            final[(base, f)] = self.resolve(v, s.heap)
        s.heap = final
        s.problems = self.problems
        if getattr(self, 'closures', None):
            self.finish_closures(s)
        return s

    def finish_closures(self, s):
        'function values are replaced by what they compute'
        m = {}
        busy = set()

        def conv(x):
            cs = [y for y in t.subterms(x) if y.op == 'closure']
            if not cs:
                return x
            for c in cs:
                if c not in m and c not in busy:
                    busy.add(c)
                    m[c] = self.closure_term(c)
                    if m[c] is not c:
                        m[c] = conv(m[c])
            return t.subst(x, {c: m[c] for c in cs if c in m})
        for e in s.events:
            e.args = tuple(conv(a) for a in e.args)
            e.guard = conv(e.guard)
        s.returns = [(conv(g), conv(v)) for g, v in s.returns]
        s.heap = {(conv(b), f): conv(v) for (b, f), v in s.heap.items()}

    def closure_term(self, c):
        node, env, owner = self.closures[c]
        saved = self.events, self.loops, self.cur_pc, self.occ, self.stack, self.frames
        self.events, self.loops, self.cur_pc, self.occ = [], [], TRUE, dict(self.occ)
        self.stack, self.frames = [owner], [[]]
        try:
            a = node.args
            if a.vararg or a.kwarg or a.kwonlyargs:
                return c
            st = State(dict(env), dict(self.final_heap), TRUE)
            args = [mk('sym', 'arg%d' % k) for k in range(len(a.args))]
            v = self.call_closure(c, args, {}, st, node)
            v = self.resolve(v, st.heap)
            evs = []
            for e in self.events:
                if e.loops:
                    return c
                evs.append(mk('ev', e.kind, str(e.name), e.guard, *e.args))
            if not evs and v is NONE:
                return mk('sym', 'builtin:print')   # does nothing but (at most) print
            return mk('fnval', mk('num', len(args)), v, *evs)
        except Unsupported:
            return c
        finally:
            self.events, self.loops, self.cur_pc, self.occ, self.stack, self.frames = saved

    def exec_function(self, func, st):
        'returns exits (kind ret/raise, guard, value, state)'
        if len(self.stack) > MAX_INLINE:
            raise Unsupported('inline depth')
        self.stack.append(func)
        self.frames.append([])
        out = self.block(func.node.body, st)
        exits = self.frames.pop()
        self.stack.pop()
        if out is not None:
            exits.append(('ret', out.live, NONE, out))
        return exits

    # ------------------------------------------------------------------ heap

    def content(self, v, heap):
        'content of a (possibly mutable) value'
        c = heap.get((v, '#'))
        if c is not None:
            return c
        if v.op == 'ite':
            a, b = [self.content(x, heap) for x in v.args[1:]]
            if a is not v.args[1] or b is not v.args[2]:
                return ite(v.args[0], a, b)
        return v

    def resolve(self, v, heap, skip=None):
        'replace every mutable object referenced by v by its current content'
        if not isinstance(v, T):
            return v
        return self.resolve_sym(self.refs(v, heap, skip, 0), heap, frozenset(), 0)

    def refs(self, v, heap, skip=None, depth=0):
        m = {}
        for x in t.subterms(v):
            if x.op == 'ref' and x is not skip:
                c = heap.get((x, '#'))
                if c is not None and c is not x:
                    m[x] = self.refs(c, heap, x, depth + 1) if depth < 8 else c
        return t.subst(v, m) if m else v

    def resolve_sym(self, v, heap, busy, depth):
        'symbolic objects only stand for their content where they are referenced, not inside computed values'
        c = heap.get((v, '#'))
        if c is not None and c is not v and v not in busy and v.op != 'ref':
            return self.resolve_sym(self.refs(c, heap), heap, busy | {v}, depth + 1)
        if depth > 6:
            return v
        if v.op == 'ite':
            return ite(v.args[0], self.resolve_sym(v.args[1], heap, busy, depth + 1),
                       self.resolve_sym(v.args[2], heap, busy, depth + 1))
        if v.op in ('seq', 'el', 'rep', 'condseg', 'new', 'dput'):
            new = tuple(self.resolve_sym(a, heap, busy, depth + 1) if isinstance(a, T) and a.op not in ('idx',) and not
                        (v.op in ('rep', 'condseg') and k < (2 if v.op == 'rep' else 1)) else a
                        for k, a in enumerate(v.args))
            if any(x is not y for x, y in zip(new, v.args)):
                return t.rebuild(v.op, new)
        return v

    def fresh(self, st, kind, content):
        r = t.new_ref(kind)
        st.heap[(r, '#')] = content
        return r

    def mutate(self, st, v, fn):
        'apply fn to the content of object v'
        if v.op == 'ite':
            c, a, b = v.args
            for side, g in ((a, c), (b, bnot(c))):
                if side is NONE:
                    continue
                self.mutate(st, side, lambda x, g=g: ite(g, fn(x), x))
            return
        st.heap[(v, '#')] = fn(self.content(v, st.heap))

    def kind_of(self, v):
        'list / arr / dict / set / None'
        if v.op == 'ref':
            return v.args[1]
        if v.op == 'ite':
            a, b = self.kind_of(v.args[1]), self.kind_of(v.args[2])
            return a or b
        if v.op == 'seq':
            return 'list'
        if v.op == 'slice':
            return self.kind_of(v.args[0])
        if v.op == 'attr' and v.args[1] in t.LISTS:
            return 'list'
        return None

    # ------------------------------------------------------------------ events

    def pc(self, st):
        return band(self.cur_pc, st.live)

    def event(self, st, kind, name, args, node, pre=()):
        g = self.pc(st)
        if g is FALSE:
            return
        args = [self.resolve(a, st.heap) for a in args]
        loc = self.loc(node)
        self.events.append(Event(kind, name, args, g, list(self.loops), loc, pre))

    def loc(self, node):
        f = self.stack[-1] if self.stack else None
        return (f.module.path if f else '?', getattr(node, 'lineno', 0), f.qual if f else '?')

    def problem(self, node, msg):
        self.problems.append((self.loc(node), msg))

    def opaque(self, node, what, *deps):
        'a value outside the modelled vocabulary'
        return mk('opaque', what, *deps)

    # ------------------------------------------------------------------ statements

    def block(self, stmts, st):
        'returns the state falling through, or None'
        for s in stmts:
            st = self.stmt(s, st)
            if st is None:
                return None
        return st

    def stmt(self, s, st):
        m = getattr(self, 's_' + s.__class__.__name__, None)
        if m is None:
            raise Unsupported('statement %s' % s.__class__.__name__)
        return m(s, st)

    def s_Pass(self, s, st):
        return st

    s_Global = s_Nonlocal = s_Pass

    def s_Import(self, s, st):
        return st

    s_ImportFrom = s_Import

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return st
        self.eval(s.value, st)
        return st

    def s_Delete(self, s, st):
        for x in s.targets:
            if isinstance(x, ast.Name):
                st.env.pop(x.id, None)
            elif isinstance(x, ast.Subscript):
                base = self.eval(x.value, st)
                k = self.val(self.eval(x.slice, st), st)
                if x.slice.__class__ is ast.Slice:
                    raise Unsupported('del')
                self.container_method(base, 'pop', [k], {}, st, x)
            else:
                raise Unsupported('del')
        return st

    def s_Assert(self, s, st):
        mark = len(self.events)
        c = self.cond(s.test, st)
        if c is not TRUE:
            self.event(st, 'assert', 'assert', [c], s)
        return st

    def s_Raise(self, s, st):
        name = '?'
        if s.exc is not None:
            e = s.exc
            if isinstance(e, ast.Call):
                e = e.func
            name = e.id if isinstance(e, ast.Name) else e.attr if isinstance(e, ast.Attribute) else '?'
        self.event(st, 'raise', name, [], s)
        self.frames[-1].append(('raise', st.live, strc(name), st))
        return None

    def s_Return(self, s, st):
        v = NONE if s.value is None else self.eval(s.value, st)
        self.frames[-1].append(('ret', st.live, v, st))
        return None

    def s_Break(self, s, st):
        self.frames[-1].append(('brk', st.live, None, st))
        return None

    def s_Continue(self, s, st):
        self.frames[-1].append(('cont', st.live, None, st))
        return None

    def s_FunctionDef(self, s, st):
        st.env[s.name] = self.closure(s, st)
        return st

    def closure(self, node, st):
        key = mk('closure', next(t._fresh))
        if not hasattr(self, 'closures'):
            self.closures = {}
        self.closures[key] = (node, st.env, self.stack[-1])
        return key

    def s_With(self, s, st):
        for item in s.items:
            v = self.eval(item.context_expr, st)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, st)
        return self.block(s.body, st)

    def lookup_fails(self, s, st):
        'condition of a handler of a lookup that fails, the only statement part of the try block that can raise the error'
        if len(s.handlers) != 1 or not isinstance(s.handlers[0].type, ast.Name) or s.orelse:
            return None
        name = s.handlers[0].type.id
        nodes = [n for b in s.body for n in ast.walk(b)]
        calls = [n for n in nodes if isinstance(n, ast.Call)]
        subs = [n for n in nodes if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load)]
        if any(isinstance(n, (ast.Raise, ast.For, ast.While, ast.Assert, ast.If)) for n in nodes):
            return None
        if name == 'ValueError' and len(calls) == 1 and isinstance(calls[0].func, ast.Attribute) and \
                calls[0].func.attr == 'index' and len(calls[0].args) == 1 and not calls[0].keywords:
            coll, key = calls[0].func.value, calls[0].args[0]
        elif name == 'KeyError' and not calls and len(subs) == 1:
            coll, key = subs[0].value, subs[0].slice
        else:
            return None
        if not all(isinstance(n, (ast.Name, ast.Attribute, ast.Constant, ast.Load)) for x in (coll, key) for n in ast.walk(x)):
            return None
        return bnot(self.contains(self.eval(key, st), self.eval(coll, st)))

    def s_Try(self, s, st):
        pre = st.copy()
        fails = self.lookup_fails(s, st.copy())
        out = self.block(s.body, st)
        if s.orelse and out is not None:
            out = self.block(s.orelse, out)
        for n, h in enumerate(s.handlers):
            name = 'any'
            if h.type is not None:
                name = ast.unparse(h.type)
            b = fails
            if b is None:
                b = mk('boolcall', 'exc', strc(name), t.subst(band(self.cur_pc, pre.live), {}))
            hst = pre.copy()
            hst.live = band(pre.live, b)
            if h.name:
                hst.env[h.name] = t.sym('exc')
            hout = self.block(h.body, hst)
            if out is not None:
                keep = out.copy()
                keep.live = band(out.live, bnot(b))
                out = self.merge(b, hout, keep, pre) if hout is not None else keep
            else:
                out = hout
        if s.finalbody:
            if out is None:
                self.problem(s, 'finally after exit')
                return None
            out = self.block(s.finalbody, out)
        return out

    def s_If(self, s, st):
        c = self.cond(s.test, st)
        if c is TRUE:
            return self.block(s.body, st)
        if c is FALSE:
            return self.block(s.orelse, st)
        pre = st
        a = pre.copy()
        a.live = band(pre.live, c)
        b = pre.copy()
        b.live = band(pre.live, bnot(c))
        occ = dict(self.occ)
        oa = self.block(s.body, a) if a.live is not FALSE else None
        occ_a, self.occ = self.occ, occ
        ob = self.block(s.orelse, b) if b.live is not FALSE else None
        if ob is None:
            self.occ = occ_a
        elif oa is not None:
            self.occ = max_occ(occ_a, self.occ)
        if oa is not None and ob is not None and oa.live is band(pre.live, c) and ob.live is band(pre.live, bnot(c)):
            m = self.merge(c, oa, ob, pre)
            m.live = pre.live
            return m
        if oa is None and ob is None:
            return None
        if oa is None:
            return ob
        if ob is None:
            return oa
        m = self.merge(c, oa, ob, pre)
        m.live = bor(oa.live, ob.live)
        return m

    def merge(self, c, a, b, pre):
        'merge two states; c selects a'
        if a is None:
            return b
        if b is None:
            return a
        heap = self.merge_heaps(c, a.heap, b.heap, pre.heap)
        env = {}
        for k in list(a.env) + [k for k in b.env if k not in a.env]:
            x, y = a.env.get(k), b.env.get(k)
            if x is None:
                x = mk('undef')
            if y is None:
                y = mk('undef')
            if x is y:
                env[k] = x
                continue
            if x.op == 'ref' and y.op == 'ref' and (x, '#') not in pre.heap and (y, '#') not in pre.heap:
                r = t.new_ref(x.args[1])
                heap[(r, '#')] = ite(c, a.heap[(x, '#')], b.heap[(y, '#')])
                env[k] = r
                continue
            env[k] = ite(c, x, y)
        return State(env, heap, bor(a.live, b.live))

    def merge_heaps(self, c, ha, hb, pre):
        heap = {}
        for k in list(ha) + [k for k in hb if k not in ha]:
            x, y = ha.get(k), hb.get(k)
            if x is None or y is None:
                if k[0].op == 'ref' and k[1] == '#':
                    heap[k] = x if x is not None else y
                    continue
                d = self.default(k)
                x = d if x is None else x
                y = d if y is None else y
            heap[k] = x if x is y else ite(c, x, y)
        return heap

    def default(self, key):
        b, f = key
        if f == '#':
            return b
        if isinstance(f, tuple):
            return t.index(b, f[1])
        return t.attr(b, f)

    # assignments ---------------------------------------------------------

    def s_Assign(self, s, st):
        v = self.eval(s.value, st)
        for tg in s.targets:
            self.assign(tg, v, st)
        return st

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st), st)
        return st

    def assign(self, tg, v, st):
        if isinstance(tg, ast.Name):
            st.env[tg.id] = v
        elif isinstance(tg, (ast.Tuple, ast.List)):
            vv = self.val(v, st)
            if any(isinstance(e, ast.Starred) for e in tg.elts):
                raise Unsupported('starred assignment')
            for i, e in enumerate(tg.elts):
                self.assign(e, t.index(vv, num(i)), st)
        elif isinstance(tg, ast.Attribute):
            base = self.eval(tg.value, st)
            self.setattr(base, tg.attr, v, st, tg)
        elif isinstance(tg, ast.Subscript):
            base = self.eval(tg.value, st)
            k = self.subscript(tg.slice, st)
            self.setitem(base, k, v, st, tg)
        else:
            raise Unsupported('assignment target')

    def setattr(self, base, name, v, st, node):
        if base.op == 'ite':
            c, a, b = base.args
            for side, g in ((a, c), (b, bnot(c))):
                if side is NONE or side.op == 'undef':
                    continue
                old = self.getattr(side, name, st)
                self.setattr(side, name, ite(g, v, old), st, node)
            return
        cb = base
        if name == 'shape':
            return      # reshape in place: the value is unchanged
        st.heap[(cb, name)] = v

    def setitem(self, base, k, v, st, node):
        vv = self.val(v, st)
        if self.kind_of(base) == 'dict' or (base.op == 'ref' and base.args[1] == 'dict'):
            self.mutate(st, base, lambda c: self.dict_put(c, k, v))
            return
        self.mutate(st, base, lambda c: store(c, k, v if self.kind_of(v) == 'dict' or v.op == 'ref' and v.args[1] == 'list' and
                    k.op not in ('sliceobj', 'seq') else vv))

    def dict_put(self, c, k, v):
        return mk('dput', c, k, v)

    def s_AugAssign(self, s, st):
        op = s.op
        if isinstance(s.target, ast.Name):
            cur = st.env.get(s.target.id)
            if cur is None:
                cur = self.eval(ast.Name(id=s.target.id, ctx=ast.Load()), st)
        elif isinstance(s.target, ast.Attribute):
            base = self.eval(s.target.value, st)
            cur = self.getattr(base, s.target.attr, st)
        elif isinstance(s.target, ast.Subscript):
            base = self.eval(s.target.value, st)
            k = self.subscript(s.target.slice, st)
            cur = self.getitem(base, k, st)
        else:
            raise Unsupported('augassign')
        v = self.eval(s.value, st)
        ck = self.kind_of(cur)
        vk = self.kind_of(v)
        if isinstance(op, ast.Add) and (ck == 'list' or (vk == 'list' and cur.op in ('attr', 'param', 'index', 'res',
                                                                                       'call'))):
            if cur.op != 'seq':
                vv = self.val(v, st)
                self.mutate(st, cur, lambda c: t.concat(as_seq(c), as_seq(vv)))
                return st
        if cur.op == 'ref' and ck == 'arr':
            vv = self.val(v, st)
            self.mutate(st, cur, lambda c: self.binop(op, c, vv, None, None))
            return st
        r = self.arith(op, cur, v, st)
        if isinstance(s.target, ast.Name):
            st.env[s.target.id] = r
        elif isinstance(s.target, ast.Attribute):
            self.setattr(base, s.target.attr, r, st, s)
        else:
            self.setitem(base, k, r, st, s)
        return st

    # loops ---------------------------------------------------------------

    def s_For(self, s, st):
        alt = indexed_foreach(s)
        if alt is not None:
            v = self.val(self.eval(ast.Name(alt[0], ast.Load()), st), st) if alt[0] in st.env else None
            if v is not None and v.op == 'seq' and any(
                    x.op == 'condseg' or x.op == 'rep' and (len(x.args[2].args) != 1 or x.args[2].args[0].op != 'el')
                    for x in v.args):
                # positions of a filtered sequence: walk its elements instead
                return self.run_segments(v, s, st, lambda elem, bst: self.bind_and_body(alt[1], elem, bst), s.orelse)
        it = self.iterable(s.iter, st)
        return self.run_segments(it, s, st, lambda elem, bst: self.bind_and_body(s, elem, bst), s.orelse)

    def bind_and_body(self, s, elem, bst):
        self.assign(s.target, elem, bst)
        return self.block(s.body, bst)

    def iterable(self, node, st):
        'evaluate an iterable expression to a sequence term or symbolic term'
        v = self.eval(node, st)
        return self.iter_term(self.val(v, st), st)

    def iter_term(self, v, st):
        if v.op == 'call' and v.args[0] in ('range', 'enumerate', 'zip', 'reversed'):
            return v
        return v

    def iter_segments(self, v, st):
        '''list of segments: ('one', guard, elem) | ('many', idx, count, [(guard, elem)...], brk)'''
        if v.op == 'seq':
            segs = []
            for s in v.args:
                if s.op == 'el':
                    segs.append(('one', TRUE, s.args[0]))
                elif s.op == 'rep':
                    i, n, body = s.args
                    j = t.new_idx()
                    body = t.subst(body, {i: j})
                    items = self.body_items(body)
                    if items is None:
                        return None
                    segs.append(('many', j, n, items))
                elif s.op == 'condseg':
                    c, a, b = s.args
                    for g, q in ((c, a), (bnot(c), b)):
                        sub = self.iter_segments(q, st)
                        if sub is None:
                            return None
                        for x in sub:
                            if x[0] == 'one':
                                segs.append(('one', band(g, x[1]), x[2]))
                            else:
                                segs.append(('many', x[1], x[2], [(band(g, gg), e) for gg, e in x[3]]))
                else:
                    return None
            return segs
        if v.op == 'ite':
            a = self.iter_segments(v.args[1], st)
            b = self.iter_segments(v.args[2], st)
            if a is None or b is None:
                return None
            segs = []
            for g, sub in ((v.args[0], a), (bnot(v.args[0]), b)):
                for x in sub:
                    if x[0] == 'one':
                        segs.append(('one', band(g, x[1]), x[2]))
                    else:
                        segs.append(('many', x[1], x[2], [(band(g, gg), e) for gg, e in x[3]]))
            return segs
        if v is NONE:
            return []
        if v.op == 'call':
            f = v.args[0]
            if f == 'range':
                lo, hi, step = v.args[1:4]
                n = t.sub(hi, lo)
                if step is not ONE:
                    if step is num(-1):
                        n = t.sub(lo, hi)
                    else:
                        n = mk('call', 'rangelen', lo, hi, step)
                cn = t.as_const(n)
                if cn is not None and cn <= UNROLL:
                    return [('one', TRUE, t.add(lo, t.mul(step, num(k)))) for k in range(cn)]
                j = t.new_idx()
                return [('many', j, n, [(TRUE, t.add(lo, t.mul(step, j)))])]
            if f == 'enumerate':
                start = v.args[2] if len(v.args) > 2 else ZERO
                inner = self.iter_segments(v.args[1], st)
                if inner is None:
                    return None
                return self.number_segments(inner, start)
            if f == 'zip':
                parts = [self.iter_segments(x, st) for x in v.args[1:]]
                return self.zip_segments(parts, v.args[1:])
            if f == 'reversed':
                inner = self.iter_segments(v.args[1], st)
                if inner is None:
                    return None
                out = []
                for x in reversed(inner):
                    if x[0] == 'one':
                        out.append(x)
                    else:
                        j = t.new_idx()
                        m = {x[1]: t.sub(t.sub(x[2], ONE), j)}
                        out.append(('many', j, x[2], [(t.subst(g, m), t.subst(e, m)) for g, e in reversed(x[3])]))
                return out
        j = t.new_idx()
        return [('many', j, t.length(v), [(TRUE, t.index(v, j))])]

    def body_items(self, body):
        items = []
        for s in body.args:
            if s.op == 'el':
                items.append((TRUE, s.args[0]))
            elif s.op == 'condseg':
                for g, q in ((s.args[0], s.args[1]), (bnot(s.args[0]), s.args[2])):
                    sub = self.body_items(q)
                    if sub is None:
                        return None
                    items.extend((band(g, gg), e) for gg, e in sub)
            else:
                return None
        return items

    def number_segments(self, inner, start):
        off = start
        out = []
        for x in inner:
            if x[0] == 'one':
                out.append(('one', x[1], t.seq(t.el(off), t.el(x[2]))))
                off = t.add(off, ite(x[1], ONE, ZERO))
            else:
                _, j, n, items = x
                if any(g is not TRUE for g, _ in items):
                    # position depends on how many earlier elements passed
                    per = ZERO
                    for g, _ in items:
                        per = t.add(per, ite(g, ONE, ZERO))
                    k = t.new_idx()
                    base = t.add(off, t.psum(k, j, t.subst(per, {j: k})))
                    tot = t.psum(k, n, t.subst(per, {j: k}))
                else:
                    base = t.add(off, t.mul(num(len(items)), j))
                    tot = t.mul(num(len(items)), n)
                new = []
                for g, e in items:
                    new.append((g, t.seq(t.el(base), t.el(e))))
                    base = t.add(base, ite(g, ONE, ZERO))
                out.append(('many', j, n, new))
                off = t.add(off, tot)
        return out

    def zip_segments(self, parts, srcs):
        if any(p is None for p in parts):
            return None
        lens = [len(p) for p in parts]
        if all(all(x[0] == 'one' and x[1] is TRUE for x in p) for p in parts):
            return [('one', TRUE, t.seq(*[t.el(p[k][2]) for p in parts])) for k in range(min(lens))]
        # one of known length: the others are as long
        known = [p for p in parts if p and all(x[0] == 'one' and x[1] is TRUE for x in p)]
        if known and len(known[0]) <= 4:
            n = min(len(p) for p in known)
            return [('one', TRUE, t.seq(*[t.el(p[k][2] if p in known else t.index(s, num(k)))
                                          for p, s in zip(parts, srcs)])) for k in range(n)]
        # a single symbolic segment each: walk them with one index over the first one's length
        if all(len(p) == 1 and p[0][0] == 'many' and len(p[0][3]) == 1 and p[0][3][0][0] is TRUE for p in parts):
            j = t.new_idx()
            els = [t.subst(p[0][3][0][1], {p[0][1]: j}) for p in parts]
            # zip stops at the shortest; equal lengths are assumed, the canonical choice is the smallest term
            n = min((p[0][2] for p in parts), key=lambda x: x.uid)
            return [('many', j, n, [(TRUE, t.seq(*[t.el(e) for e in els]))])]
        # index-based fallback
        j = t.new_idx()
        n = None
        for p, s in zip(parts, srcs):
            if s.op not in ('seq', 'call', 'ite'):
                n = t.length(s)
        if n is None:
            n = t.length(srcs[0])
        return [('many', j, n, [(TRUE, t.seq(*[t.el(t.index(s, j)) for s in srcs]))])]

    def run_segments(self, v, node, st, body, orelse=None):
        segs = self.iter_segments(v, st)
        if segs is None:
            raise Unsupported('iteration')
        flat_ones = all(x[0] == 'one' for x in segs)
        if flat_ones and len(segs) <= 8:
            return self.unrolled(segs, st, body, orelse)
        cur = st
        if len(segs) > 1:
            # break / return inside would have to skip the remaining segments
            for x in segs:
                if cur is None:
                    return None
                if x[0] == 'one':
                    cur = self.unrolled([x], cur, body, None)
                else:
                    cur = self.loop(x[1], x[2], x[3], node, cur, body)
            return cur
        x = segs[0]
        n = t.as_const(x[2])
        if n is not None and 0 < n * len(x[3]) <= UNROLL:
            ones = [('one', t.subst(g, {x[1]: num(k)}), t.subst(e, {x[1]: num(k)})) for k in range(int(n))
                    for g, e in x[3]]
            return self.unrolled(ones, st, body, orelse)
        out = self.loop(x[1], x[2], x[3], node, st, body)
        if orelse and out is not None:
            raise Unsupported('for-else')
        return out

    def unrolled(self, segs, st, body, orelse):
        broken = []
        cur = st
        for _, g, e in segs:
            if cur is None:
                break
            pre = cur
            a = pre.copy()
            if g is not TRUE:
                a.live = band(pre.live, g)
            mark = len(self.frames[-1])
            out = body(e, a)
            mine = self.frames[-1][mark:]
            del self.frames[-1][mark:]
            conts = []
            for ex in mine:
                if ex[0] == 'cont':
                    conts.append(ex[3])
                elif ex[0] == 'brk':
                    broken.append(ex[3])
                else:
                    self.frames[-1].append(ex)
            for c in conts:
                out = self.merge(c.live, c, out, pre)
            if g is not TRUE:
                skip = pre.copy()
                skip.live = band(pre.live, bnot(g))
                out2 = self.merge(g, out, skip, pre) if out is not None else skip
                if out is not None and out.live is band(pre.live, g):
                    out2.live = pre.live
                out = out2
            cur = out
        if orelse and cur is not None:
            cur = self.block(orelse, cur)
        for bst in reversed(broken):
            cur = self.merge(bst.live, bst, cur, st)
        return cur

    def s_While(self, s, st):
        if s.orelse:
            raise Unsupported('while-else')
        idx = t.new_idx()
        inf = mk('sym', 'unbounded%d' % idx.args[0])

        def body(_elem, bst):
            c = self.cond(s.test, bst)
            if c is not TRUE:
                e = bst.copy()
                e.live = band(bst.live, bnot(c))
                if e.live is not FALSE:
                    self.frames[-1].append(('brk', e.live, None, e))
                bst.live = band(bst.live, c)
                if bst.live is FALSE:
                    return None
            return self.block(s.body, bst)

        mark = (len(self.events), len(self.problems), dict(self.occ), len(self.frames[-1]))
        try:
            return self.loop(idx, inf, [(TRUE, NONE)], s, st, body, unbounded=True)
        except ConstCount as e:
            # a constant number of iterations, as for a loop over a list display
            del self.events[mark[0]:]
            del self.problems[mark[1]:]
            self.occ = mark[2]
            del self.frames[-1][mark[3]:]
            return self.unrolled([('one', TRUE, NONE)] * e.n, st, body, None)

    def loop(self, idx, count, items, node, st, body, unbounded=False):
        '''summarise a loop over idx in [0, count), each iteration binding the given (guard, element) items in turn'''
        if t.as_const(count) is not None and t.as_const(count) <= 0:
            return st
        saved_pc = self.cur_pc
        entry_live = st.live
        outer_pc = band(saved_pc, entry_live)

        def one(bst):
            for g, e in items:
                if bst is None:
                    return None
                if g is TRUE:
                    bst = body(e, bst)
                else:
                    pre = bst
                    a = pre.copy()
                    a.live = band(pre.live, g)
                    out = body(e, a)
                    # a 'continue' in the body ends this item only
                    fr = self.frames[-1]
                    conts = [x for x in fr if x[0] == 'cont']
                    for x in conts:
                        fr.remove(x)
                        out = self.merge(x[3].live, x[3], out, pre)
                    skip = pre.copy()
                    skip.live = band(pre.live, bnot(g))
                    full = out is not None and out.live is band(pre.live, g)
                    nxt = self.merge(g, out, skip, pre) if out is not None else skip
                    if full:
                        nxt.live = pre.live
                    bst = nxt
            return bst

        mod = {}            # key -> phi
        boxed = set()       # rebound names whose (list) value is also changed in place
        ctx = LoopCtx(idx, count)
        for attempt in range(14):
            ev_mark = len(self.events)
            pr_mark = len(self.problems)
            occ_save = dict(self.occ)
            bst = State(dict(st.env), dict(st.heap), TRUE)
            for key, phi in mod.items():
                if key in boxed:
                    bst.env[key[1]] = self.fresh(bst, 'list', phi)
                elif key[0] == 'env':
                    bst.env[key[1]] = phi
                else:
                    bst.heap[key[1]] = phi
            self.frames.append([])
            self.loops.append(ctx)
            self.cur_pc = outer_pc
            out = one(bst)
            self.loops.pop()
            exits = self.frames.pop()
            self.cur_pc = saved_pc
            states = ([out] if out is not None else []) + [e[3] for e in exits if e[0] in ('cont', 'brk')]
            new = {}
            for o in states:
                for k, v in o.env.items():
                    key = ('env', k)
                    if key not in mod and st.env.get(k) is not v:
                        new[key] = v
                for k, v in o.heap.items():
                    key = ('heap', k)
                    if key not in mod and st.heap.get(k) is not v:
                        if k[0].op == 'ref' and (k[0], '#') not in st.heap:
                            continue        # object created in the body
                        if idx in t.free(k[0]) or k[0].op != 'phi' and t.free(k[0]) & set(mod.values()):
                            continue        # a different object in every iteration
                        new[key] = v
            if not new:
                break
            del self.events[ev_mark:]
            del self.problems[pr_mark:]
            self.occ = occ_save
            for key, v in new.items():
                if key[0] == 'heap' and key[1][1] == '#' and key[1][0].op == 'phi':
                    own = [k for k, p in mod.items() if p is key[1][0]]
                    if own and own[0][0] == 'env' and own[0] not in boxed:
                        boxed.add(own[0])
                        continue
                nm = key[1] if key[0] == 'env' else str(key[1][1])
                mod[key] = t.new_phi(nm)
        else:
            raise Unsupported('loop does not stabilise')

        # merge the ends of the iteration
        conts = [e[3] for e in exits if e[0] == 'cont']
        brks = [e for e in exits if e[0] == 'brk']
        rets = [e for e in exits if e[0] in ('ret', 'raise')]
        end = out
        for c in conts:
            end = self.merge(c.live, c, end, bst)
        # fields of per-iteration objects become indexed effects
        fam = {}
        for o, g in [(end, None)] + [(e[3], e[1]) for e in brks + rets if e[0] != 'raise']:
            if o is None:
                continue
            for k, v in o.heap.items():
                if k[0].op != 'ref' and st.heap.get(k) is not v and (
                        idx in t.free(k[0]) or k[0].op != 'phi' and t.free(k[0]) & set(mod.values())):
                    v = self.localise(self.resolve(v, o.heap), o.heap, st.heap)
                    fam[k] = v if k not in fam or g is None else ite(g, v, fam[k])
        for k, v in fam.items():
            self.events.append(Event('set', 'field', [k[0], strc(str(k[1])), v], outer_pc,
                                     self.loops + [ctx], self.loc(node)))
        # next-iteration values
        nxt = {}
        undef = {}
        for key, phi in mod.items():
            if end is None:
                nxt[key] = phi
                continue
            if key[0] == 'env':
                v = end.env.get(key[1], phi)
            else:
                v = end.heap.get(key[1], phi)
            nxt[key] = self.localise(v, end.heap, st.heap)
        brk_guard = FALSE
        for e in brks + [r for r in rets if r[0] == 'ret']:
            brk_guard = bor(brk_guard, e[1])
        raise_guard = FALSE
        for e in rets:
            if e[0] == 'raise':
                raise_guard = bor(raise_guard, e[1])
        if brk_guard is not FALSE:
            # a next iteration only follows when this one did not leave the loop
            stay = bnot(brk_guard)
            nxt = {k: boolform.under(stay, v) for k, v in nxt.items()}

        def init(key):
            if key[0] == 'env':
                v = st.env.get(key[1])
                if v is not None and key in boxed:
                    v = self.resolve(v, st.heap)
                return v if v is not None else mk('undef')
            v = st.heap.get(key[1])
            return v if v is not None else self.default(key[1])

        # an element that only its own iteration replaces still has its first value when that iteration starts
        own = {}
        for key, phi in mod.items():
            if touches_only(nxt[key], phi, idx):
                own[t.index(phi, idx)] = t.index(init(key), idx)
        own = {k: v for k, v in own.items() if k.op == 'index'}
        if own:
            nxt = {k: t.subst(v, own) for k, v in nxt.items()}
            brk_guard = t.subst(brk_guard, own)
        solved = {}         # phi -> value at the start of iteration idx
        pending = dict(mod)
        # phis that keep their value / closed forms
        progress = True
        while pending and progress:
            progress = False
            for key in list(pending):
                phi = pending[key]
                n = t.subst(nxt[key], solved)
                # objects held by a name but never rebound
                r = solve(phi, init(key), n, idx, count, set(pending.values()))
                if r is not None:
                    solved[phi] = r
                    del pending[key]
                    progress = True
        if pending:
            self.reduce_system(pending, nxt, solved, init, idx, count)
        if pending:
            # mutually dependent values: keep the recurrence symbolic
            if self.debug:
                print('   unsolved in', self.loc(node)[1:])
                for k, p in pending.items():
                    print('      ', k, p, '=>', t.subst(nxt[k], solved), ' init', init(k))
            solved.update(make_mu(pending, lambda k: t.subst(nxt[k], solved),
                                  lambda k: self.resolve(init(k), st.heap), idx))
        # the other phis may occur inside solved ones
        for _ in range(3):
            for p in list(solved):
                v = solved[p]
                if any(q in t.free(v) for q in solved if q is not p):
                    solved[p] = t.subst(v, {q: w for q, w in solved.items() if q is not p})

        brk_guard = t.subst(brk_guard, solved)
        # counted while loop?
        real_count = count
        if unbounded:
            n, rest = while_count(brk_guard, idx)
            if n is not None and t.as_const(n) is not None and 0 < t.as_const(n) <= UNROLL:
                raise ConstCount(int(t.as_const(n)))
            if n is not None:
                real_count = n
                brk_guard = rest
            else:
                real_count = mk('sym', 'unbounded')
        endless = unbounded and real_count.op == 'sym'
        cmap = {}
        if real_count is not count:
            cmap[count] = real_count
        smap = dict(solved)
        smap.update(cmap)
        smap.update(own)
        brk_guard = t.subst(brk_guard, cmap) if cmap else brk_guard
        counted = real_count.op != 'sym' or real_count.args[0] != 'unbounded'

        def inr(x):
            return t.in_range(x, idx, real_count) if counted and isinstance(x, T) else x
        brk_guard = inr(brk_guard)

        prev = None
        if brk_guard is not FALSE:
            ctx.brk = brk_guard
        ctx.count = real_count
        # events of the final run
        body_events = self.events[ev_mark:]
        del self.events[ev_mark:]
        for e in body_events:
            e2 = e.subst(smap)
            e2.guard = inr(e2.guard)
            if unbounded:
                e2.args = tuple(inr(a) for a in e2.args)
            loops = list(e2.loops)
            # our context object must be shared (subst created copies)
            for k, l in enumerate(loops):
                if l.idx is idx:
                    loops[k] = LoopCtx(idx, real_count, brk_guard)
            e2.loops = tuple(loops)
            if e2.guard is not FALSE:
                self.events.append(e2)

        if brk_guard is FALSE:
            stop = real_count
        else:
            stop = mk('first', idx, real_count, brk_guard, idx)
            stop = mk('stop', idx, real_count, brk_guard)

        res = st.copy()
        normal = {}
        for key, phi in mod.items():
            p = t.subst(solved[phi], cmap) if cmap else solved[phi]
            normal[key] = p
        # state when the loop ran to its end
        def at(value, k):
            return at_index(value, idx, k)

        ex_guard = t.exists(idx, real_count, brk_guard) if brk_guard is not FALSE else FALSE

        finals = {}
        for key in mod:
            finals[key] = at(normal[key], real_count)
        if brks:
            # value when leaving by break
            all_brk = FALSE
            for e in brks:
                all_brk = bor(all_brk, inr(t.subst(e[1], smap)))
            for key in mod:
                v = None
                for e in brks:
                    bs = e[3]
                    x = bs.env.get(key[1]) if key[0] == 'env' else bs.heap.get(key[1])
                    if x is None:
                        x = mod[key]
                    x = self.localise(x, bs.heap, st.heap)
                    x = inr(t.subst(x, smap))
                    v = x if v is None else ite(inr(t.subst(e[1], smap)), x, v)
                if brk_guard is not all_brk:
                    # leaving by return is handled by its own exit
                    pass
                lastv = normal[key]
                if endless:
                    # only ever leaves by break
                    finals[key] = first_value(idx, real_count, brk_guard, v)
                else:
                    bv = first_value(idx, real_count, brk_guard, v)
                    finals[key] = ite(t.exists(idx, real_count, all_brk), bv, finals[key])
        vol = set(mod.values()) | {idx}
        res.heap = {k: v for k, v in res.heap.items() if k[0].op == 'ref' or not (t.free(k[0]) & vol)}
        for key in mod:
            v = finals[key]
            if key in boxed:
                res.env[key[1]] = self.fresh(res, 'list', v)
            elif key[0] == 'env':
                res.env[key[1]] = v
            else:
                res.heap[key[1]] = v
        # returns
        for e in rets:
            if e[0] == 'raise':
                continue
            g = t.subst(e[1], smap)
            v = self.localise(e[2], e[3].heap, st.heap) if e[2] is not None else NONE
            v = t.subst(v, smap)
            est = res.copy()
            for key in mod:
                x = e[3].env.get(key[1]) if key[0] == 'env' else e[3].heap.get(key[1])
                if x is None:
                    continue
                x = t.subst(self.localise(x, e[3].heap, st.heap), smap)
                x = first_value(idx, real_count, brk_guard, x)
                if key[0] == 'env':
                    est.env[key[1]] = x
                else:
                    est.heap[key[1]] = x
            if g is brk_guard:
                ng = ex_guard
            else:
                ng = mk('exists', idx, real_count, mk('firstof', brk_guard, g)) if brks or len(rets) > 1 else \
                    t.exists(idx, real_count, g)
                if len(rets) > 1 and not brks:
                    # which return is taken first
                    ng = band(ex_guard, first_value(idx, real_count, brk_guard, g))
                elif brks:
                    ng = band(ex_guard, first_value(idx, real_count, brk_guard, g))
            ng = band(entry_live, ng)
            est.live = ng
            self.frames[-1].append(('ret', ng, first_value(idx, real_count, brk_guard, v), est))
        ret_guard = FALSE
        for e in rets:
            if e[0] == 'ret':
                ret_guard = bor(ret_guard, t.subst(e[1], smap))
        if ret_guard is not FALSE:
            if ret_guard is brk_guard:
                gone = ex_guard
            else:
                gone = band(ex_guard, first_value(idx, real_count, brk_guard, ret_guard))
            res.live = band(entry_live, bnot(gone))
            if endless and not brks:
                return None
        else:
            res.live = entry_live
        if end is None and not brks and brk_guard is FALSE and raise_guard is not FALSE:
            res.live = band(entry_live, bnot(t.sgn(real_count, {1})))
        return res

    def reduce_system(self, pending, nxt, solved, init, idx, count):
        'solve what is left: a variable that is a function of another, then single variable folds'
        progress = True
        while pending and progress:
            progress = False
            keys = list(pending)
            for ka in keys:
                for kb in keys:
                    if ka == kb or ka not in pending or kb not in pending:
                        continue
                    g = accessor(pending[ka], t.subst(nxt[ka], solved), init(ka), pending[kb],
                                 t.subst(nxt[kb], solved), init(kb))
                    if g is not None:
                        solved[pending[ka]] = g
                        del pending[ka]
                        progress = True
            for key in list(pending):
                phi = pending[key]
                n = t.subst(nxt[key], solved)
                if phi in set(solved):
                    continue
                others = (set(pending.values()) & t.free(n)) - {phi}
                if others:
                    continue
                r = solve(phi, init(key), n, idx, count, set(pending.values()))
                if r is None:
                    r = make_fold(phi, init(key), n, idx)
                solved[phi] = r
                del pending[key]
                for p in list(solved):
                    if p is not phi and phi in t.free(solved[p]):
                        solved[p] = t.subst(solved[p], {phi: r})
                progress = True

    def localise(self, v, heap, outer_heap):
        'objects created in a loop body are replaced by their contents when they outlive the iteration'
        m = {}
        for x in t.subterms(v):
            if x.op == 'ref' and (x, '#') not in outer_heap:
                c = heap.get((x, '#'))
                if c is not None:
                    m[x] = self.localise(c, heap, outer_heap)
        return t.subst(v, m) if m else v

    # ------------------------------------------------------------------ expressions

    def val(self, v, st):
        return self.content(v, st.heap)

    def cond(self, node, st):
        if isinstance(node, ast.BoolOp):
            return self.e_BoolOp(node, st, True)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return bnot(self.cond(node.operand, st))
        return self.tru(self.eval(node, st), st)

    def tru(self, v, st):
        if v.op == 'ref' and v.args[1] in ('dict', 'set'):
            c = self.content(v, st.heap)
            return truthy(c)
        r = truthy(self.val(v, st))
        if t.contains_op(r, ('ref',)):
            r = self.refs(r, st.heap)
        return r

    def eval(self, n, st):
        m = getattr(self, 'e_' + n.__class__.__name__, None)
        if m is None:
            return self.opaque(n, 'expr:' + n.__class__.__name__)
        return m(n, st)

    def e_Constant(self, n, st):
        v = n.value
        if v is None:
            return NONE
        if isinstance(v, bool):
            return TRUE if v else FALSE
        if isinstance(v, (int, float)):
            return num(v)
        if isinstance(v, str):
            return strc(v)
        return mk('sym', repr(v))

    def e_Name(self, n, st):
        v = st.env.get(n.id)
        if v is not None:
            return v
        r = self.global_name(n.id)
        if r is not None:
            return r
        if n.id in PURE_BUILTINS:
            return mk('sym', 'builtin:' + n.id)
        return mk('sym', 'name:' + n.id)

    def global_name(self, name):
        m = self.stack[-1].module
        r = self.prog.resolve_in_module(m, name)
        return self.global_term(r, name)

    def global_term(self, r, name):
        if r is None:
            return None
        if r[0] == 'ext':
            return mk('sym', 'ext:' + ext_name(r[1]))
        if r[0] == 'func':
            return mk('sym', 'func:' + r[1].qual)
        if r[0] == 'class':
            return mk('sym', 'class:' + r[1].name)
        if r[0] == 'module':
            return mk('sym', 'mod:' + r[1].name)
        if r[0] == 'const':
            node = r[1].consts[r[2]]
            if isinstance(node, ast.Constant):
                return self.e_Constant(node, None)
            if isinstance(node, ast.UnaryOp) and isinstance(node.operand, ast.Constant):
                return t.neg(self.e_Constant(node.operand, None))
            return mk('sym', 'global:%s.%s' % (r[1].name, r[2]))
        return None

    def e_Attribute(self, n, st):
        base = self.eval(n.value, st)
        return self.getattr(base, n.attr, st, n)

    def getattr(self, base, name, st, node=None):
        if base.op == 'ite':
            c, a, b = base.args
            if a is NONE:
                return self.getattr(b, name, st, node)
            if b is NONE:
                return self.getattr(a, name, st, node)
            return ite(c, self.getattr(a, name, st, node), self.getattr(b, name, st, node))
        if base.op == 'sym' and isinstance(base.args[0], str):
            s = base.args[0]
            if s.startswith('ext:'):
                full = ext_name(s[4:] + '.' + name)
                if full == 'np.inf' or full == 'math.inf':
                    return t.INF
                if full.startswith('glpk.GLP_'):
                    return mk('enum', full[5:])
                return mk('sym', 'ext:' + full)
            if s.startswith('mod:'):
                mm = self.prog.modules[s[4:]]
                r = self.global_term(self.prog.resolve_in_module(mm, name), name)
                if r is not None:
                    return r
                return mk('sym', 'name:%s.%s' % (s[4:], name))
            if s.startswith('class:'):
                return self.class_attr(s[6:], name, st)
        key = (base, name)
        if key in st.heap:
            return st.heap[key]
        b = self.val(base, st)
        if b is not base and (b, name) in st.heap:
            return st.heap[(b, name)]
        if b.op == 'new' and b.args[0] in t.NT_FIELDS:
            return t.attr(b, name)
        if b.op == 'new' and (b.args[0], name) in t.CONSTRUCTOR:
            k = t.CONSTRUCTOR[(b.args[0], name)] + 1
            if k < len(b.args) and b.args[k].op != 'kw':
                return b.args[k]
        if name == 'shape':
            return t.seq(t.el(t.length(b)), t.el(t.shape1(b))) if self.dim2(b) else t.attr(b, 'shape')
        if name in ('T',):
            return t.transpose(b)
        if name in ('size',) and base.op == 'ref':
            return t.length(b)
        if base.op == 'new' or base.op == 'ref':
            return t.attr(b, name)
        # property?
        cls = self.type_of(base)
        if cls is not None:
            f = self.prog.find_method(cls, name)
            if f is not None and f.is_property:
                return self.call_func(f, [base], {}, st, node)
            if f is None:
                for c in self.prog.mro(cls):
                    ca = self.prog.classes[c].attrs.get(name)
                    if ca is not None and name.isupper():
                        return self.class_attr(cls, name, st)
        return t.attr(b if base.op not in ('param', 'attr') else base, name)

    def dim2(self, b):
        return b.op in ('mat',) or (b.op == 'call' and b.args[0] in ('identity', 'csrzeros'))

    def class_attr(self, cname, name, st):
        for c in self.prog.mro(cname):
            ca = self.prog.classes[c]
            if name in ca.methods:
                return mk('sym', 'func:' + ca.methods[name].qual)
            if name in ca.attrs:
                v = ca.attrs[name]
                if isinstance(v, tuple):
                    return mk('enum', '%s.%s' % (c, name))
                if isinstance(v, ast.Constant) and name.isupper() and isinstance(v.value, (int, str)):
                    # part of an enumeration when the class holds several constants
                    others = [k for k, x in ca.attrs.items() if isinstance(x, (ast.Constant, tuple)) and k.isupper()]
                    if len(others) > 1:
                        return mk('enum', '%s.%s' % (c, name))
                    return self.e_Constant(v, None)
                return mk('sym', 'clsattr:%s.%s' % (c, name))
        return mk('sym', 'clsattr:%s.%s' % (cname, name))

    def e_Subscript(self, n, st):
        base = self.eval(n.value, st)
        k = self.subscript(n.slice, st)
        return self.getitem(base, k, st)

    def subscript(self, s, st):
        if isinstance(s, ast.Slice):
            lo = NONE if s.lower is None else self.val(self.eval(s.lower, st), st)
            hi = NONE if s.upper is None else self.val(self.eval(s.upper, st), st)
            stp = NONE if s.step is None else self.val(self.eval(s.step, st), st)
            return mk('sliceobj', lo, hi, stp)
        if isinstance(s, ast.Tuple):
            return t.seq(*[t.el(self.subscript(e, st)) for e in s.elts])
        return self.val(self.eval(s, st), st)

    def getitem(self, base, k, st):
        b = self.val(base, st)
        if k.op == 'sliceobj':
            lo, hi, stp = k.args
            if stp is NONE:
                r = t.slice_(b, lo, hi)
                if b.op == 'seq' and self.kind_of(base) == 'list':
                    return self.fresh(st, 'list', r if r is not b else b)
                return r
            return mk('call', 'stepslice', b, lo, hi, stp)
        if k.op == 'seq' and any(x.op == 'el' and x.args[0].op == 'sliceobj' for x in k.args) and len(k.args) == 2:
            r, c = k.args[0].args[0], k.args[1].args[0]
            full = mk('sliceobj', NONE, NONE, NONE)
            if r is full and c is full:
                return b
            if c is full and r.op != 'sliceobj':
                return t.index(b, r)
            if c is full and r.op == 'sliceobj' and r.args[2] is NONE:
                return t.slice_(b, r.args[0], r.args[1])
            if r is full and c.op != 'sliceobj':
                return mk('call', 'column', b, c)
            if r is full and c.op == 'sliceobj' and c.args[2] is NONE:
                return mk('call', 'cols', b, ZERO if c.args[0] is NONE else c.args[0], c.args[1])
            return t.index(b, k)
        if b.op == 'dput':
            return dict_get(b, k)
        if b.op == 'ite' and any(x.op == 'dput' for x in b.args[1:]):
            return ite(b.args[0], self.getitem(b.args[1], k, st), self.getitem(b.args[2], k, st))
        return t.index(b, k)

    def e_Tuple(self, n, st):
        segs = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                segs.append(t.spread(self.val(self.eval(e.value, st), st)))
            else:
                segs.append(t.el(self.eval(e, st)))
        return t.seq(*segs)

    def e_List(self, n, st):
        return self.fresh(st, 'list', self.e_Tuple(n, st))

    def e_Set(self, n, st):
        return self.fresh(st, 'set', mk('setc', *[self.val(self.eval(e, st), st) for e in n.elts]))

    def e_Dict(self, n, st):
        c = mk('dictc')
        for k, v in zip(n.keys, n.values):
            if k is None:
                return self.opaque(n, 'dict-splat')
            c = mk('dput', c, self.val(self.eval(k, st), st), self.eval(v, st))
        return self.fresh(st, 'dict', c)

    def e_Starred(self, n, st):
        return self.eval(n.value, st)

    def e_JoinedStr(self, n, st):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(strc(v.value))
            else:
                parts.append(self.fmt_part(self.val(self.eval(v.value, st), st), v, st))
        return t.fmt(parts)

    def fmt_part(self, x, v, st):
        if v.format_spec is not None or v.conversion not in (-1, 115):
            spec = v.format_spec
            if spec is None:
                spec = ''
            elif all(isinstance(p, ast.Constant) for p in spec.values):
                spec = ''.join(p.value for p in spec.values)
            else:
                spec = ast.unparse(spec)
            if v.conversion == -1:
                return mk('call', 'format', x, strc(spec)) if spec else x
            return mk('call', 'format', x, strc(spec + '!' + chr(v.conversion)))
        return x

    def e_Lambda(self, n, st):
        return self.closure(n, st)

    def e_IfExp(self, n, st):
        c = self.cond(n.test, st)
        if c is TRUE:
            return self.eval(n.body, st)
        if c is FALSE:
            return self.eval(n.orelse, st)
        pre = st
        a = pre.copy()
        a.live = band(pre.live, c)
        b = pre.copy()
        b.live = band(pre.live, bnot(c))
        occ = dict(self.occ)
        x = self.eval(n.body, a)
        occ_a, self.occ = self.occ, occ
        y = self.eval(n.orelse, b)
        self.occ = max_occ(occ_a, self.occ)
        self.absorb(st, c, a, b)
        if x is y:
            return x
        if x.op == 'ref' and y.op == 'ref':
            return self.fresh(st, x.args[1], ite(c, st.heap[(x, '#')], st.heap[(y, '#')]))
        if x.op == 'ref' and y.op == 'seq' or y.op == 'ref' and x.op == 'seq':
            return self.fresh(st, 'list', ite(c, self.val(x, st), self.val(y, st)))
        return ite(c, x, y)

    def absorb(self, st, c, a, b):
        'merge the heap effects of two expression branches back into st'
        st.heap = self.merge_heaps(c, a.heap, b.heap, st.heap)
        for k in set(a.env) | set(b.env):
            x, y = a.env.get(k), b.env.get(k)
            if x is not None and y is not None and x is not y:
                st.env[k] = ite(c, x, y)

    def e_NamedExpr(self, n, st):
        v = self.eval(n.value, st)
        st.env[n.target.id] = v
        return v

    def e_BoolOp(self, n, st, test=False):
        '''test: only the truth of the result is used'''
        isand = isinstance(n.op, ast.And)
        vals = []
        guard = TRUE
        cur = st
        base_live = st.live
        acc = None
        pcs = TRUE
        for e in n.values:
            sub = st.copy()
            sub.live = band(base_live, pcs)
            v = self.cond(e, sub) if test else self.eval(e, sub)
            # effects under the short-circuit condition
            if pcs is TRUE:
                st.heap = sub.heap
                st.env.update(sub.env)
            else:
                st.heap = self.merge_heaps(pcs, sub.heap, st.heap, st.heap)
                for k, x in sub.env.items():
                    if k in st.env and st.env[k] is not x:
                        st.env[k] = ite(pcs, x, st.env[k])
                    elif k not in st.env:
                        st.env[k] = x
            vals.append(v)
            c = self.tru(v, st)
            pcs = band(pcs, c if isand else bnot(c))
            if pcs is FALSE:
                break
        # value
        conds = [self.tru(v, st) for v in vals]
        if test or all(t.is_bool(v) for v in vals):
            return band(*conds) if isand else bor(*conds)
        rv = vals[-1]
        for v, c in zip(reversed(vals[:-1]), reversed(conds[:-1])):
            rv = ite(c, rv, v) if isand else ite(c, v, rv)
        return rv

    def e_UnaryOp(self, n, st):
        if isinstance(n.op, ast.Not):
            return bnot(self.cond(n.operand, st))
        v = self.eval(n.operand, st)
        v = self.val(v, st)
        if isinstance(n.op, ast.USub):
            return self.scale_seq(num(-1), v) if False else t.neg(v)
        if isinstance(n.op, ast.UAdd):
            return v
        return mk('call', 'invert', v)

    def e_Compare(self, n, st):
        left = self.eval(n.left, st)
        out = []
        for op, r in zip(n.ops, n.comparators):
            right = self.eval(r, st)
            out.append(self.compare(op, left, right, st))
            left = right
        return band(*out) if len(out) > 1 else out[0]

    def compare(self, op, a, b, st):
        if isinstance(op, (ast.Is, ast.IsNot)):
            if a is NONE or b is NONE:
                r = t.isnone(b if a is NONE else a)
            elif a.op in ('bool', 'num', 'str', 'enum') or b.op in ('bool', 'num', 'str', 'enum'):
                r = t.eq(self.val(a, st), self.val(b, st))
            elif a is b:
                r = TRUE
            else:
                x, y = sorted((self.val(a, st), self.val(b, st)), key=lambda q: q.uid)
                r = mk('boolcall', 'is', x, y)
            return r if isinstance(op, ast.Is) else bnot(r)
        x, y = self.val(a, st), self.val(b, st)
        if isinstance(op, ast.Eq):
            return t.eq(x, y)
        if isinstance(op, ast.NotEq):
            return bnot(t.eq(x, y))
        if isinstance(op, ast.Lt):
            return t.lt(x, y)
        if isinstance(op, ast.LtE):
            return t.le(x, y)
        if isinstance(op, ast.Gt):
            return t.lt(y, x)
        if isinstance(op, ast.GtE):
            return t.le(y, x)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(x, y)
            return r if isinstance(op, ast.In) else bnot(r)
        raise Unsupported('compare')

    def contains(self, x, y):
        if y.op == 'seq' and all(s.op == 'el' for s in y.args):
            return bor(*[t.eq(x, s.args[0]) for s in y.args])
        if y.op == 'setc':
            return bor(*[t.eq(x, s) for s in y.args])
        if y.op == 'dput':
            d = y
            conds = []
            while d.op == 'dput':
                conds.append(t.eq(x, d.args[1]))
                d = d.args[0]
            if d.op == 'dictc':
                return bor(*conds)
            return bor(*(conds + [mk('in', x, d)]))
        if y.op == 'call' and y.args[0] == '.keys':
            return self.contains(x, y.args[1])
        return mk('in', x, y)

    def e_BinOp(self, n, st):
        a = self.eval(n.left, st)
        b = self.eval(n.right, st)
        return self.arith(n.op, a, b, st)

    def arith(self, op, a, b, st):
        ka, kb = self.kind_of(a), self.kind_of(b)
        x, y = self.val(a, st), self.val(b, st)
        if isinstance(op, ast.Add):
            r = joined(x, y)
            if r is not None:
                return r
            if ka == 'list' or kb == 'list':
                if ka != 'arr' and kb != 'arr':
                    return self.fresh(st, 'list', t.concat(as_seq(x), as_seq(y)))
        if isinstance(op, ast.Mod) and x.op == 'str':
            return self.percent(x, y)
        if isinstance(op, ast.Mult):
            for p, q, k in ((x, y, ka), (y, x, kb)):
                if k == 'list' and p.op == 'seq':
                    i = t.new_idx()
                    if len(p.args) == 1 and p.args[0].op == 'rep' and p.args[0].args[0] not in t.free(p.args[0].args[2]):
                        r = t.seq(t.rep(i, t.mul(p.args[0].args[1], q), p.args[0].args[2]))
                    else:
                        r = t.seq(t.rep(i, q, p))
                    return self.fresh(st, 'list', r)
        r = self.binop(op, x, y, ka, kb)
        if (ka == 'arr' or kb == 'arr') and r.op != 'num':
            return self.fresh(st, 'arr', r)
        return r

    def binop(self, op, x, y, ka=None, kb=None):
        if isinstance(op, ast.Add):
            return seqwise(t.add, x, y)
        if isinstance(op, ast.Sub):
            return seqwise(t.sub, x, y)
        if isinstance(op, ast.Mult):
            return seqwise(t.mul, x, y)
        if isinstance(op, ast.Div):
            return seqwise(t.div, x, y)
        if isinstance(op, ast.MatMult):
            return mk('call', 'dot', x, y)
        if isinstance(op, ast.Pow):
            if y.op == 'num' and y.args[0] == 2:
                return t.mul(x, x)
            return mk('call', 'pow', x, y)
        if isinstance(op, ast.FloorDiv):
            if x.op == 'num' and y.op == 'num' and y.args[0]:
                return num(x.args[0] // y.args[0])
            return mk('call', 'floordiv', x, y)
        if isinstance(op, ast.Mod):
            if x.op == 'num' and y.op == 'num' and y.args[0]:
                return num(x.args[0] % y.args[0])
            return mk('call', 'mod', x, y)
        return mk('call', 'bitop:' + op.__class__.__name__, x, y)

    def percent(self, f, args):
        s = f.args[0]
        vals = [q.args[0] for q in args.args] if args.op == 'seq' and all(q.op == 'el' for q in args.args) else [args]
        parts = []
        i = 0
        cur = ''
        k = 0
        while i < len(s):
            if s[i] == '%' and i + 1 < len(s):
                if s[i + 1] == '%':
                    cur += '%'
                    i += 2
                    continue
                if s[i + 1] in 'sdi' and k < len(vals):
                    parts.append(strc(cur))
                    cur = ''
                    parts.append(vals[k])
                    k += 1
                    i += 2
                    continue
                return mk('call', 'percent', f, args)
            cur += s[i]
            i += 1
        parts.append(strc(cur))
        return t.fmt(parts)

    def str_format(self, f, args, kwargs):
        s = f.args[0]
        parts = []
        cur = ''
        k = 0
        i = 0
        while i < len(s):
            ch = s[i]
            if ch == '{':
                if s[i + 1:i + 2] == '{':
                    cur += '{'
                    i += 2
                    continue
                j = s.find('}', i)
                body = s[i + 1:j]
                name, _, spec = body.partition(':')
                if name == '':
                    v = args[k] if k < len(args) else None
                    k += 1
                elif name.isdigit():
                    v = args[int(name)] if int(name) < len(args) else None
                else:
                    v = kwargs.get(name)
                if v is None:
                    return mk('call', 'format', f, *args)
                parts.append(strc(cur))
                cur = ''
                parts.append(v if not spec else mk('call', 'format', v, strc(spec)))
                i = j + 1
                continue
            if ch == '}' and s[i + 1:i + 2] == '}':
                cur += '}'
                i += 2
                continue
            cur += ch
            i += 1
        parts.append(strc(cur))
        return t.fmt(parts)

    # comprehensions ------------------------------------------------------

    def comp(self, n, st, elt, kind='list'):
        'evaluate a comprehension to a seq (or a dict or set)'
        acc = t.new_ref(kind)
        sub = State(dict(st.env), st.heap, st.live)
        sub.heap = dict(st.heap)
        sub.heap[(acc, '#')] = {'list': t.EMPTY, 'dict': mk('dictc'), 'set': mk('setc')}[kind]

        def level(k, cst):
            if k == len(n.generators):
                v = elt(cst)
                if kind == 'dict':
                    self.setitem(acc, self.val(v[0], cst), v[1], cst, n)
                elif kind == 'set':
                    self.mutate(cst, acc, lambda c: mk('setadd', c, self.val(v, cst)))
                else:
                    self.mutate(cst, acc, lambda c: t.concat(c if c.op == 'seq' else mk('seq', mk('spread', c)),
                                                             mk('seq', t.el(v))))
                return cst
            g = n.generators[k]
            it = self.iterable(g.iter, cst)

            def body(elem, bst):
                self.assign(g.target, elem, bst)
                pre = bst
                conds = []
                for i in g.ifs:
                    conds.append(self.cond(i, bst))
                c = band(*conds)
                if c is TRUE:
                    return level(k + 1, bst)
                if c is FALSE:
                    return bst
                a = pre.copy()
                a.live = band(pre.live, c)
                b = pre.copy()
                b.live = band(pre.live, bnot(c))
                a = level(k + 1, a)
                m = self.merge(c, a, b, pre)
                m.live = pre.live
                return m

            return self.run_segments(it, n, cst, body)

        self.frames.append([])
        out = level(0, sub)
        self.frames.pop()
        st.heap = {k: v for k, v in out.heap.items() if k[0] is not acc}
        return out.heap[(acc, '#')]

    def gather(self, kind, seq, st, n):
        'the dict or set made from the elements of a sequence'
        acc = t.new_ref(kind)
        sub = State(dict(st.env), dict(st.heap), st.live)
        sub.heap[(acc, '#')] = mk('dictc') if kind == 'dict' else mk('setc')

        def body(elem, bst):
            if kind == 'dict':
                v = self.val(elem, bst)
                self.setitem(acc, t.index(v, ZERO), t.index(v, ONE), bst, n)
            else:
                self.mutate(bst, acc, lambda c: mk('setadd', c, self.val(elem, bst)))
            return bst

        self.frames.append([])
        out = self.run_segments(seq, n, sub, body)
        self.frames.pop()
        st.heap = {k: v for k, v in out.heap.items() if k[0] is not acc}
        return out.heap[(acc, '#')]

    def e_ListComp(self, n, st):
        return self.fresh(st, 'list', self.comp(n, st, lambda s: self.eval(n.elt, s)))

    def e_GeneratorExp(self, n, st):
        return self.comp(n, st, lambda s: self.eval(n.elt, s))

    def e_SetComp(self, n, st):
        return self.fresh(st, 'set', self.comp(n, st, lambda s: self.eval(n.elt, s), 'set'))

    def e_DictComp(self, n, st):
        return self.fresh(st, 'dict', self.comp(n, st, lambda s: (self.eval(n.key, s), self.eval(n.value, s)), 'dict'))

    # ------------------------------------------------------------------ calls

    def e_Call(self, n, st):
        fn = n.func
        # ignored calls: their arguments carry no effect we track
        if isinstance(fn, ast.Attribute) and fn.attr in IGNORED_METHODS:
            if fn.attr == 'print_normal' and len(n.args) == 1:
                self.verdict_message(n, st)
            return NONE
        if isinstance(fn, ast.Attribute) and fn.attr in ('tic', 'toc') and isinstance(fn.value, ast.Name) and \
                fn.value.id == 'Timers' and not self.in_timers():
            return NONE
        if isinstance(fn, ast.Name) and fn.id in ('print', 'cprint') and fn.id not in st.env:
            if self.printing():
                args, kw = self.args(n, st)
                self.event(st, 'callx', 'print', args, n)
            return NONE
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and \
                isinstance(fn.value.func, ast.Name) and fn.value.func.id == 'super':
            cls = self.stack[-1].cls
            for c in self.prog.mro(cls)[1:] if cls else []:
                if fn.attr in self.prog.classes[c].methods:
                    args, kw = self.args(n, st)
                    return self.call_func(self.prog.classes[c].methods[fn.attr], [st.env.get('self')] + args, kw, st, n)
            return NONE
        if isinstance(fn, ast.Attribute):
            base = self.eval(fn.value, st)
            if base.op == 'sym' and isinstance(base.args[0], str) and base.args[0].split(':')[0] in (
                    'ext', 'mod', 'class', 'name', 'clsattr', 'func') and \
                    not (base.args[0].startswith('clsattr:') and fn.attr in CONTAINER_METHODS):
                target = self.getattr(base, fn.attr, st, fn)
                args, kw = self.args(n, st)
                # explicit unbound call Class.method(self, ...)
                return self.call_value(target, args, kw, st, n)
            stored = st.heap.get((base, fn.attr))
            if stored is not None and stored.op in ('closure', 'sym'):
                args, kw = self.args(n, st)
                return self.call_value(stored, args, kw, st, n)
            args, kw = self.args(n, st)
            return self.call_method(base, fn.attr, args, kw, st, n)
        if isinstance(fn, ast.Name) and fn.id == 'next' and 'next' not in st.env and len(n.args) == 2 and \
                isinstance(n.args[0], ast.GeneratorExp) and len(n.args[0].generators) == 1:
            return self.first_of(n, st)
        target = self.eval(fn, st)
        args, kw = self.args(n, st)
        return self.call_value(target, args, kw, st, n)

    def first_of(self, n, st):
        'next(... for ... in ..., default): a loop that stops at the first match'
        gen, default = n.args
        g = gen.generators[0]
        sub = State(dict(st.env), st.heap, st.live)
        sub.env['.first'] = self.eval(default, st)
        body = [ast.Assign([ast.Name('.first', ast.Store())], gen.elt), ast.Break()]
        if g.ifs:
            test = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), g.ifs)
            body = [ast.If(test, body, [])]
        loop = ast.For(g.target, g.iter, body, [])
        ast.copy_location(loop, n)
        for x in ast.walk(loop):
            if not hasattr(x, 'lineno'):
                ast.copy_location(x, n)
        ast.fix_missing_locations(loop)
        out = self.s_For(loop, sub)
        st.heap = out.heap
        return out.env['.first']

    def in_timers(self):
        return bool(self.stack) and self.stack[0].cls in TIMER_CLASSES

    def printing(self):
        return bool(self.stack) and self.stack[0].qual in PRINT_SITES

    def verdict_message(self, n, st):
        'the line that tells the user whether the system is safe'
        try:
            v = self.val(self.eval(n.args[0], st.copy()), st)
        except Unsupported:
            return
        def verdict(x):
            if x.op == 'ite':
                return verdict(x.args[1]) or verdict(x.args[2])
            return x.op == 'str' and str(x.args[0]).startswith('Result:')
        if verdict(v):
            self.event(st, 'callx', 'verdict message', [v], n)

    def args(self, n, st):
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.val(self.eval(a.value, st), st)
                if v.op == 'seq' and all(s.op == 'el' for s in v.args):
                    args.extend(s.args[0] for s in v.args)
                else:
                    args.append(mk('star', v))
            else:
                args.append(self.eval(a, st))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                v = self.val(self.eval(k.value, st), st)
                d, names = v, []
                while d.op == 'dput' and d.args[1].op == 'str' and str(d.args[1].args[0]).isidentifier():
                    names.append((str(d.args[1].args[0]), d.args[2]))
                    d = d.args[0]
                if d.op == 'dictc':
                    for nm, x in names:
                        kw.setdefault(nm, x)
                else:
                    kw['**'] = v
            else:
                kw[k.arg] = self.eval(k.value, st)
        return args, kw

    def call_value(self, target, args, kw, st, n):
        if target.op == 'ite':
            c, x, y = target.args
            a = st.copy()
            a.live = band(st.live, c)
            b = st.copy()
            b.live = band(st.live, bnot(c))
            va = self.call_value(x, args, kw, a, n)
            vb = self.call_value(y, args, kw, b, n)
            self.absorb(st, c, a, b)
            return ite(c, va, vb)
        if target.op == 'closure':
            return self.call_closure(target, args, kw, st, n)
        if target.op == 'sym' and isinstance(target.args[0], str):
            kind, _, name = target.args[0].partition(':')
            if kind == 'builtin':
                return self.builtin(name, args, kw, st, n)
            if kind == 'ext':
                return self.ext_call(name, args, kw, st, n)
            if kind == 'func':
                f = self.prog.funcs.get(name) or self.spec.get(name)
                return self.call_func(f, args, kw, st, n)
            if kind == 'class':
                return self.instantiate(name, args, kw, st, n)
            if kind == 'global':
                short = name.rsplit('.', 1)[-1]
                if short in self.prog.namedtuples:
                    return self.make_nt(short, args, kw, st)
            if kind == 'name' and name == 'ENTRY':
                self.event(st, 'entry', 'ENTRY', [self.val(a, st) for a in args], n)
                return NONE
        if target.op == 'attr':
            # a method held by a name
            base, name = target.args
            cls = self.type_of(base)
            if cls is not None and self.prog.find_method(cls, name) is not None or name in CONTAINER_METHODS:
                return self.call_method(base, name, args, kw, st, n)
        # unknown callable value
        vals = [self.val(a, st) for a in args] + [mk('kw', k, self.val(v, st)) for k, v in sorted(kw.items())]
        self.event(st, 'callv', 'call', [target] + vals, n)
        return self.result(st, 'call', [target] + vals)

    def result(self, st, name, args):
        'result of an effectful call; the occurrence number separates repeated calls'
        args = tuple(self.resolve(a, st.heap) for a in args)
        key = (name, tuple(t.canon(a) if isinstance(a, T) else a for a in args))
        k = self.occ.get(key, 0)
        self.occ[key] = k + 1
        return mk('res', name, *(args + ((num(k),) if k else ())))

    def make_nt(self, name, args, kw, st):
        fields = self.prog.namedtuples[name]
        vals = list(args) + [None] * (len(fields) - len(args))
        for k, v in kw.items():
            if k in fields:
                vals[fields.index(k)] = v
        if any(v is None for v in vals):
            return self.opaque(None, 'namedtuple')
        t.NT_FIELDS[name] = fields
        return mk('new', name, *vals)

    def call_closure(self, c, args, kw, st, n):
        node, env, owner = self.closures[c]
        st2 = State(dict(env), st.heap, st.live)
        # closures see the current values of the enclosing variables
        if self.stack and self.stack[-1] is owner:
            for k, v in st.env.items():
                st2.env[k] = v
        a = node.args
        names = [x.arg for x in a.args]
        for nm, v in zip(names, args):
            st2.env[nm] = v
        for k, v in kw.items():
            st2.env[k] = v
        defaults = a.defaults
        for nm, d in zip(names[len(names) - len(defaults):], defaults):
            if nm not in kw and names.index(nm) >= len(args):
                st2.env[nm] = self.eval(d, st)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in kw and d is not None:
                st2.env[x.arg] = self.eval(d, st)
        if isinstance(node, ast.Lambda):
            v = self.eval(node.body, st2)
            st.heap = st2.heap
            return v
        f = FakeFunc(node, owner)
        return self.inline_body(f, st2, st)

    def inline_body(self, f, st2, st):
        saved_pc = self.cur_pc
        saved_loops = self.loops
        self.cur_pc = band(saved_pc, st.live)
        st2.live = TRUE
        exits = self.exec_function(f, st2)
        self.cur_pc = saved_pc
        rets = [e for e in exits if e[0] == 'ret']
        raises = FALSE
        for e in exits:
            if e[0] == 'raise':
                raises = bor(raises, e[1])
        if not rets:
            # never returns normally
            st.live = FALSE
            return NONE
        val = None
        heap = None
        for kind, g, v, est in reversed(rets):
            if val is None:
                val, heap = v, est.heap
            else:
                if v.op == 'ref' and val.op == 'ref' and v is not val:
                    nr = t.new_ref(v.args[1])
                    hh = self.merge_heaps(g, est.heap, heap, st.heap)
                    hh[(nr, '#')] = ite(g, est.heap[(v, '#')], heap[(val, '#')])
                    val, heap = nr, hh
                else:
                    heap = self.merge_heaps(g, est.heap, heap, st.heap)
                    val = ite(g, v, val)
        st.heap = heap
        if raises is not FALSE:
            st.live = band(st.live, bnot(raises))
        return val

    def bind(self, f, args, kw, st):
        'bind call arguments to the parameters of f; returns ordered dict name -> T'
        params = f.params()
        out = {}
        names = [p for p, _ in params]
        pos = list(args)
        for nm, v in zip(names, pos):
            out[nm] = v
        for k, v in kw.items():
            if k in names:
                out[k] = v
            else:
                out.setdefault('**', []).append((k, v))
        for nm, d in params:
            if nm not in out:
                if d is None:
                    out[nm] = mk('undef')
                else:
                    self.stack.append(f)
                    out[nm] = self.eval(d, State({}, st.heap, st.live))
                    self.stack.pop()
        if len(pos) > len(names):
            out['*'] = pos[len(names):]
        return out

    def should_inline(self, qual):
        if qual in self.force_event:
            return False
        if qual in self.inline:
            return True
        return qual not in self.known

    def call_func(self, f, args, kw, st, n):
        if f is None:
            return self.opaque(n, 'unresolved')
        if f.cls is not None and not f.is_static and f.is_classmethod:
            args = [mk('sym', 'class:' + f.cls)] + list(args)
        body = self.spec.get(f.qual, f) if self.spec else f
        b = self.bind(f, args, kw, st)
        vals = [b[nm] for nm, _ in f.params()]
        extra = [mk('kw', k, v) for k, v in b.get('**', [])] + list(b.get('*', []))
        mod = self.model(f.qual, vals, st, n)
        if mod is not None:
            return mod
        rec = any(x is f or x is body for x in self.stack)
        va, kwa = f.node.args.vararg, f.node.args.kwarg
        packed = body is f and not any(isinstance(v, T) and v.op == 'star' for v in args) and '**' not in kw
        if self.should_inline(f.qual) and not rec and len(self.stack) < MAX_INLINE and not has_yield(f.node) and \
                (va is None and kwa is None or packed and (va is not None or '*' not in b) and
                 (kwa is not None or '**' not in b)):
            env = {}
            if va is not None:
                env[va.arg] = t.seq(*[t.el(v) for v in b.get('*', ())])
            if kwa is not None:
                c = mk('dictc')
                for k, v in b.get('**', ()):
                    c = mk('dput', c, strc(k), self.val(v, st))
                env[kwa.arg] = c
            bp = body.params()
            for (nm, _), v in zip(bp, vals):
                env[nm] = v
            for nm, d in bp[len(vals):]:
                self.stack.append(body)
                env[nm] = self.eval(d, State({}, st.heap, st.live)) if d is not None else mk('undef')
                self.stack.pop()
            st2 = State(env, dict(st.heap), TRUE)
            return self.inline_body(body, st2, st)
        ref = self.sigs.get(f.qual)
        if ref is not None:
            vals, more = self.by_signature(f, ref, vals, st)
            extra = extra + more
        if f.qual == 'LpInstance.minimize' and len(vals) > 1 and not extra:
            return self.minimize_call(vals, st, n)
        r = self.call_event(f.qual, [self.val(v, st) for v in vals] + extra, vals, st, n)
        if f.qual == 'LpInstance.set_minimize_direction' and vals:
            st.heap[(vals[0], '#dir')] = mk('call', 'direction', *[self.val(v, st) for v in vals[1:]])
        return r

    def minimize_call(self, vals, st, n):
        'minimize(direction) is set_minimize_direction(direction) followed by minimize(); the result depends on both'
        lp, d = vals[0], self.val(vals[1], st)
        f = self.prog.funcs.get('LpInstance.set_minimize_direction')
        if f is not None and self.resolve(d, st.heap) is not NONE and not self.should_inline(f.qual):
            self.call_func(f, [lp, vals[1]], {}, st, n)
            vals = [lp, NONE] + list(vals[2:])
        args = [self.val(v, st) for v in vals]
        rvals = [self.resolve(v, st.heap) for v in args]
        eff = self.effects.get('LpInstance.minimize') if self.effects is not None else None
        self.event(st, 'call', 'LpInstance.minimize', args, n, self.dirty(eff, st))
        r = self.result(st, 'LpInstance.minimize', [rvals[0], st.heap.get((lp, '#dir'), NONE)] + rvals[2:])
        self.havoc(eff, 'LpInstance.minimize', vals, r, st)
        return r

    def by_signature(self, f, ref, vals, st):
        'argument values in the order of the reference signature; additional arguments left at their default vanish'
        mine = [p for p, _ in f.params()]
        names = [p for p, _ in ref.params()]
        if mine == names:
            return vals, []
        d = dict(zip(mine, vals))
        if set(names) <= set(mine):
            more = []
            for nm, dv in f.params():
                if nm in names:
                    continue
                if dv is not None:
                    self.stack.append(f)
                    x = self.eval(dv, State({}, st.heap, st.live))
                    self.stack.pop()
                    if self.resolve(x, st.heap) is self.resolve(d[nm], st.heap):
                        continue
                more.append(mk('kw', nm, self.val(d[nm], st)))
            return [d[nm] for nm in names], more
        return vals, []

    def call_event(self, qual, vals, raw, st, n):
        eff = self.effects.get(qual) if self.effects is not None else None
        rvals = [self.resolve(v, st.heap) for v in vals]
        if eff is not None and eff.pure or qual in self.pure:
            pre = self.dirty(eff, st)
            if pre:
                return mk('call', qual, *(rvals + [mk('pre', strc(f), b, v) for b, f, v in pre]))
            return mk('call', qual, *rvals)
        if qual in t.MEMO and eff is not None:
            r = self.again(eff, qual, rvals, st)
            if r is not None:
                return r
        pre = self.dirty(eff, st)
        before = dict(st.heap)
        n_events = len(self.events)
        self.event(st, 'call', qual, vals, n, pre)
        r = self.result(st, qual, rvals)
        self.havoc(eff, qual, raw, r, st)
        if qual in t.MEMO and len(self.events) > n_events:
            self.memo.append((self.events[-1], rvals, r, before, dict(st.heap)))
        return r

    def again(self, eff, qual, rvals, st):
        'a repeated call of a function that keeps its result, when nothing it depends on has changed since'
        for e, args, r, before, after in reversed(self.memo):
            if e.name != qual or args != rvals or list(e.loops) != list(self.loops) or \
                    not any(x is e for x in self.events):
                continue
            done = {v: before[k] if k in before else self.default(k)
                    for k, v in after.items() if v.op == 'post' and v is not before.get(k)}
            for k, v in st.heap.items():
                if k[0].op != 'ref' and not isinstance(k[1], tuple) and \
                        (k[1] in eff.reads or k[1] in eff.writes):
                    old = before[k] if k in before else self.default(k)
                    if t.subst(v, done) is not old and v is not old:
                        return None
            fresh = band(self.pc(st), bnot(e.guard))
            if fresh is not FALSE:
                self.events.append(Event('call', qual, e.args, fresh, e.loops, e.loc, e.pre))
                self.memo.append((self.events[-1], args, r, before, after))
            for k, v in after.items():
                if v is not before.get(k):
                    st.heap[k] = v
            return r
        return None

    def dirty(self, eff, st):
        'fields written so far that the callee may read'
        if eff is None:
            return []
        out = []
        for (b, f), v in st.heap.items():
            if b.op == 'ref' or isinstance(f, tuple):
                continue
            if f == '#':
                # content of a field object
                if b.op == 'attr' and b.args[1] in eff.reads:
                    out.append((b, f, self.resolve(v, st.heap)))
            elif f in eff.reads:
                d = self.default((b, f))
                if d is not v:
                    out.append((self.resolve(b, st.heap), f, self.resolve(v, st.heap)))
        out.sort(key=lambda x: (x[1], x[0].uid))
        return out

    def havoc(self, eff, qual, raw, res, st):
        if eff is None:
            return
        for (b, f) in list(st.heap):
            if b.op == 'ref' and f == '#':
                continue
            if f in eff.writes:
                st.heap[(b, f)] = mk('post', b, f, res)
            elif f == '#' and b.op == 'attr' and b.args[1] in eff.writes:
                st.heap[(b, f)] = mk('post', b, f, res)
        if raw and isinstance(raw[0], T) and raw[0].op != 'new':
            for f in sorted(self.effects.own_writes(qual)):
                if (raw[0], f) not in st.heap:
                    st.heap[(raw[0], f)] = mk('post', raw[0], f, res)

    def model(self, qual, vals, st, n):
        'built-in models of package functions'
        short = qual.split('.')[-1]
        if qual in ('Timers.tic', 'Timers.toc') and not self.in_timers() or short in IGNORED_METHODS:
            return NONE
        if qual.startswith('LpInstance.'):
            lp = vals[0] if vals else None
            if short == 'get_num_rows':
                return self.counter(lp, '#nrows', st)
            if short == 'get_num_cols':
                return self.counter(lp, '#ncols', st)
            if qual in self.known and not self.should_inline(qual):
                if short in ('add_rows_equal_zero',):
                    return self.lp_add(qual, lp, '#nrows', self.val(vals[1], st), vals, st, n)
                if short in ('add_rows_less_equal',):
                    return self.lp_add(qual, lp, '#nrows', t.length(self.val(vals[1], st)), vals, st, n)
                if short in ('add_rows_with_types',):
                    return self.lp_add(qual, lp, '#nrows', t.length(self.val(vals[2], st)), vals, st, n)
                if short == 'add_cols':
                    return self.lp_add(qual, lp, '#ncols', t.length(self.val(vals[1], st)), vals, st, n)
                if short == 'clone':
                    r = self.call_event(qual, [self.val(v, st) for v in vals], vals, st, n)
                    for c in ('#nrows', '#ncols'):
                        st.heap[(r, c)] = self.counter(lp, c, st)
                    for a in ('dims', 'basis_mat_pos', 'cur_vars_offset', 'input_effects_offsets'):
                        st.heap[(r, a)] = self.getattr(lp, a, st)
                    return r
                if short == 'set_reach_vars':
                    r = self.call_event(qual, [self.val(v, st) for v in vals], vals, st, n)
                    for a, v in zip(('dims', 'basis_mat_pos', 'cur_vars_offset', 'input_effects_offsets'), vals[1:]):
                        st.heap[(lp, a)] = v
                    return NONE
        return None

    def counter(self, lp, c, st):
        v = st.heap.get((lp, c))
        if v is None:
            if lp.op == 'ite':
                return ite(lp.args[0], self.counter(lp.args[1], c, st), self.counter(lp.args[2], c, st))
            return t.attr(lp, c)
        return v

    def lp_add(self, qual, lp, c, n_add, vals, st, n):
        self.event(st, 'call', qual, [self.val(v, st) for v in vals], n)
        st.heap[(lp, c)] = t.add(self.counter(lp, c, st), n_add)
        return NONE

    def instantiate(self, name, args, kw, st, n):
        if name in self.prog.namedtuples:
            return self.make_nt(name, args, kw, st)
        f = self.prog.find_method(name, '__init__')
        vals = []
        if f is not None and not f.node.args.vararg:
            b = self.bind(f, [NONE] + list(args), kw, st)
            vals = [b[nm] for nm, _ in f.params()][1:]
        else:
            vals = list(args) + [mk('kw', k, v) for k, v in sorted(kw.items())]
        rvals = [self.resolve(self.val(v, st), st.heap) for v in vals]
        if name in self.prog.classes and any('Error' in b or 'Exception' in b for b in self.prog.classes[name].bases):
            return mk('new', name, *rvals)
        key = ('new', name, tuple(t.canon(v) for v in rvals))
        k = self.occ.get(key, 0)
        self.occ[key] = k + 1
        r = mk('new', name, *(rvals + ([num(k)] if k else [])))
        eff = self.effects.get(name + '.__init__') if self.effects is not None else None
        pre = self.dirty(eff, st)
        if eff is None or eff.ext or eff.writes - {'_frozen'} or pre:
            # an object whose creation changes nothing else only matters where it is used
            self.event(st, 'new', name, vals, n, pre)
        if name == 'LpInstance':
            st.heap[(r, '#nrows')] = ZERO
            st.heap[(r, '#ncols')] = ZERO
        if eff is not None:
            self.havoc_except(eff, r, st)
        return r

    def havoc_except(self, eff, r, st):
        for (b, f) in list(st.heap):
            if b.op == 'ref' and f == '#' or b is r:
                continue
            if f in eff.writes:
                st.heap[(b, f)] = mk('post', b, f, r)

    def type_of(self, v):
        'class name of a value, by annotation tables'
        op = v.op
        if op == 'param':
            if v.args[0] == 'self':
                for f in reversed(self.stack):
                    if f.cls:
                        return f.cls
            return self.hints.get(v.args[0])
        if op == 'attr':
            return self.hints.get('.' + v.args[1]) or self.hints.get(v.args[1])
        if op == 'new':
            return v.args[0] if v.args[0] in self.prog.classes else None
        if op in ('res', 'call'):
            return self.hints.get(v.args[0] + '()')
        if op == 'ite':
            return self.type_of(v.args[1]) or self.type_of(v.args[2])
        if op == 'index':
            b = v.args[0]
            if b.op == 'attr':
                return self.hints.get('[]' + b.args[1])
            if b.op == 'param':
                return self.hints.get('[]' + b.args[0])
        if op in ('first', 'lastsuch'):
            return self.type_of(v.args[3])
        if op == 'post':
            return self.hints.get('.' + str(v.args[1])) or self.hints.get(v.args[1])
        if op == 'phi':
            return self.hints.get(v.args[1])
        return None

    def call_method(self, base, name, args, kw, st, n):
        if base.op == 'ite' and self.kind_of(base) is None:
            c, x, y = base.args
            if x is NONE:
                return self.call_method(y, name, args, kw, st, n)
            if y is NONE:
                return self.call_method(x, name, args, kw, st, n)
        cls = self.type_of(base)
        if base.op == 'param' and base.args[0] == 'self' and cls is None and self.stack:
            cls = self.stack[-1].cls
        if cls is not None:
            f = self.prog.find_method(cls, name)
            if f is None and cls + '.' + name in self.spec:
                f = self.spec[cls + '.' + name]
            if f is not None:
                over = [c for c in self.prog.subclasses(cls) if name in self.prog.classes[c].methods]
                a = list(args) if f.is_static else [base] + list(args)
                if over and not (base.op == 'param' and base.args[0] == 'self' and False):
                    b = self.bind(f, a, kw, st)
                    vals = [b[nm] for nm, _ in f.params()]
                    return self.call_event(f.qual, [self.val(v, st) for v in vals], vals, st, n)
                return self.call_func(f, a, kw, st, n)
            # unknown method of a known class
        kind = self.kind_of(base)
        if kind is None and cls is None:
            owners = self.prog.method_owners.get(name, [])
            if owners and name not in CONTAINER_METHODS:
                roots = [f for f in owners]
                if len(roots) == 1:
                    f = roots[0]
                    return self.call_func(f, list(args) if f.is_static else [base] + list(args), kw, st, n)
                # several: choose the common base
                f = self.common_base(roots)
                if f is not None:
                    b = self.bind(f, [base] + list(args), kw, st)
                    vals = [b[nm] for nm, _ in f.params()]
                    return self.call_event(f.qual, [self.val(v, st) for v in vals], vals, st, n)
        return self.container_method(base, name, args, kw, st, n)

    def common_base(self, funcs):
        for f in funcs:
            if all(f.cls in self.prog.mro(g.cls) for g in funcs):
                return f
        return None

    def container_method(self, base, name, args, kw, st, n):
        b = self.val(base, st)
        a = [self.val(x, st) for x in args]
        kind = self.kind_of(base)
        if name == 'append' and len(args) == 1:
            self.mutate(st, base, lambda c: t.concat(as_seq(c), mk('seq', t.el(args[0]))))
            return NONE
        if name == 'extend' and len(args) == 1:
            self.mutate(st, base, lambda c: t.concat(as_seq(c), as_seq(a[0])))
            return NONE
        if name == 'insert' and len(args) == 2 and a[0] is ZERO:
            self.mutate(st, base, lambda c: t.concat(mk('seq', t.el(args[1])), as_seq(c)))
            return NONE
        if name == 'pop':
            if not args or a[0].op == 'num' and a[0].args[0] == -1:
                r = t.index(b, num(-1))
                self.mutate(st, base, poplast)
                return r
            if a[0] is ZERO and kind != 'dict':
                r = t.index(b, ZERO)
                self.mutate(st, base, lambda c: t.slice_(c, ONE, NONE))
                return r
            self.mutate(st, base, lambda c: mk('del', c, a[0]))
            return mk('index', b, a[0])
        if name in ('remove', 'discard'):
            self.mutate(st, base, lambda c: mk('removed', c, a[0]))
            return NONE
        if name == 'clear':
            self.mutate(st, base, lambda c: t.EMPTY)
            return NONE
        if name == 'add':
            self.mutate(st, base, lambda c: mk('setadd', c, a[0]))
            return NONE
        if name == 'update':
            self.mutate(st, base, lambda c: mk('updated', c, *a))
            return NONE
        if name in ('sort', 'reverse'):
            self.mutate(st, base, lambda c: mk('call', 'sorted' if name == 'sort' else 'reversedlist', c, *a))
            return NONE
        if name == 'get' and b.op == 'dput':
            return dict_get(b, a[0], a[1] if len(a) > 1 else NONE)
        if name == 'get' and len(a) in (1, 2) and not kw:
            c = self.contains(a[0], b)
            d = a[1] if len(a) == 2 else NONE
            return t.lookup(b, a[0]) if c.op == 'in' and d is NONE else ite(c, t.index(b, a[0]), d)
        if name == 'format' and b.op == 'str':
            return self.str_format(b, a, {k: self.val(v, st) for k, v in kw.items()})
        if name == 'join':
            return mk('call', '.join', b, *[as_seq(x) for x in a])
        if name == 'dot' and len(a) == 1:
            return self.fresh(st, 'arr', mk('call', 'dot', b, a[0]))
        if name == 'transpose' and not a:
            return t.transpose(b)
        if name == 'tocsc':
            return mk('call', 'csc', b)
        if name in ('reshape',):
            return b
        if name in IDENTITY_METHODS:
            if name in FRESH_METHODS:
                k = kind or ('list' if name == 'tolist' else 'arr')
                if name == 'tolist':
                    k = 'list'
                if name == 'toarray':
                    k = 'arr'
                if name == 'copy' and kind is None:
                    k = 'copy'
                return self.fresh(st, k, b)
            return b
        if name in ('sum', 'min', 'max', 'any', 'all') and not a and not kw:
            return self.reduce(name, b)
        if name in ('items', 'keys', 'values', 'startswith', 'endswith', 'strip', 'split', 'index', 'count', 'lower',
                    'upper', 'getrow', 'getcol', 'replace', 'rjust', 'ljust', 'join', 'difference', 'get', 'argmin',
                    'argmax', 'conj', 'min', 'max', 'any', 'all', 'sum', 'isdigit'):
            r = mk('call', '.' + name, b, *(a + [mk('kw', k, self.val(v, st)) for k, v in sorted(kw.items())]))
            if name in ('startswith', 'endswith', 'any', 'all', 'isdigit'):
                return mk('boolcall', '.' + name, *r.args[1:])
            return r
        vals = [base if base.op != 'ref' else b] + a + [mk('kw', k, self.val(v, st)) for k, v in sorted(kw.items())]
        self.event(st, 'callm', '.' + name, vals, n)
        return self.result(st, '.' + name, vals)

    def reduce(self, name, b):
        if name in ('any', 'all') and b.op == 'seq':
            parts = []
            for s in b.args:
                if s.op == 'el':
                    c = truthy(s.args[0])
                    parts.append(c if name == 'any' else bnot(c))
                elif s.op == 'rep':
                    i, cnt, body = s.args
                    inner = []
                    ok = True
                    for g, e in (self.body_items(body) or [(None, None)]):
                        if g is None:
                            ok = False
                            break
                        c = truthy(e)
                        inner.append(band(g, c if name == 'any' else bnot(c)))
                    if not ok:
                        return mk('boolcall', name, b)
                    parts.append(t.exists(i, cnt, bor(*inner)))
                elif s.op == 'condseg':
                    parts.append(band(s.args[0], truthy_any(self, name, s.args[1])))
                    parts.append(band(bnot(s.args[0]), truthy_any(self, name, s.args[2])))
                else:
                    return mk('boolcall', name, b)
            r = bor(*parts)
            return r if name == 'any' else bnot(r)
        if name == 'sum' and b.op == 'seq':
            tot = ZERO
            for s in b.args:
                if s.op == 'el':
                    tot = t.add(tot, s.args[0])
                elif s.op == 'rep':
                    i, cnt, body = s.args
                    items = self.body_items(body)
                    if items is None:
                        return mk('call', 'sum', b)
                    for g, e in items:
                        tot = t.add(tot, t.psum(i, cnt, ite(g, e, ZERO)))
                else:
                    return mk('call', 'sum', b)
            return tot
        if name in ('min', 'max') and b.op == 'seq' and all(s.op == 'el' for s in b.args):
            return minmax(name, [s.args[0] for s in b.args])
        if name in ('any', 'all'):
            return mk('boolcall', name, b)
        return mk('call', name, b)

    def builtin(self, name, args, kw, st, n):
        a = [self.val(x, st) for x in args]
        if name == 'len':
            v = a[0]
            if v.op in ('dput', 'dictc', 'setc', 'setadd', 'removed', 'del', 'updated'):
                return mk('len', v)
            return t.length(v)
        if name == 'range':
            lo, hi, step = ZERO, a[0], ONE
            if len(a) >= 2:
                lo, hi = a[0], a[1]
            if len(a) == 3:
                step = a[2]
            return self.to_seq(mk('call', 'range', lo, hi, step), st) if step is ONE else mk('call', 'range', lo, hi, step)
        if name == 'enumerate':
            start = a[1] if len(a) > 1 else self.val(kw['start'], st) if 'start' in kw else ZERO
            return mk('call', 'enumerate', a[0], start)
        if name == 'zip':
            return mk('call', 'zip', *a)
        if name == 'reversed':
            return mk('call', 'reversed', a[0])
        if name in ('list', 'tuple'):
            if not a:
                return self.fresh(st, 'list', t.EMPTY)
            return self.fresh(st, 'list', self.to_seq(a[0], st))
        if name == 'dict':
            if not a and not kw:
                return self.fresh(st, 'dict', mk('dictc'))
            if not a:
                c = mk('dictc')
                for k, v in kw.items():
                    c = mk('dput', c, mk('str', k), v)
                return self.fresh(st, 'dict', c)
            if len(a) == 1 and not kw and self.to_seq(a[0], st).op == 'seq':
                return self.fresh(st, 'dict', self.gather('dict', self.to_seq(a[0], st), st, n))
            return mk('call', 'dict', *(a + [mk('kw', k, self.val(v, st)) for k, v in sorted(kw.items())]))
        if name in ('set', 'frozenset'):
            if not a:
                return self.fresh(st, 'set', mk('setc'))
            if self.to_seq(a[0], st).op == 'seq':
                return self.fresh(st, 'set', self.gather('set', self.to_seq(a[0], st), st, n))
            return self.fresh(st, 'set', mk('call', 'set', as_seq(a[0])))
        if name == 'float':
            if a and a[0].op == 'str':
                s = a[0].args[0].lower().lstrip('+')
                if s in ('inf', 'infinity'):
                    return t.INF
                if s in ('-inf', '-infinity'):
                    return t.neg(t.INF)
            return a[0] if a else ZERO
        if name == 'int':
            if a and (t.is_int(a[0])):
                return a[0]
            if a and t.is_bool(a[0]):
                return ite(a[0], ONE, ZERO)
            return mk('call', 'int', *a)
        if name == 'bool':
            return truthy(a[0])
        if name == 'str':
            return a[0] if a[0].op in ('str', 'fmt') else t.fmt([strc(''), a[0]]) if a[0].op != 'num' else \
                strc(str(a[0].args[0]))
        if name == 'isinstance':
            cl = args[1]
            cv = self.val(cl, st)
            names = [s.args[0] for s in cv.args] if cv.op == 'seq' else [cv]
            return bor(*[self.isinst(a[0], args[0], c) for c in names])
        if name in ('min', 'max'):
            if len(a) >= 2:
                return minmax(name, a)
            if not kw and len(a) == 1:
                return self.reduce(name, self.to_seq(a[0], st) if a[0].op == 'call' else a[0])
            return mk('call', name, *(a + [mk('kw', k, self.val(v, st)) for k, v in sorted(kw.items())]))
        if name in ('any', 'all', 'sum') and len(a) == 1:
            return self.reduce(name, self.to_seq(a[0], st) if a[0].op in ('call',) else a[0])
        if name == 'abs':
            if a[0].op == 'num':
                return num(abs(a[0].args[0]))
            return mk('call', 'abs', a[0])
        if name == 'getattr' and len(a) >= 2 and a[1].op == 'str':
            if len(a) == 2:
                return self.getattr(args[0], a[1].args[0], st, n)
            return mk('call', 'getattr', *a)
        if name == 'setattr' and a[1].op == 'str':
            self.setattr(args[0], a[1].args[0], args[2], st, n)
            return NONE
        if name in ('hasattr', 'callable', 'issubclass'):
            return mk('boolcall', name, *a)
        if name == 'sorted':
            return mk('call', 'sorted', *([as_seq(a[0])] + [mk('kw', k, self.val(v, st)) for k, v in
                                                            sorted(kw.items())]))
        if name in ('map', 'filter') or name == 'next':
            if name == 'map' and len(args) == 2:
                return self.map_call(args[0], a[1], st, n)
            if name == 'filter' and len(args) == 2:
                return self.filter_call(args[0], a[1], st, n)
            return mk('call', name, *a)
        if name in ('print', 'super'):
            return NONE
        if name in ('round', 'repr', 'type', 'id', 'divmod', 'pow', 'format', 'iter', 'vars', 'hash', 'ord', 'chr'):
            return mk('call', name, *(a + [mk('kw', k, self.val(v, st)) for k, v in sorted(kw.items())]))
        vals = a + [mk('kw', k, self.val(v, st)) for k, v in sorted(kw.items())]
        self.event(st, 'callb', name, vals, n)
        return self.result(st, name, vals)

    def map_call(self, f, src, st, n):
        acc = self.fresh(st, 'list', t.EMPTY)

        def body(elem, bst):
            v = self.call_value(f, [elem], {}, bst, n)
            self.mutate(bst, acc, lambda c: t.concat(c if c.op == 'seq' else mk('seq', mk('spread', c)),
                                                     mk('seq', t.el(v))))
            return bst
        self.frames.append([])
        out = self.run_segments(src, n, st.copy(), body)
        self.frames.pop()
        st.heap = out.heap
        return out.heap[(acc, '#')]

    def filter_call(self, f, src, st, n):
        acc = self.fresh(st, 'list', t.EMPTY)

        def body(elem, bst):
            c = self.tru(self.call_value(f, [elem], {}, bst, n), bst)
            self.mutate(bst, acc, lambda x: ite(c, t.concat(x if x.op == 'seq' else mk('seq', mk('spread', x)),
                                                            mk('seq', t.el(elem))), x))
            return bst
        self.frames.append([])
        out = self.run_segments(src, n, st.copy(), body)
        self.frames.pop()
        st.heap = out.heap
        return out.heap[(acc, '#')]

    def isinst(self, v, raw, c):
        name = c.args[0].split(':')[-1] if c.op == 'sym' else t.show(c)
        name = name.split('.')[-1]
        k = self.kind_of(raw)
        if k == 'list' and name == 'list':
            return TRUE
        if k == 'arr' and name == 'ndarray':
            return TRUE
        if v.op == 'new' and name in self.prog.classes:
            return TRUE if name in self.prog.mro(v.args[0]) else FALSE
        return t.isinst(raw if v.op == 'seq' else v, name)

    def to_seq(self, v, st):
        'materialise an iterable as a seq term'
        if v.op == 'seq':
            return v
        if v.op == 'call' and v.args[0] in ('range', 'enumerate', 'zip', 'reversed'):
            segs = self.iter_segments(v, st)
            out = []
            for x in segs:
                if x[0] == 'one':
                    out.append(t.el(x[2]) if x[1] is TRUE else t.condseg(x[1], mk('seq', t.el(x[2])), t.EMPTY))
                else:
                    body = []
                    for g, e in x[3]:
                        body.append(t.el(e) if g is TRUE else t.condseg(g, mk('seq', t.el(e)), t.EMPTY))
                    out.append(t.rep(x[1], x[2], t.seq(*body)))
            return t.seq(*out)
        return v

    def ext_call(self, name, args, kw, st, n):
        if name in IGNORED_CALLS:
            if self.printing() and name.endswith('cprint'):
                self.event(st, 'callx', 'print', args, n)
            return NONE
        a = [self.val(x, st) for x in args]
        k = {x: self.val(v, st) for x, v in kw.items()}
        if name in ('sparse.csr_matrix', 'sparse.csc_matrix', 'sparse.csr.csr_matrix'):
            return self.sparse_ctor('csc' if 'csc' in name else 'csr', a, k)
        if name in ('sparse.isspmatrix_csr', 'sparse.issparse'):
            return mk('boolcall', name, *a)
        if name in IDENTITY_CALLS and len(a) >= 1:
            if name in FRESH_CALLS:
                return self.fresh(st, 'arr', a[0])
            return a[0] if args[0].op != 'ref' else args[0]
        if name in ('np.zeros', 'np.empty'):
            s = a[0]
            if s.op == 'seq' and len(s.args) == 1 and s.args[0].op == 'el':
                s = s.args[0].args[0]
            if s.op == 'seq':
                return self.fresh(st, 'arr', mk('call', 'np.zeros', s))
            i = t.new_idx()
            return self.fresh(st, 'arr', t.seq(t.rep(i, s, mk('seq', t.el(ZERO)))) if s.op != 'attr' or
                              s.args[1] != 'shape' else mk('call', 'np.zeros', s))
        if name == 'np.ones':
            i = t.new_idx()
            if a[0].op != 'seq':
                return self.fresh(st, 'arr', t.seq(t.rep(i, a[0], mk('seq', t.el(ONE)))))
        if name in ('np.identity', 'sparse.identity', 'np.eye', 'sparse.eye', 'scipy.identity'):
            return self.fresh(st, 'arr', mk('call', 'identity', a[0])) if name.startswith('np') else \
                mk('call', 'identity', a[0])
        if name in ('np.dot', 'np.matmul'):
            return self.fresh(st, 'arr', mk('call', 'dot', a[0], a[1]))
        if name in ('np.sum', 'np.any', 'np.all', 'np.min', 'np.max', 'np.amin', 'np.amax') and len(a) == 1 and not k:
            nm = {'amin': 'min', 'amax': 'max'}.get(name[3:], name[3:])
            return self.reduce(nm, a[0])
        if name in ('np.add', 'np.subtract', 'np.multiply') and len(a) == 2 and not k and \
                any(x.op == 'poly' for x in a) and not any(x.op == 'seq' for x in a):
            # arrays: the result of an arithmetic expression is one
            return {'np.add': t.add, 'np.subtract': t.sub, 'np.multiply': t.mul}[name](a[0], a[1])
        if name in ('np.negative',):
            return t.neg(a[0])
        if name == 'np.concatenate' and not k and a[0].op == 'seq' and all(s.op == 'el' for s in a[0].args) \
                and False:
            pass
        if name == 'np.arange' and len(a) == 1:
            return self.to_seq(mk('call', 'range', ZERO, a[0], ONE), st)
        if name.startswith('glpk.'):
            return self.glpk_call(name[5:], args, a, st, n)
        vals = a + [mk('kw', x, v) for x, v in sorted(k.items()) if x not in ('dtype', 'format')]
        if name == 'np.abs':
            return mk('call', 'abs', *vals)
        if name.split('.')[0] in ('np', 'sparse', 'math', 'scipy', 'sp', 'itertools', 'functools', 'copy', 'sympy',
                                  'ast', 'operator') or name in ('sympy', 'deepcopy') \
                or name.startswith('scipy') or name.startswith('sympy'):
            if name.startswith('np.random'):
                self.event(st, 'callx', name, vals, n)
                return self.result(st, name, vals)
            if name in ('np.allclose', 'np.isclose', 'np.array_equal', 'np.isfinite', 'np.isnan', 'math.isinf',
                        'math.isnan'):
                return mk('boolcall', name, *vals)
            return mk('call', name, *vals)
        if name.startswith('collections.'):
            short = name.split('.')[-1]
            if short in ('deque',):
                return self.fresh(st, 'list', self.to_seq(a[0], st) if a else t.EMPTY)
            if short in ('OrderedDict', 'defaultdict'):
                return self.fresh(st, 'dict', mk('dictc')) if not a else mk('call', short, *vals)
        self.event(st, 'callx', name, vals, n)
        return self.result(st, name, vals)

    def sparse_ctor(self, fm, a, k):
        shape = k.get('shape')
        if len(a) > 1 and shape is None:
            shape = a[1]
        x = a[0]
        if x.op == 'seq' and len(x.args) == 3 and all(s.op == 'el' for s in x.args) and shape is not None:
            d, i, p = [s.args[0] for s in x.args]
            d, i, p = [z if z.op != 'ref' else z for z in (d, i, p)]
            return mk('mat', fm, d, i, p, t.index(shape, ZERO), t.index(shape, ONE))
        if x.op == 'seq' and len(x.args) == 2 and all(s.op == 'el' for s in x.args) and shape is not None:
            first = x.args[1].args[0]
            if first.op == 'seq' and len(first.args) == 2:
                return mk('coo', fm, x.args[0].args[0], first, t.index(shape, ZERO), t.index(shape, ONE))
        if x.op == 'seq' and len(x.args) == 2 and all(s.op == 'el' for s in x.args) and shape is None \
                and all(t.numeric_like(s.args[0]) for s in x.args):
            return mk('call', 'csrzeros', x)
        if fm == 'csc':
            return mk('call', 'csc', x) if not (x.op == 'call' and x.args[0] == 'csc') else x
        if x.op == 'call' and x.args[0] == 'csc':
            return x.args[1]
        return x

    def glpk_call(self, name, args, a, st, n):
        def owner(lp):
            'the object that wraps a problem'
            return lp.args[0] if lp.op == 'attr' and lp.args[1] == 'lp' else lp

        if name in ('intArray', 'doubleArray'):
            return self.fresh(st, 'arr', mk('call', 'glpk.' + name, *a))
        if name == 'glp_get_num_rows':
            return self.counter(owner(a[0]), '#nrows', st)
        if name == 'glp_get_num_cols':
            return self.counter(a[0], '#ncols', st)
        if name in ('glp_add_rows', 'glp_add_cols'):
            c = '#nrows' if name.endswith('rows') else '#ncols'
            self.event(st, 'glpk', name, a, n)
            lp = owner(a[0]) if c == '#nrows' else a[0]
            old = self.counter(lp, c, st)
            st.heap[(lp, c)] = t.add(old, a[1])
            return t.add(old, ONE)
        if name == 'glp_smcp':
            return self.fresh(st, 'obj', mk('call', 'glpk.glp_smcp'))
        if name.startswith('glp_get_') and name not in ('glp_get_mat_row', 'glp_get_mat_col'):
            return mk('call', 'glpk.' + name, *(a + [mk('ver', num(self.glpk_version()))])) if False else \
                mk('call', 'glpk.' + name, *a)
        if name in ('glp_get_mat_row', 'glp_get_mat_col'):
            a = a[:2] + [x if x is NONE else mk('sym', 'out%d' % k) for k, x in enumerate(a[2:4])]
        self.event(st, 'glpk', name, a, n)
        r = self.result(st, 'glpk.' + name, a)
        if name in ('glp_get_mat_row', 'glp_get_mat_col'):
            # fills the two arrays it is given
            for k, x in enumerate(args[2:4]):
                if x is not NONE:
                    st.heap[(x, '#')] = mk('filled', num(k), r)
        return r

    def glpk_version(self):
        return 0


class FakeFunc():
    'a nested function definition'

    def __init__(self, node, owner):
        self.node = node
        self.module = owner.module
        self.cls = owner.cls
        self.qual = owner.qual + '.' + getattr(node, 'name', 'lambda')


def has_yield(node):
    return any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(node))


def truthy_any(interp, name, s):
    r = interp.reduce(name, s)
    return r if name == 'any' else bnot(r)


def ext_name(full):
    for a, b in EXT_PREFIX:
        if full.startswith(a):
            return b + full[len(a):]
    if full in ('numpy', 'swiglpk', 'scipy.sparse'):
        return {'numpy': 'np', 'swiglpk': 'glpk', 'scipy.sparse': 'sparse'}[full]
    return full


def as_seq(x):
    if x.op == 'seq':
        return x
    if x.op == 'phi' or x.op == 'post':
        return mk('seq', mk('spread', x))
    if x.op == 'ite':
        return t.seq(t.condseg(x.args[0], as_seq(x.args[1]), as_seq(x.args[2])))
    return t.seq(t.spread(x))


def poplast(c):
    if c.op == 'seq' and c.args and c.args[-1].op == 'el':
        return mk('seq', *c.args[:-1])
    return t.slice_(c, NONE, num(-1))


def store(c, k, v):
    'content c with element k replaced'
    if c.op == 'ite':
        return ite(c.args[0], store(c.args[1], k, v), store(c.args[2], k, v))
    if k.op == 'sliceobj':
        if k.args == (NONE, NONE, NONE):
            return v
        return mk('call', 'setslice', c, *(k.args[:2] + (v,)))
    kc = t.as_const(k)
    if c.op == 'seq' and kc is not None and isinstance(kc, int):
        segs = list(c.args)
        if all(s.op == 'el' for s in segs) and -len(segs) <= kc < len(segs):
            segs[kc] = t.el(v)
            return mk('seq', *segs)
    if k.op == 'seq' and len(k.args) == 2 and all(x.op == 'el' for x in k.args):
        r, cc = k.args[0].args[0], k.args[1].args[0]
        if r.op != 'sliceobj' and cc.op != 'sliceobj' and False:
            return store(c, r, store(t.index(c, r), cc, v))
    if c.op == 'store' and c.args[1] is k:
        return mk('store', c.args[0], k, v)
    return mk('store', c, k, v)


def dict_get(d, k, default=None):
    conds = []
    cur = d
    while cur.op == 'dput':
        c = t.eq(k, cur.args[1])
        if c is TRUE:
            r = cur.args[2]
            for cc, vv in reversed(conds):
                r = ite(cc, vv, r)
            return r
        if c is not FALSE:
            conds.append((c, cur.args[2]))
        cur = cur.args[0]
    if cur.op == 'dictc':
        base = default if default is not None else mk('undef', 'key')
    else:
        base = mk('index', cur, k) if default is None else mk('call', '.get', cur, k, default)
    for cc, vv in reversed(conds):
        base = ite(cc, vv, base)
    return base


def minmax(name, vals):
    out = []
    for v in vals:
        if v.op == 'call' and v.args[0] == name and all(isinstance(x, T) and x.op != 'kw' for x in v.args[1:]) \
                and len(v.args) > 2:
            out.extend(v.args[1:])
        else:
            out.append(v)
    consts = [v for v in out if v.op == 'num']
    rest = []
    for v in out:
        if v.op != 'num' and v not in rest:
            rest.append(v)
    if consts:
        f = min if name == 'min' else max
        rest.append(num(f(c.args[0] for c in consts)))
    if len(rest) == 1:
        return rest[0]
    return mk('call', name, *sorted(rest, key=lambda q: q.uid))


def seqwise(f, x, y):
    'arithmetic on small explicit arrays is element-wise'
    def explicit(s):
        return s.op == 'seq' and all(q.op == 'el' for q in s.args)

    def onerep(s):
        return s.op == 'seq' and len(s.args) == 1 and s.args[0].op == 'rep' and len(s.args[0].args[2].args) == 1 and \
            s.args[0].args[2].args[0].op == 'el'
    if explicit(x) and explicit(y) and len(x.args) == len(y.args):
        return mk('seq', *[t.el(seqwise(f, p.args[0], q.args[0])) for p, q in zip(x.args, y.args)])
    if explicit(x) and t.is_scalar(y):
        return mk('seq', *[t.el(seqwise(f, p.args[0], y)) for p in x.args])
    if explicit(y) and t.is_scalar(x):
        return mk('seq', *[t.el(seqwise(f, x, q.args[0])) for q in y.args])
    if onerep(x) and t.is_scalar(y):
        i, n, b = x.args[0].args
        return t.seq(t.rep(i, n, mk('seq', t.el(seqwise(f, b.args[0].args[0], y)))))
    if onerep(y) and t.is_scalar(x):
        i, n, b = y.args[0].args
        return t.seq(t.rep(i, n, mk('seq', t.el(seqwise(f, x, b.args[0].args[0])))))
    if onerep(x) and onerep(y) and x.args[0].args[1] is y.args[0].args[1]:
        i, n, b = x.args[0].args
        j, _, b2 = y.args[0].args
        e2 = t.subst(b2.args[0].args[0], {j: i})
        return t.seq(t.rep(i, n, mk('seq', t.el(seqwise(f, b.args[0].args[0], e2)))))
    return f(x, y)


# ---------------------------------------------------------------- recurrences

_foreach = {}


def indexed_foreach(s):
    '''for k in range(len(xs)) whose body uses k only as xs[k] (and never rebinds xs): (xs, equivalent for over xs)'''
    if s in _foreach:
        return _foreach[s]
    r = None
    it = s.iter
    if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'range' and len(it.args) == 1 and \
            isinstance(s.target, ast.Name) and isinstance(it.args[0], ast.Call) and \
            isinstance(it.args[0].func, ast.Name) and it.args[0].func.id == 'len' and len(it.args[0].args) == 1 and \
            isinstance(it.args[0].args[0], ast.Name):
        k, xs = s.target.id, it.args[0].args[0].id
        fresh = '%s@%s' % (xs, k)
        body = copy.deepcopy(s.body)

        class Sub(ast.NodeTransformer):
            def visit_Subscript(self, n):
                if isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == xs and \
                        isinstance(n.slice, ast.Name) and n.slice.id == k:
                    return ast.copy_location(ast.Name(fresh, ast.Load()), n)
                return self.generic_visit(n)
        body = [Sub().visit(b) for b in body]
        if not any(isinstance(n, ast.Name) and n.id in (k, xs) for b in body for n in ast.walk(b)):
            r = (xs, ast.copy_location(ast.For(ast.Name(fresh, ast.Store()), it.args[0].args[0], body, s.orelse), s))
    _foreach[s] = r
    return r


def at_index(value, idx, k):
    'value at the start of iteration k'
    if value.op == 'atstart':
        # ('atstart', init, last): init at 0, last(idx-1) afterwards
        init, last = value.args
        c = t.sgn(k, {1})
        return ite(c, t.subst(last, {idx: t.sub(k, ONE)}), init)
    return t.subst(value, {idx: k})


def first_value(idx, count, cond, v):
    'value of v at the first idx satisfying cond'
    v = boolform.under(cond, v)
    if idx not in t.free(v):
        return v
    if cond is TRUE:
        return t.subst(v, {idx: ZERO})
    if v.op == 'ite' and idx not in t.free(v.args[0]):
        return ite(v.args[0], first_value(idx, count, cond, v.args[1]), first_value(idx, count, cond, v.args[2]))
    return mk('first', idx, count, cond, v)


def solve(phi, init, n, idx, count, unresolved):
    '''value of the variable at the start of iteration idx, as a term in idx; None if not solvable yet'''
    fv = t.free(n)
    others = (unresolved & fv) - {phi}
    if n is phi:
        return init
    if others:
        return None
    if phi not in fv:
        # recomputed every iteration
        if idx not in fv:
            return ite(t.sgn(idx, {1}), n, init) if n is not init else n
        prev = t.subst(n, {idx: t.sub(idx, ONE)})
        if t.subst(n, {idx: num(-1)}) is init:
            return prev
        if init.op == 'undef':
            return prev
        if init is t.subst(n, {idx: ZERO}) and False:
            return prev
        return ite(t.sgn(idx, {1}), prev, init)
    r = solve_seq(phi, init, n, idx)
    if r is not None:
        return r
    r = solve_bool(phi, init, n, idx)
    if r is not None:
        return r
    r = solve_acc(phi, init, n, idx)
    if r is not None:
        return r
    r = solve_store(phi, init, n, idx, count)
    if r is not None:
        return r
    return None


def make_fold(phi, init, n, idx):
    'value at the start of iteration idx of the recurrence phi := n'
    j = t.new_idx()
    p = t.new_phi('')
    return mk('fold', j, p, idx, t.subst(n, {idx: j, phi: p}), init)


def accessor(pa, na, ia, pb, nb, ib):
    'if variable a always equals g(variable b), return g(phi_b)'
    if na.op != 'ite' or nb.op != 'ite' or na.args[0] is not nb.args[0]:
        return None
    if na.args[2] is pa and nb.args[2] is pb:
        xa, xb = na.args[1], nb.args[1]
    elif na.args[1] is pa and nb.args[1] is pb:
        xa, xb = na.args[2], nb.args[2]
    else:
        return None
    if xb.op in ('num', 'bool', 'none', 'str'):
        return None
    hole = mk('sym', 'hole')
    g = t.subst(xa, {xb: hole})
    if hole not in set(t.subterms(g)) or t.free(g) - t.free(ia):
        return None
    if t.subst(g, {hole: ib}) is not ia:
        return None
    return t.subst(g, {hole: pb})


def solve_acc(phi, init, n, idx):
    j = t.new_idx()
    # phi + d, or ite(c, phi + d, phi)
    if n.op == 'ite':
        c, a, b = n.args
        if phi in t.free(c):
            # running maximum / minimum
            return solve_minmax(phi, init, n, idx)
        da, db = t.sub(a, phi), t.sub(b, phi)
        if phi not in t.free(da) and phi not in t.free(db):
            return t.add(init, t.psum(j, idx, t.subst(ite(c, da, db), {idx: j})))
        # latch: value of the last iteration in which c held
        if b is phi and phi not in t.free(a):
            return t.lastsuch(j, idx, t.subst(c, {idx: j}), t.subst(a, {idx: j}), init)
        if a is phi and phi not in t.free(b):
            return t.lastsuch(j, idx, t.subst(bnot(c), {idx: j}), t.subst(b, {idx: j}), init)
        # nested latch
        g, v = latch_parts(n, phi)
        if g is not None and phi not in t.free(g) and phi not in t.free(v):
            return t.lastsuch(j, idx, t.subst(g, {idx: j}), t.subst(v, {idx: j}), init)
        return None
    if n.op == 'call' and n.args[0] in ('max', 'min') and phi in n.args[1:]:
        rest = [x for x in n.args[1:] if x is not phi]
        if all(phi not in t.free(x) for x in rest):
            x = minmax(n.args[0], rest)
            return mk('red', n.args[0], num(0), j, idx, t.subst(x, {idx: j}), init)
        return None
    d = t.sub(n, phi)
    if phi not in t.free(d):
        return t.add(init, t.psum(j, idx, t.subst(d, {idx: j})))
    # product
    if n.op == 'poly' and len(n.args) == 1:
        m, c = n.args[0]
        if m.count(phi) == 1:
            rest = [x for x in m if x is not phi]
            if all(phi not in t.free(x) and idx not in t.free(x) for x in rest) and all(t.is_scalar(x) for x in rest):
                r = num(c)
                for x in rest:
                    r = t.mul(r, x)
                return t.mul(mk('call', 'pow', r, idx), init)
    return None


def latch_parts(n, phi):
    'n = value v when g holds, phi otherwise'
    if n is phi:
        return FALSE, None
    if n.op == 'ite':
        c, a, b = n.args
        ga, va = latch_parts(a, phi)
        gb, vb = latch_parts(b, phi)
        if ga is None or gb is None:
            return None, None
        g = bor(band(c, ga), band(bnot(c), gb))
        if va is None:
            v = vb
        elif vb is None:
            v = va
        else:
            v = ite(c, va, vb)
        return g, v
    if phi in t.free(n):
        return None, None
    return TRUE, n


def solve_minmax(phi, init, n, idx):
    j = t.new_idx()
    c, a, b = n.args
    if c.op != 'sgn':
        return None
    p, mask = c.args
    for x, other, flip in ((a, b, False), (b, a, True)):
        if other is phi and phi not in t.free(x):
            m = mask if not flip else frozenset({-1, 0, 1}) - mask
            # x taken when sign(p) in m, p = +-(phi - x) up to a positive factor
            if p is t.sub(phi, x):
                take_small = m <= frozenset({0, 1})     # phi - x > 0: x smaller
                name = 'min' if take_small else 'max' if m <= frozenset({-1, 0}) else None
            elif p is t.sub(x, phi):
                name = 'min' if m <= frozenset({-1, 0}) else 'max' if m <= frozenset({0, 1}) else None
            else:
                return None
            if name:
                return mk('red', name, num(0), j, idx, t.subst(x, {idx: j}), init)
    return None


def solve_bool(phi, init, n, idx):
    'boolean latches'
    tp = truthy(phi)
    j = t.new_idx()
    if n.op == 'or' and tp in n.args:
        rest = bor(*[x for x in n.args if x is not tp])
        if phi not in t.free(rest):
            return bor(truthy(init), t.exists(j, idx, t.subst(rest, {idx: j})))
    if n.op == 'and' and tp in n.args:
        rest = band(*[x for x in n.args if x is not tp])
        if phi not in t.free(rest):
            return band(truthy(init), bnot(t.exists(j, idx, t.subst(bnot(rest), {idx: j}))))
    if n.op == 'ite':
        c, a, b = n.args
        for x, o, g in ((a, b, c), (b, a, bnot(c))):
            if o is phi and x in (TRUE, FALSE) and phi not in t.free(g):
                e = t.exists(j, idx, t.subst(g, {idx: j}))
                if x is TRUE:
                    return bor(truthy(init), e)
                return band(truthy(init), bnot(e))
    return None


def solve_seq(phi, init, n, idx):
    'accumulated lists'
    j = t.new_idx()
    if n.op == 'ite':
        c, a, b = n.args
        if phi not in t.free(c):
            pa, pb = tail_of(a, phi), tail_of(b, phi)
            if pa is not None and pb is not None:
                tail = mk('seq', t.condseg(c, pa, pb))
                return t.concat(as_seq(init), t.seq(t.rep(j, idx, t.subst(tail, {idx: j}))))
        return None
    tail = tail_of(n, phi)
    if tail is not None:
        return t.concat(as_seq(init), t.seq(t.rep(j, idx, t.subst(tail, {idx: j}))))
    return None


def tail_of(n, phi):
    if n is phi:
        return t.EMPTY
    if n.op == 'ite':
        c, a, b = n.args
        if phi in t.free(c):
            return None
        pa, pb = tail_of(a, phi), tail_of(b, phi)
        if pa is None or pb is None:
            return None
        return t.seq(t.condseg(c, pa, pb))
    if n.op != 'seq' or not n.args:
        return None
    h = n.args[0]
    if h.op == 'condseg':
        c = h.args[0]
        if phi in t.free(c):
            return None
        pa, pb = tail_of(h.args[1], phi), tail_of(h.args[2], phi)
        if pa is None or pb is None:
            return None
        rest = mk('seq', *n.args[1:])
        if phi in t.free(rest):
            return None
        return t.seq(t.condseg(c, pa, pb), *rest.args)
    if h.op == 'spread' and h.args[0] is phi:
        rest = mk('seq', *n.args[1:])
        if phi not in t.free(rest):
            return rest
    return None


def solve_store(phi, init, n, idx, count):
    'arrays filled element by element'
    j = t.new_idx()
    c = TRUE
    s = n
    if n.op == 'ite':
        cc, a, b = n.args
        if b is phi:
            c, s = cc, a
        elif a is phi:
            c, s = bnot(cc), b
        else:
            return None
    if s.op == 'store' and s.args[0] is phi:
        k, v = s.args[1], s.args[2]
        if phi in t.free(k) or phi in t.free(c):
            return None
        if phi in t.free(v):
            # may only use the element being replaced
            old = mk('index', phi, k)
            v2 = t.subst(v, {old: mk('sym', 'old')})
            if phi in t.free(v2):
                return None
            v = t.subst(v2, {mk('sym', 'old'): t.index(init, k)})
        # whole array rewritten in order: plain sequence
        if k is idx and t.length(init) is count and init.op == 'seq' and len(init.args) == 1 and \
                init.args[0].op == 'rep' and c is not None:
            i0, n0, b0 = init.args[0].args
            if len(b0.args) == 1 and b0.args[0].op == 'el':
                old = t.subst(b0.args[0].args[0], {i0: j})
                newv = ite(t.subst(c, {idx: j}), t.subst(v, {idx: j}), old)
                return t.prefix(idx, t.seq(t.rep(j, count, mk('seq', t.el(newv)))), init)
        return mk('storeloop', init, j, idx, t.subst(k, {idx: j}), t.subst(v, {idx: j}), t.subst(c, {idx: j}))
    return None


def touches_only(v, phi, idx):
    'v is phi with at most element idx replaced'
    if v is phi:
        return True
    if v.op == 'ite':
        return touches_only(v.args[1], phi, idx) and touches_only(v.args[2], phi, idx)
    if v.op == 'store':
        return v.args[1] is idx and touches_only(v.args[0], phi, idx)
    return False


def max_occ(a, b):
    'call numbering after two alternative branches'
    return {k: max(a.get(k, 0), b.get(k, 0)) for k in set(a) | set(b)}


def make_mu(pending, step, init, idx):
    'values at the start of iteration idx of a system of mutually dependent variables'
    keys = list(pending)
    nxt = {k: step(k) for k in keys}
    ini = {k: init(k) for k in keys}
    colors = {pending[k]: 0 for k in keys}
    for _ in range(3):
        memo = {}
        new = {pending[k]: t.H((t.digest(nxt[k], colors, memo), t.digest(ini[k], {}, {}))) for k in keys}
        colors = new
    out = {}
    for k in keys:
        # only the variables this one depends on
        need = {k}
        todo = [k]
        while todo:
            fv = t.free(nxt[todo.pop()])
            for q in keys:
                if q not in need and pending[q] in fv:
                    need.add(q)
                    todo.append(q)
        order = [k] + sorted((q for q in need if q != k), key=lambda q: colors[pending[q]])
        j = t.new_idx()
        m = {idx: j}
        ph = []
        for q in order:
            p = t.new_phi('')
            m[pending[q]] = p
            ph.append(p)
        out[pending[k]] = mk('mu', j, mk('vars', *ph), idx, *([t.subst(nxt[q], m) for q in order] +
                                                             [ini[q] for q in order]))
    return out


def while_count(brk, idx, depth=0):
    '''brk = exit condition at the top of iteration idx; if it has a conjunct/disjunct of the form idx >= n return
    (n, remaining exit condition)'''
    parts = brk.args if brk.op == 'or' else (brk,)
    for p in parts:
        if p.op == 'sgn':
            poly, mask = p.args
            d = t.sub(poly, idx)
            if idx not in t.free(d):
                # idx + d
                if mask == frozenset({0, 1}):
                    return t.neg(d), bor(*[x for x in parts if x is not p])
                if mask == frozenset({1}) and t.is_int(d):
                    return t.sub(ONE, d), bor(*[x for x in parts if x is not p])
                if mask == frozenset({0}) and t.is_int(d):
                    return t.neg(d), bor(*[x for x in parts if x is not p])
            d = t.add(poly, idx)
            if idx not in t.free(d):
                # d - idx
                if mask == frozenset({-1, 0}):
                    return d, bor(*[x for x in parts if x is not p])
                if mask == frozenset({-1}) and t.is_int(d):
                    return t.add(d, ONE), bor(*[x for x in parts if x is not p])
                if mask == frozenset({0}) and t.is_int(d):
                    return d, bor(*[x for x in parts if x is not p])
    # the bound depends on a condition that does not change in the loop
    if depth < 3:
        for a in sorted(boolform.atoms_of(brk, set()), key=lambda q: q.uid):
            if idx in t.free(a) or any(v.op == 'phi' for v in t.free(a)):
                continue
            n1, r1 = while_count(t.subst(brk, {a: TRUE, bnot(a): FALSE}), idx, depth + 1)
            if n1 is None:
                continue
            n2, r2 = while_count(t.subst(brk, {a: FALSE, bnot(a): TRUE}), idx, depth + 1)
            if n2 is None:
                continue
            return ite(a, n1, n2), ite(a, r1, r2)
    return None, brk
