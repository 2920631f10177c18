'''
Whole-program rules: facts about the syntax tree of every module that no comparison of single functions settles.

Each rule takes (session, property) and returns a Report: findings (key, message, location), the number of obligations
(sites or paths) it decided, and samples.  A site a rule cannot decide is counted as undecided and never reported.
'''

import ast

# modules nothing in the analysis uses any more (they do not even import under Python 3)
DEAD_MODULES = {'simulation', 'guard_opt_data', '_version'}

RULES = {}


class Report():
    def __init__(self, text):
        self.text = text
        self.findings = []
        self.obligations = 0
        self.undecided = 0
        self.samples = []

    def site(self, s):
        self.obligations += 1
        if len(self.samples) < 12:
            self.samples.append(s)

    def bad(self, key, msg, loc):
        self.findings.append((key, msg, loc))


def rule(fn):
    RULES[fn.__name__] = fn
    return fn


def live_funcs(prog):
    return [f for f in prog.funcs.values() if f.module.name not in DEAD_MODULES]


def loc(f, node=None):
    return (f.module.path, getattr(node, 'lineno', f.node.lineno), f.qual)


def dotted(n):
    'a.b.c as text, or None'
    parts = []
    while isinstance(n, ast.Attribute):
        parts.append(n.attr)
        n = n.value
    if isinstance(n, ast.Name):
        parts.append(n.id)
        return '.'.join(reversed(parts))
    return None


def ext_name(f, n):
    'dotted name of a library function with imports resolved, e.g. numpy.random.seed'
    d = dotted(n)
    if d is None:
        return None
    head, _, rest = d.partition('.')
    tgt = f.module.imports.get(head)
    if tgt is None:
        return d
    return tgt + ('.' + rest if rest else '')


def local_names(f):
    out = set(p for p, _ in f.params())
    for n in ast.walk(f.node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
    return out


# ------------------------------------------------------------------ call resolution

def callees(prog, f, call):
    'package functions a call may refer to ([] when unknown or external)'
    fn = call.func
    if isinstance(fn, ast.Name):
        r = prog.resolve_in_module(f.module, fn.id)
        if r is None:
            return []
        if r[0] == 'func':
            return [r[1]]
        if r[0] == 'class':
            m = prog.find_method(r[1].name, '__init__')
            return [m] if m else []
        return []
    if isinstance(fn, ast.Attribute):
        if isinstance(fn.value, ast.Name):
            nm = fn.value.id
            if nm == 'self' and f.cls:
                m = prog.find_method(f.cls, fn.attr)
                out = [m] if m else []
                for c in prog.subclasses(f.cls):
                    if fn.attr in prog.classes[c].methods:
                        out.append(prog.classes[c].methods[fn.attr])
                return out
            r = prog.resolve_in_module(f.module, nm)
            if r is not None:
                if r[0] == 'module' and fn.attr in r[1].funcs:
                    return [r[1].funcs[fn.attr]]
                if r[0] == 'module' and fn.attr in r[1].classes:
                    m = prog.find_method(fn.attr, '__init__')
                    return [m] if m else []
                if r[0] == 'class':
                    m = prog.find_method(r[1].name, fn.attr)
                    return [m] if m else []
                if r[0] == 'ext':
                    return []
        return [m for m in prog.method_owners.get(fn.attr, ()) if m.module.name not in DEAD_MODULES]
    return []


# ------------------------------------------------------------------ timers

class _TimerFlow():
    '''path-sensitive typestate: the stack of running timers along every path of one function.
    A path state is (stack, facts): stack is a tuple of timer names relative to the entry ('-x' was stopped without
    having been started here), facts are branch conditions over local names known on the path'''

    LIMIT = 256

    def __init__(self, prog, f, summaries):
        self.prog, self.f, self.sum = prog, f, summaries
        self.problems = []
        self.sites = 0
        self.exits = set()
        self.undecided = False

    def run(self):
        out = self.block(self.f.node.body, {((), frozenset())}, {})
        for s in out['fall']:
            self.exits.add(s[0])
        for s in out['return']:
            self.exits.add(s[0])
        return self.exits

    def name(self, n):
        if isinstance(n, ast.Constant):
            return repr(n.value)
        return ast.dump(n)

    def op(self, stack, kind, nm, node):
        if kind == 'tic':
            return stack + (nm,)
        if stack and not stack[-1].startswith('-'):
            if stack[-1] != nm:
                self.problems.append((node, 'timer %s is stopped while timer %s is running' % (nm, stack[-1])))
            return stack[:-1]
        return stack + ('-' + nm,)

    def effects_of(self, node, states):
        'apply timer calls inside an expression / simple statement, in source order'
        calls = [n for n in ast.walk(node) if isinstance(n, ast.Call)]
        for c in sorted(calls, key=lambda c: (c.end_lineno, c.end_col_offset)):
            if isinstance(c.func, ast.Attribute) and c.func.attr in ('tic', 'toc') and \
                    isinstance(c.func.value, ast.Name) and c.func.value.id == 'Timers' and len(c.args) == 1:
                self.sites += 1
                nm = self.name(c.args[0])
                states = {(self.op(s, c.func.attr, nm, c), k) for s, k in states}
            elif isinstance(c.func, ast.Attribute) and c.func.attr == 'reset' and \
                    isinstance(c.func.value, ast.Name) and c.func.value.id == 'Timers':
                states = {((), k) for s, k in states}
            else:
                cs = callees(self.prog, self.f, c)
                if len(cs) == 1 and cs[0].qual in self.sum:
                    new = set()
                    for s, k in states:
                        for ex in self.sum[cs[0].qual]:
                            s2 = s
                            for x in ex:
                                s2 = self.op(s2, 'toc', x[1:], c) if x.startswith('-') else self.op(s2, 'tic', x, c)
                            new.add((s2, k))
                    states = new
        killed = set()
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                killed.add(n.id)
        heap = bool(calls) or any(isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, ast.Store)
                                  for n in ast.walk(node))
        if killed or heap:
            new = set()
            for s, k in states:
                k2 = frozenset(x for x in k if not (x[2] & killed) and not (heap and x[3]))
                new.add((s, k2))
            states = new
        return self.limit(states)

    def limit(self, states):
        if len(states) > self.LIMIT:
            states = {(s, frozenset()) for s, _ in states}
        return states

    def atom(self, test):
        neg = False
        while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            neg = not neg
            test = test.operand
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            o = test.ops[0]
            flip = {ast.NotEq: ast.Eq, ast.IsNot: ast.Is, ast.GtE: ast.Lt, ast.LtE: ast.Gt, ast.NotIn: ast.In}
            for a, b in flip.items():
                if isinstance(o, a):
                    test = ast.Compare(left=test.left, ops=[b()], comparators=test.comparators)
                    neg = not neg
                    break
        names = frozenset(n.id for n in ast.walk(test) if isinstance(n, ast.Name))
        heap = any(isinstance(n, (ast.Attribute, ast.Subscript, ast.Call)) for n in ast.walk(test))
        return ast.dump(test), neg, names, heap

    def branch(self, test, states, val):
        if isinstance(test, ast.Constant):
            return states if bool(test.value) == val else set()
        if isinstance(test, ast.BoolOp):
            conj = isinstance(test.op, ast.And)
            if conj == val:
                for v in test.values:
                    states = self.branch(v, states, val)
                return states
            out = set()
            cur = states
            for v in test.values:
                out |= self.branch(v, cur, val)
                cur = self.branch(v, cur, not val)
            return self.limit(out)
        txt, neg, names, heap = self.atom(test)
        want = val != neg
        out = set()
        for s, k in states:
            known = [x for x in k if x[0] == txt]
            if known:
                if known[0][1] == want:
                    out.add((s, k))
            else:
                out.add((s, k | {(txt, want, names, heap)}))
        return out

    def block(self, body, states, _):
        out = {'fall': set(), 'return': set(), 'break': set(), 'continue': set()}
        for st in body:
            if not states:
                break
            r = self.stmt(st, states)
            for k in ('return', 'break', 'continue'):
                out[k] |= r[k]
            states = r['fall']
        out['fall'] = states
        return out

    def stmt(self, st, states):
        out = {'fall': set(), 'return': set(), 'break': set(), 'continue': set()}
        if isinstance(st, ast.If):
            states = self.effects_of(st.test, states)
            a = self.block(st.body, self.branch(st.test, states, True), None)
            b = self.block(st.orelse, self.branch(st.test, states, False), None)
            for k in out:
                out[k] = a[k] | b[k]
        elif isinstance(st, (ast.For, ast.While)):
            head = st.iter if isinstance(st, ast.For) else st.test
            states = self.effects_of(head, states)
            assigned = {n.id for b in st.body for n in ast.walk(b) if isinstance(n, ast.Name) and
                        isinstance(n.ctx, ast.Store)}
            if isinstance(st, ast.For):
                assigned |= {n.id for n in ast.walk(st.target) if isinstance(n, ast.Name)}
            entry = {(s, frozenset(x for x in k if not (x[2] & assigned) and not x[3])) for s, k in states}
            seen = set(entry)
            exits = set(states)
            brk = set()
            cur = entry
            for _ in range(6):
                b_in = self.branch(st.test, cur, True) if isinstance(st, ast.While) else cur
                r = self.block(st.body, b_in, None)
                out['return'] |= r['return']
                brk |= r['break']
                nxt = {(s, frozenset(x for x in k if not (x[2] & assigned) and not x[3]))
                       for s, k in r['fall'] | r['continue']}
                exits |= nxt
                new = nxt - seen
                grow = {s for s, _ in nxt} - {s for s, _ in entry}
                if grow:
                    base = max((len(s) for s, _ in entry), default=0)
                    for s in grow:
                        if len(s) != base:
                            self.problems.append((st, 'timers %s are left over by one iteration of a loop' %
                                                  (list(s),)))
                    break
                if not new:
                    break
                seen |= new
                cur = new
            if isinstance(st, ast.While):
                exits = self.branch(st.test, exits, False)
            e = self.block(st.orelse, self.limit(exits), None)
            for k in ('return', 'break', 'continue'):
                out[k] |= e[k]
            out['fall'] = self.limit(e['fall'] | brk)
        elif isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            out['fall'] = states
        elif isinstance(st, ast.Return):
            if st.value is not None:
                states = self.effects_of(st.value, states)
            out['return'] = states
        elif isinstance(st, ast.Raise):
            pass
        elif isinstance(st, ast.Break):
            out['break'] = states
        elif isinstance(st, ast.Continue):
            out['continue'] = states
        elif isinstance(st, ast.With):
            for it in st.items:
                states = self.effects_of(it.context_expr, states)
            out = self.block(st.body, states, None)
        elif isinstance(st, ast.Try):
            b = self.block(st.body, states, None)
            # a handler may start from any state inside the body: only the two ends are used
            tics = any(isinstance(n, ast.Attribute) and n.attr in ('tic', 'toc') for s in st.body for n in ast.walk(s))
            if tics and st.handlers:
                self.undecided = True
            for k in out:
                out[k] = set(b[k])
            if not tics:
                for h in st.handlers:
                    r = self.block(h.body, {(s, frozenset()) for s, _ in states}, None)
                    for k in out:
                        out[k] |= r[k]
            e = self.block(st.orelse, out['fall'], None)
            out['fall'] = e['fall']
            for k in ('return', 'break', 'continue'):
                out[k] |= e[k]
            if st.finalbody:
                for k in out:
                    if out[k]:
                        r = self.block(st.finalbody, out[k], None)
                        out[k] = r['fall']
                        for k2 in ('return', 'break', 'continue'):
                            if k2 != k:
                                out[k2] |= r[k2]
        elif isinstance(st, ast.Assert):
            states = self.effects_of(st.test, states)
            out['fall'] = self.branch(st.test, states, True)
        elif isinstance(st, ast.Match) if hasattr(ast, 'Match') else False:
            self.undecided = True
            out['fall'] = states
        else:
            out['fall'] = self.effects_of(st, states)
        return out


@rule
def timer_balance(sess, _p):
    rep = Report('on every path that returns, timers are stopped in reverse order of starting and none is left running; '
                 'an iteration of a loop leaves none over')
    prog = sess.tgt
    funcs = [f for f in live_funcs(prog) if f.cls not in ('Timers', 'TimerData')]
    # helpers that are not balanced by themselves are charged to their callers
    sums = {}
    for _ in range(4):
        changed = False
        for f in funcs:
            if f.qual in sess.ref.funcs:
                continue
            fl = _TimerFlow(prog, f, sums)
            ex = frozenset(fl.run())
            if ex and ex != {()} and sums.get(f.qual) != ex and len(ex) < 8:
                sums[f.qual] = ex
                changed = True
        if not changed:
            break
    for f in funcs:
        fl = _TimerFlow(prog, f, sums)
        ex = fl.run()
        if fl.undecided:
            rep.undecided += 1
            continue
        if f.qual in sums:
            called = any(f.qual in [c.qual for c in callees(prog, g, n)] for g in funcs if g is not f
                         for n in ast.walk(g.node) if isinstance(n, ast.Call))
            if called:
                continue
        if not fl.sites and ex <= {()}:
            continue
        rep.site('%s: %d timer calls, exit stacks %s' % (f.qual, fl.sites, sorted(ex)))
        seen = set()
        for node, msg in fl.problems:
            if msg not in seen:
                seen.add(msg)
                rep.bad(f.qual + ':order', msg, loc(f, node))
        for s in sorted(ex):
            run = [x for x in s if not x.startswith('-')]
            stp = [x[1:] for x in s if x.startswith('-')]
            if run:
                rep.bad(f.qual + ':running', 'a path returns with timer %s still running' % ', '.join(run), loc(f))
            if stp:
                rep.bad(f.qual + ':stopped', 'a path stops timer %s without having started it' % ', '.join(stp), loc(f))
    return rep


# ------------------------------------------------------------------ sealed objects

def _self_writes(f):
    'attributes stored through self in f, in order: (name, node)'
    out = []
    ps = f.params()
    if not ps or f.is_static:
        return out
    me = ps[0][0]
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and \
                n.value.id == me:
            out.append((n.attr, n))
    return out


class _SealFlow():
    'declared attributes and sealing along the constructor of a class'

    def __init__(self, prog, cname):
        self.prog, self.cname = prog, cname
        self.bad = []
        self.sites = 0

    def run(self, f, state, depth=0):
        'state: (declared set, sealed: bool)'
        self.exits = getattr(self, 'exits', [])
        outs = []
        s = self.block(f, f.node.body, state, outs, depth)
        if s is not None:
            outs.append(s)
        return outs

    def merge(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        return (a[0] & b[0] if a[1] or b[1] else a[0] | b[0], a[1] and b[1])

    def block(self, f, body, state, outs, depth):
        for st in body:
            if state is None:
                return None
            if isinstance(st, ast.If):
                state = self.expr(f, st.test, state, depth)
                state = self.merge(self.block(f, st.body, state, outs, depth),
                                   self.block(f, st.orelse, state, outs, depth))
            elif isinstance(st, (ast.For, ast.While)):
                state = self.expr(f, st.iter if isinstance(st, ast.For) else st.test, state, depth)
                r = self.block(f, st.body, state, outs, depth)
                if r is not None:
                    state = (state[0] | r[0], state[1] or r[1])
                state = self.block(f, st.orelse, state, outs, depth)
            elif isinstance(st, ast.With):
                state = self.block(f, st.body, state, outs, depth)
            elif isinstance(st, ast.Try):
                state = self.block(f, st.body + st.orelse + st.finalbody, state, outs, depth)
            elif isinstance(st, ast.Return):
                outs.append(state)
                return None
            elif isinstance(st, ast.Raise):
                return None
            elif isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                continue
            else:
                state = self.expr(f, st, state, depth)
        return state

    def expr(self, f, node, state, depth):
        declared, sealed = state
        me = f.params()[0][0] if f.params() else 'self'
        events = []
        for n in ast.walk(node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                events.append((n.end_lineno, n.end_col_offset, 0, n))
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and \
                    n.value.id == me:
                events.append((10 ** 9, 0, 1, n))
        for _, _, k, n in sorted(events, key=lambda e: e[:3]):
            if k == 1:
                self.sites += 1
                if sealed and n.attr not in declared:
                    self.bad.append((f, n, n.attr))
                declared = declared | {n.attr}
                continue
            fn = n.func
            if fn.attr == 'freeze_attrs' and isinstance(fn.value, ast.Name) and fn.value.id == me:
                sealed = True
                continue
            tgt = None
            if isinstance(fn.value, ast.Name) and fn.value.id == me:
                tgt = self.prog.find_method(self.cname, fn.attr)
            elif isinstance(fn.value, ast.Name) and fn.value.id in self.prog.classes and n.args and \
                    isinstance(n.args[0], ast.Name) and n.args[0].id == me:
                tgt = self.prog.find_method(fn.value.id, fn.attr)
            elif isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and \
                    fn.value.func.id == 'super' and f.cls:
                for c in self.prog.mro(f.cls)[1:]:
                    if fn.attr in self.prog.classes[c].methods:
                        tgt = self.prog.classes[c].methods[fn.attr]
                        break
            if tgt is not None and depth < 6:
                outs = self.run(tgt, (declared, sealed), depth + 1)
                r = None
                for o in outs:
                    r = self.merge(r, o)
                if r is not None:
                    declared, sealed = r
        return declared, sealed


def _class_attrs(prog, cname):
    out = set()
    for c in prog.mro(cname):
        out |= set(prog.classes[c].attrs) | set(prog.classes[c].methods)
    return out


@rule
def freeze_discipline(sess, _p):
    rep = Report('every class derived from Freezable seals itself at the end of construction, after declaring every '
                 'attribute its methods assign; no attribute is added to a sealed object')
    prog = sess.tgt
    declared_by = {}
    for c in sorted(prog.subclasses('Freezable')):
        cls = prog.classes[c]
        if cls.module.name in DEAD_MODULES:
            continue
        init = prog.find_method(c, '__init__')
        if init is None:
            continue
        fl = _SealFlow(prog, c)
        outs = fl.run(init, (frozenset(_class_attrs(prog, c)) | {'_frozen'}, False))
        rep.obligations += fl.sites
        for f, n, a in fl.bad:
            rep.bad('%s.%s:late' % (c, a), 'attribute %s of %s is declared after the object was sealed' % (a, c), loc(f, n))
        m = None
        for o in outs:
            m = fl.merge(m, o)
        if m is None:
            continue
        rep.site('%s: %d attributes declared, sealed: %s' % (c, len(m[0]), m[1]))
        ref_sealed = True
        if c in sess.ref.classes:
            rf = _SealFlow(sess.ref, c)
            ri = sess.ref.find_method(c, '__init__')
            if ri is not None:
                rm = None
                for o in rf.run(ri, (frozenset(), False)):
                    rm = rf.merge(rm, o)
                ref_sealed = rm is not None and rm[1]
        else:
            ref_sealed = False
        if not m[1]:
            if ref_sealed:
                rep.bad('%s:unsealed' % c, 'a path of the constructor of %s does not seal the object' % c, loc(init))
            continue
        declared_by[c] = set(m[0])
    # subclasses share objects with the methods of their bases
    for c, decl in declared_by.items():
        for b in prog.mro(c):
            for f in prog.classes[b].methods.values():
                if f.name in ('__init__',):
                    continue
                for a, n in _self_writes(f):
                    rep.obligations += 1
                    if a not in decl and not _guarded_by_hasattr(f, a):
                        rep.bad('%s.%s' % (c, a), '%s assigns attribute %s which sealed %s objects do not have' %
                                (f.qual, a, c), loc(f, n))
    # stores through other objects whose class is evident
    for f in live_funcs(prog):
        types = _local_types(prog, f)
        for n in ast.walk(f.node):
            if not (isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)):
                continue
            c = _type_of(prog, f, n.value, types)
            if c in declared_by and not (isinstance(n.value, ast.Name) and n.value.id == 'self'):
                rep.obligations += 1
                ok = n.attr in declared_by[c] or any(n.attr in declared_by.get(s, ()) for s in prog.subclasses(c))
                if not ok:
                    rep.bad('%s.%s' % (c, n.attr), '%s assigns attribute %s which sealed %s objects do not have' %
                            (f.qual, n.attr, c), loc(f, n))
    return rep


def _guarded_by_hasattr(f, a):
    return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('hasattr', 'setattr') and
               len(n.args) > 1 and isinstance(n.args[1], ast.Constant) and n.args[1].value == a
               for n in ast.walk(f.node))


_ft_cache = {}


def field_types(prog):
    '(class, field) -> class name, when every store is a constructor call of that class or None'
    key = id(prog)
    if key in _ft_cache:
        return _ft_cache[key]
    out = {}
    _ft_cache[key] = out
    stores = {}
    for f in prog.funcs.values():
        if not f.cls or f.module.name in DEAD_MODULES:
            continue
        ptypes = _param_types(prog, f)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign):
                for tg in n.targets:
                    if isinstance(tg, ast.Attribute) and isinstance(tg.value, ast.Name) and tg.value.id == 'self':
                        stores.setdefault((f.cls, tg.attr), []).append(_ctor(prog, f, n.value, ptypes))
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Attribute):
                stores.setdefault((f.cls, n.target.attr), []).append('?')
    for k, vs in stores.items():
        s = set(v for v in vs if v != 'None')
        if len(s) == 1 and '?' not in s:
            out[k] = s.pop()
    return out


def _ctor(prog, f, v, ptypes):
    if isinstance(v, ast.Constant) and v.value is None:
        return 'None'
    if isinstance(v, ast.Call) and isinstance(v.func, ast.Name):
        r = prog.resolve_in_module(f.module, v.func.id)
        if r is not None and r[0] == 'class':
            return r[1].name
    if isinstance(v, ast.Name) and v.id in ptypes:
        return ptypes[v.id]
    return '?'


def _param_types(prog, f):
    'parameters whose class is asserted with isinstance'
    out = {}
    stored = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    for st in f.node.body:
        if isinstance(st, ast.Assert):
            for n in ast.walk(st.test):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'isinstance' and \
                        len(n.args) == 2 and isinstance(n.args[0], ast.Name) and isinstance(n.args[1], ast.Name) and \
                        n.args[1].id in prog.classes and n.args[0].id not in stored:
                    out[n.args[0].id] = n.args[1].id
    return out


def _local_types(prog, f):
    types = dict(_param_types(prog, f))
    if f.cls and f.params() and not f.is_static:
        types[f.params()[0][0]] = f.cls
    cand = {}
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign):
            for tg in n.targets:
                for x in ast.walk(tg):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        cand.setdefault(x.id, []).append(_ctor(prog, f, n.value, {}) if x is tg else '?')
        elif isinstance(n, (ast.For, ast.comprehension)):
            for x in ast.walk(n.target):
                if isinstance(x, ast.Name):
                    cand.setdefault(x.id, []).append('?')
        elif isinstance(n, (ast.AugAssign, ast.NamedExpr)) and isinstance(n.target, ast.Name):
            cand.setdefault(n.target.id, []).append('?')
        elif isinstance(n, ast.With):
            for it in n.items:
                if it.optional_vars is not None:
                    for x in ast.walk(it.optional_vars):
                        if isinstance(x, ast.Name):
                            cand.setdefault(x.id, []).append('?')
    for k, vs in cand.items():
        s = set(vs) - {'None'}
        if len(s) == 1 and '?' not in s and k not in types and k not in [p for p, _ in f.params()]:
            types[k] = s.pop()
    return types


def _type_of(prog, f, n, types):
    if isinstance(n, ast.Name):
        return types.get(n.id)
    if isinstance(n, ast.Attribute):
        c = _type_of(prog, f, n.value, types)
        if c is None:
            return None
        ft = field_types(prog)
        for b in prog.mro(c):
            if (b, n.attr) in ft:
                return ft[(b, n.attr)]
    return None


# ------------------------------------------------------------------ reproducibility

NONDET_PREFIX = ('random.', 'secrets.', 'uuid.', 'time.', 'datetime.', 'numpy.random.', 'os.environ', 'os.getenv',
                 'os.urandom', 'os.getpid', 'threading.', 'multiprocessing.', 'os.times', 'glob.', 'os.listdir')
# what each function of the reference may use, and why
ALLOWED = {
    ('TimerData.tic', 'time.perf_counter'): 'measures run time, reported only',
    ('TimerData.toc', 'time.perf_counter'): 'measures run time, reported only',
    ('PlotManager.anim_func', 'time.sleep'): 'waits while the animation is paused',
    ('ModeColors.init_colors', 'random.seed'): 'seeded from the settings',
    ('ModeColors.init_colors', 'random.shuffle'): 'colours only, seeded from the settings on the line before',
    ('Core.__init__', 'numpy.random.seed'): 'the one seeding of the generator',
    ('Core.simulate', 'numpy.random.rand'): 'seeded generator',
    ('lputil.make_direction_matrix', 'numpy.random.rand'): 'seeded generator',
    ('lputil.reorthogonalize_matrix', 'numpy.random.rand'): 'seeded generator',
}
SEEDED_DRAWS = {'numpy.random.rand', 'numpy.random.random', 'numpy.random.randn', 'numpy.random.uniform',
                'numpy.random.random_sample', 'numpy.random.normal', 'numpy.random.randint'}


@rule
def determinism(sess, _p):
    rep = Report('no analysis code uses clocks, the environment, unseeded or re-seeded generators, object addresses or '
                 'hash order; the generator is seeded once, from the settings, on construction of the analysis object')
    prog = sess.tgt
    seeds = 0
    for f in live_funcs(prog):
        loc_names = local_names(f)
        for n in ast.walk(f.node):
            if isinstance(n, (ast.Attribute, ast.Name)) and isinstance(n.ctx, ast.Load):
                head = n
                while isinstance(head, ast.Attribute):
                    head = head.value
                if not isinstance(head, ast.Name) or head.id in loc_names:
                    continue
                x = ext_name(f, n)
                if x is None:
                    continue
                if isinstance(n, ast.Attribute) and any(x.startswith(p) and x != p.rstrip('.') for p in NONDET_PREFIX):
                    if x in ('numpy.random', 'random.Random') and isinstance(n, ast.Attribute):
                        pass
                    rep.site('%s uses %s' % (f.qual, x))
                    if (f.qual, x) in ALLOWED or x in SEEDED_DRAWS:
                        if x == 'numpy.random.seed':
                            seeds += 1
                        continue
                    if x.endswith('.seed') and f.qual not in sess.ref.funcs and _seeds_from_settings(prog, f, n):
                        # a helper extracted from the constructor
                        if x == 'numpy.random.seed':
                            seeds += 1
                        continue
                    if x in ('time.perf_counter', 'time.time', 'time.monotonic', 'time.process_time') and \
                            f.module.name in ('timerutil', 'check_trace'):
                        continue
                    if x.startswith(('random.seed', 'random.shuffle', 'time.sleep')) and f.module.name == 'plotutil' and \
                            f.qual not in sess.ref.funcs:
                        continue
                    if x in ('random.Random', 'numpy.random.RandomState', 'numpy.random.default_rng') and \
                            _seeded_ctor(f, n):
                        continue
                    rep.bad('%s:%s' % (f.qual, x), '%s uses %s, which makes runs differ' % (f.qual, x), loc(f, n))
            if isinstance(n, ast.Call):
                # identity / hash used for ordering
                for k in n.keywords:
                    if k.arg == 'key':
                        for y in ast.walk(k.value):
                            if isinstance(y, ast.Name) and y.id in ('id', 'hash') and y.id not in loc_names:
                                rep.bad('%s:order-by-%s' % (f.qual, y.id), 'ordering by %s() differs between runs' % y.id,
                                        loc(f, n))
            if isinstance(n, ast.Compare) and any(isinstance(o, (ast.Lt, ast.Gt, ast.LtE, ast.GtE)) for o in n.ops) or \
                    isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mod, ast.BitAnd, ast.BitXor)) and \
                    not isinstance(n.left, (ast.Constant, ast.JoinedStr)):
                for y in ast.walk(n):
                    if isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id in ('id', 'hash') and \
                            y.func.id not in loc_names:
                        rep.bad('%s:decide-by-%s' % (f.qual, y.func.id), 'a decision uses %s()' % y.func.id, loc(f, y))
        if f.qual != 'plotutil._blit_draw':      # redraws axes, order is invisible
            _set_order(f, rep)
    init = prog.funcs.get('Core.__init__')
    if init is not None:
        rep.obligations += 1
        if seeds == 0:
            rep.bad('Core.__init__:unseeded', 'the generator is never seeded from the settings', loc(init))
    # default arguments and module level code
    for m in prog.modules.values():
        if m.name in DEAD_MODULES:
            continue
        for st in m.tree.body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)):
                continue
            for n in ast.walk(st):
                if isinstance(n, ast.Call):
                    d = dotted(n.func) or ''
                    head = d.split('.')[0]
                    x = m.imports.get(head, head) + d[len(head):]
                    rep.obligations += 1
                    if x.startswith(('random.', 'numpy.random.', 'os.environ', 'os.getenv', 'secrets.', 'uuid.')):
                        rep.bad('%s:%s' % (m.name, x), 'module %s uses %s when imported' % (m.name, x),
                                (m.path, n.lineno, m.name))
    return rep


def _seeds_from_settings(_prog, f, n):
    for c in ast.walk(f.node):
        if isinstance(c, ast.Call) and c.func is n:
            return len(c.args) == 1 and 'random_seed' in ast.dump(c.args[0]) or \
                (len(c.args) == 1 and isinstance(c.args[0], ast.Name))
    return False


def _seeded_ctor(f, n):
    for c in ast.walk(f.node):
        if isinstance(c, ast.Call) and c.func is n:
            return bool(c.args) and 'random_seed' in ast.dump(c.args[0])
    return False


ORDER_FREE = {'len', 'min', 'max', 'sum', 'any', 'all', 'set', 'frozenset', 'sorted'}


def _set_order(f, rep):
    'iteration over a set whose order can reach a result'
    sets = set()
    other = set()

    def is_set(v):
        if isinstance(v, (ast.Set, ast.SetComp)):
            return True
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('set', 'frozenset'):
            return True
        if isinstance(v, ast.Name):
            return v.id in sets and v.id not in other
        if isinstance(v, ast.BinOp) and isinstance(v.op, (ast.BitAnd, ast.BitOr, ast.Sub)):
            return is_set(v.left)
        return False

    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign):
            for tg in n.targets:
                if isinstance(tg, ast.Name):
                    (sets if is_set(n.value) else other).add(tg.id)
    for n in ast.walk(f.node):
        it = None
        if isinstance(n, ast.For):
            it = n.iter
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('list', 'tuple', 'enumerate') and \
                n.args:
            it = n.args[0]
        elif isinstance(n, (ast.ListComp, ast.DictComp)):
            it = n.generators[0].iter
        if it is None:
            continue
        rep.obligations += 1
        if is_set(it):
            if isinstance(n, ast.For) and _order_free_body(n.body):
                continue
            rep.bad('%s:set-order' % f.qual, '%s iterates over a set; the order differs between runs' % f.qual, loc(f, n))


def _order_free_body(body):
    for st in body:
        if isinstance(st, (ast.Assert, ast.Raise, ast.Pass)):
            continue
        if isinstance(st, ast.If) and _order_free_body(st.body) and _order_free_body(st.orelse):
            continue
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) and \
                st.value.func.attr in ('add', 'discard', 'remove'):
            continue
        return False
    return True


# ------------------------------------------------------------------ aliasing

MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'sort', 'reverse', 'clear', 'update', 'fill', 'resize',
            'setdefault', 'popitem', 'popleft', 'appendleft', 'itemset', 'put', 'sort_indices', 'eliminate_zeros',
            'sum_duplicates', 'setdiag', 'setflags', 'partition', 'add', 'discard'}
COPY_CALLS = {'list', 'tuple', 'dict', 'set', 'sorted', 'float', 'int', 'str', 'len', 'abs', 'sum', 'min', 'max', 'round',
              'range', 'zip', 'enumerate', 'bool', 'frozenset', 'map', 'filter', 'reversed'}
VIEW_METHODS = {'reshape', 'transpose', 'ravel', 'view', 'squeeze', 'swapaxes'}
# library functions that return their argument itself when it already has the requested form
PASS_THROUGH = {'numpy.asarray', 'numpy.asanyarray', 'numpy.ascontiguousarray', 'numpy.atleast_1d', 'numpy.atleast_2d',
                'numpy.ravel', 'numpy.reshape', 'numpy.transpose', 'numpy.squeeze'}


class _Alias():
    '''which mutable containers a value may be (part of): {('param', name), ('field', attr)}.  A source is only kept when
    the value can be that very object, so the answer under-approximates: an unknown call counts as a fresh value.'''

    def __init__(self, prog, f, summaries):
        self.prog, self.f, self.sums = prog, f, summaries
        self.env = {}
        self.stores = set()         # (target kind, name, source)
        self.mutated = set()        # sources modified in place
        self.returned = set()
        self.nodes = {}
        self.containers = _container_params(f)

    def run(self):
        for p, _ in self.f.params():
            self.env[p] = {('param', p)}
        self.block(self.f.node.body)
        return self

    def note(self, s, x, n):
        if x not in s:
            s.add(x)
            self.nodes.setdefault(x, n)

    def src(self, n):
        if isinstance(n, ast.Name):
            return self.env.get(n.id, set())
        if isinstance(n, ast.Attribute):
            if n.attr in ('T', 'flat', 'data', 'indices', 'indptr', 'real', 'A'):
                return self.src(n.value)
            return {('field', n.attr)}
        if isinstance(n, ast.IfExp):
            return self.src(n.body) | self.src(n.orelse)
        if isinstance(n, ast.BoolOp):
            out = set()
            for v in n.values:
                out |= self.src(v)
            return out
        if isinstance(n, ast.NamedExpr):
            v = self.src(n.value)
            self.env[n.target.id] = v
            return v
        if isinstance(n, ast.Starred):
            return set()
        if isinstance(n, ast.Call):
            fn = n.func
            if isinstance(fn, ast.Attribute) and fn.attr in VIEW_METHODS:
                return self.src(fn.value)
            x = ext_name(self.f, fn)
            if x in PASS_THROUGH and n.args:
                return self.src(n.args[0])
            if x == 'numpy.array' and n.args and any(k.arg == 'copy' and isinstance(k.value, ast.Constant) and
                                                     k.value.value is False for k in n.keywords):
                return self.src(n.args[0])
            cs = callees(self.prog, self.f, n)
            if len(cs) == 1 and cs[0].name != '__init__':
                out = set()
                for s in self.sums.get(cs[0].qual, {}).get('ret', ()):
                    if s[0] == 'param':
                        a = _arg_for(cs[0], n, s[1])
                        if a is not None:
                            out |= self.src(a)
                    else:
                        out.add(s)
                return out
        return set()

    def block(self, body):
        for st in body:
            self.stmt(st)

    def assign(self, tg, v, node):
        if isinstance(tg, ast.Name):
            self.env[tg.id] = self.src(v)
        elif isinstance(tg, (ast.Tuple, ast.List)):
            if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(tg.elts):
                vals = [self.src(x) for x in v.elts]
                for x, s, y in zip(tg.elts, vals, v.elts):
                    if isinstance(x, ast.Name):
                        self.env[x.id] = s
                    else:
                        self.assign(x, y, node)
            else:
                for x in tg.elts:
                    if isinstance(x, ast.Name):
                        self.env[x.id] = set()
        elif isinstance(tg, ast.Attribute):
            if tg.attr == 'shape':
                for s in self.src(tg.value):
                    self.note(self.mutated, s, node)
                return
            for s in self.src(v):
                self.note(self.stores, ('field', tg.attr, s), node)
        elif isinstance(tg, ast.Subscript):
            for s in self.src(tg.value):
                self.note(self.mutated, s, node)
            for s in self.src(v):
                for d in self.src(tg.value):
                    if d[0] == 'field':
                        self.note(self.stores, ('elem', d[1], s), node)

    def calls(self, node):
        for n in ast.walk(node):
            if isinstance(n, ast.Call):
                fn = n.func
                if isinstance(fn, ast.Attribute) and fn.attr in MUTATORS and not callees(self.prog, self.f, n):
                    for s in self.src(fn.value):
                        self.note(self.mutated, s, n)
                        if s[0] == 'field' and fn.attr in ('append', 'insert', 'appendleft', 'add'):
                            for a in n.args[-1:]:
                                for x in self.src(a):
                                    self.note(self.stores, ('elem', s[1], x), n)
                cs = callees(self.prog, self.f, n)
                if len(cs) == 1:
                    sm = self.sums.get(cs[0].qual, {})
                    for s in sm.get('mut', ()):
                        if s[0] == 'param':
                            a = _arg_for(cs[0], n, s[1])
                            if a is not None:
                                for y in self.src(a):
                                    self.note(self.mutated, y, n)
                    # helpers that the reference does not know store on behalf of their caller
                    if sm.get('new'):
                        for kind, nm, s in sm.get('stores', ()):
                            if s[0] == 'param':
                                a = _arg_for(cs[0], n, s[1])
                                if a is not None:
                                    for y in self.src(a):
                                        self.note(self.stores, (kind, nm, y), n)
                            else:
                                self.note(self.stores, (kind, nm, s), n)

    def stmt(self, st):
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            return
        if isinstance(st, ast.If):
            self.calls(st.test)
            e0 = dict(self.env)
            self.block(st.body)
            e1, live1 = self.env, not _ends(st.body)
            self.env = dict(e0)
            self.block(st.orelse)
            e2, live2 = self.env, not _ends(st.orelse)
            if live1 and live2:
                self.env = {k: e1.get(k, set()) | e2.get(k, set()) for k in set(e1) | set(e2)}
            else:
                self.env = e1 if live1 else e2
        elif isinstance(st, (ast.For, ast.While)):
            self.calls(st.iter if isinstance(st, ast.For) else st.test)
            if isinstance(st, ast.For):
                for x in ast.walk(st.target):
                    if isinstance(x, ast.Name):
                        self.env[x.id] = set()
            for _ in range(2):
                e0 = dict(self.env)
                self.block(st.body)
                self.env = {k: e0.get(k, set()) | self.env.get(k, set()) for k in set(e0) | set(self.env)}
            self.block(st.orelse)
        elif isinstance(st, ast.With):
            self.block(st.body)
        elif isinstance(st, ast.Try):
            self.block(st.body)
            for h in st.handlers:
                self.block(h.body)
            self.block(st.orelse)
            self.block(st.finalbody)
        elif isinstance(st, ast.Assign):
            self.calls(st.value)
            for tg in st.targets:
                self.assign(tg, st.value, st)
        elif isinstance(st, ast.AnnAssign) and st.value is not None:
            self.calls(st.value)
            self.assign(st.target, st.value, st)
        elif isinstance(st, ast.AugAssign):
            self.calls(st.value)
            tg = st.target
            if isinstance(tg, ast.Subscript):
                for s in self.src(tg.value):
                    self.note(self.mutated, s, st)
            elif isinstance(tg, ast.Name):
                listy = isinstance(st.value, (ast.List, ast.ListComp))
                for s in self.src(tg):
                    if listy or s[0] == 'param' and s[1] in self.containers:
                        self.note(self.mutated, s, st)
        elif isinstance(st, ast.Delete):
            for tg in st.targets:
                if isinstance(tg, ast.Subscript):
                    for s in self.src(tg.value):
                        self.note(self.mutated, s, st)
        elif isinstance(st, ast.Return):
            if st.value is not None:
                self.calls(st.value)
                vals = st.value.elts if isinstance(st.value, ast.Tuple) else [st.value]
                for v in vals:
                    for s in self.src(v):
                        self.note(self.returned, s, st)
        else:
            self.calls(st)


def _ends(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Break, ast.Continue))


def _arg_for(g, call, pname):
    names = [p for p, _ in g.params()]
    if g.cls and not g.is_static and isinstance(call.func, ast.Attribute):
        if names and names[0] == pname:
            return call.func.value
        names = names[1:]
    elif g.cls and not g.is_static:
        names = names[1:]       # constructor call
    for k in call.keywords:
        if k.arg == pname:
            return k.value
    if pname in names:
        i = names.index(pname)
        if i < len(call.args) and not any(isinstance(a, ast.Starred) for a in call.args[:i + 1]):
            return call.args[i]
    return None


def _container_params(f):
    'parameters the function treats as containers'
    out = set()
    names = set(p for p, _ in f.params())
    for n in ast.walk(f.node):
        v = None
        if isinstance(n, ast.Subscript):
            v = n.value
        elif isinstance(n, (ast.For, ast.comprehension)):
            v = n.iter
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'len' and n.args:
            v = n.args[0]
        elif isinstance(n, ast.Attribute) and n.attr in ('shape', 'append', 'extend', 'tolist', 'copy', 'ndim'):
            v = n.value
        if isinstance(v, ast.Name) and v.id in names:
            out.add(v.id)
    return out


_alias_cache = {}


def alias_summaries(prog, ref_funcs):
    key = id(prog)
    if key in _alias_cache:
        return _alias_cache[key]
    sums = {}
    full = {}
    for _ in range(4):
        new = {}
        for f in prog.funcs.values():
            if f.module.name in DEAD_MODULES:
                continue
            a = _Alias(prog, f, sums).run()
            full[f.qual] = a
            new[f.qual] = {'ret': frozenset(a.returned), 'mut': frozenset(a.mutated), 'stores': frozenset(a.stores),
                           'new': f.qual not in ref_funcs}
        if new == sums:
            break
        sums = new
    _alias_cache[key] = (sums, full)
    return sums, full


def _canon(f, s):
    'parameters by position, so that renaming one changes nothing'
    if s[0] == 'param':
        names = [p for p, _ in f.params()]
        return ('param', names.index(s[1]))
    return s


# parameters that are never shared mutable containers
def _scalar_param(sess, qual, i):
    g = sess.ref.funcs.get(qual)
    if g is None:
        return False
    ps = g.params()
    if i >= len(ps):
        return False
    d = ps[i][1]
    return isinstance(d, ast.Constant) and isinstance(d.value, (int, float, str, bool)) and d.value is not None


@rule
def argument_mutation(sess, _p):
    rep = Report('no function modifies a list or array it was given (directly, through an alias or view, or in a callee), '
                 'other than those whose documented purpose is to modify it')
    _, tgt = alias_summaries(sess.tgt, sess.ref.funcs)
    _, ref = alias_summaries(sess.ref, sess.ref.funcs)
    for q in sorted(tgt):
        if q not in ref:
            continue            # a helper: its effects are charged to its callers
        f, g = sess.tgt.funcs[q], sess.ref.funcs[q]
        allowed = {_canon(g, s) for s in ref[q].mutated if s[0] == 'param'}
        got = {_canon(f, s): s for s in tgt[q].mutated if s[0] == 'param'}
        if len(f.params()) > (1 if f.cls and not f.is_static else 0):
            rep.site('%s: modifies parameters %s' % (q, sorted(s[1] for s in got.values())))
        for c, s in sorted(got.items()):
            if c not in allowed:
                rep.bad('%s:%s' % (q, s[1]), '%s modifies its argument %r in place' % (q, s[1]),
                        loc(f, tgt[q].nodes.get(s)))
    return rep


@rule
def captured_arguments(sess, _p):
    rep = Report('lists and arrays are copied where the object that keeps them may change them or outlive the caller\'s '
                 'use: no field keeps, and no function hands out, a reference the reference model copies')
    _, tgt = alias_summaries(sess.tgt, sess.ref.funcs)
    _, ref = alias_summaries(sess.ref, sess.ref.funcs)
    fields = set()
    for m in sess.ref.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute):
                fields.add(n.attr)
    for q in sorted(tgt):
        if q not in ref:
            continue
        f, g = sess.tgt.funcs[q], sess.ref.funcs[q]
        allowed = {(k, nm, _canon(g, s)) for k, nm, s in ref[q].stores}
        # what the reference stores at all in this field here (so the field is a shared container)
        stored = _stored_fields(g)
        for k, nm, s in sorted(tgt[q].stores):
            c = (k, nm, _canon(f, s))
            rep.obligations += 1
            if c in allowed or nm not in fields:
                continue
            if s[0] == 'field' and (s[1] not in fields or s[1] == nm and k == 'field' and False):
                continue
            # the reference must visibly make a fresh container out of the same source here
            if not _copies(sess.ref, g, k, nm, c[2]):
                continue
            if c[2][0] == 'param' and _scalar_param(sess, q, c[2][1]):
                continue
            rep.bad('%s:%s:%s' % (q, nm, s[1]), '%s keeps a reference to %s %r in %s instead of a copy' %
                    (q, 'its argument' if s[0] == 'param' else 'field', s[1], nm), loc(f, tgt[q].nodes.get((k, nm, s))))
        ra = {_canon(g, s) for s in ref[q].returned}
        for s in sorted(tgt[q].returned):
            c = _canon(f, s)
            rep.obligations += 1
            if c in ra or s[0] == 'field' and s[1] not in fields:
                continue
            if not _copies(sess.ref, g, 'return', None, c):
                continue
            rep.bad('%s:return:%s' % (q, s[1]), '%s hands out %s %r itself instead of a copy' %
                    (q, 'its argument' if s[0] == 'param' else 'field', s[1]), loc(f, tgt[q].nodes.get(s)))
        if stored:
            rep.site('%s: stores %s' % (q, sorted(stored)[:6]))
    return rep


def _stored_fields(g):
    return {n.attr for n in ast.walk(g.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}


COPYING_METHODS = {'copy', 'deepcopy', 'tolist', 'toarray', 'flatten', 'astype'}
COPYING_CALLS = {'list', 'dict', 'set', 'numpy.array', 'numpy.copy', 'copy.copy', 'copy.deepcopy', 'scipy.sparse.csr_matrix',
                 'scipy.sparse.csc_matrix', 'sorted'}


def _copies(prog, g, kind, nm, src):
    '''does reference function g make an explicit copy of src (a parameter position or field)?'''
    names = [p for p, _ in g.params()]
    for n in ast.walk(g.node):
        arg = None
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr in COPYING_METHODS:
                arg = n.func.value
            elif ext_name(g, n.func) in COPYING_CALLS and n.args:
                arg = n.args[0]
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and isinstance(n.ctx, ast.Load):
            arg = n.value
        elif isinstance(n, (ast.ListComp, ast.DictComp)):
            arg = n.generators[0].iter
        if arg is None:
            continue
        if src[0] == 'param' and isinstance(arg, ast.Name) and src[1] < len(names) and arg.id == names[src[1]]:
            return True
        if src[0] == 'field' and isinstance(arg, ast.Attribute) and arg.attr == src[1]:
            return True
    return False


# ------------------------------------------------------------------ strategies

@rule
def strategy_interface(sess, _p):
    rep = Report('every strategy method the analysis calls exists in the base strategy, and every override accepts the '
                 'arguments it is called with')
    prog = sess.tgt
    bases = [c for c in prog.classes if c == 'AggregationStrategy']
    if not bases:
        rep.undecided += 1
        return rep
    classes = ['AggregationStrategy'] + prog.subclasses('AggregationStrategy')
    for f in live_funcs(prog):
        strat_names = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and \
                    isinstance(n.value, ast.Attribute) and n.value.attr == 'aggstrat':
                strat_names.add(n.targets[0].id)
        for n in ast.walk(f.node):
            if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)):
                continue
            v = n.func.value
            if not (isinstance(v, ast.Attribute) and v.attr == 'aggstrat' or
                    isinstance(v, ast.Name) and v.id in strat_names):
                continue
            name = n.func.attr
            rep.site('%s calls aggstrat.%s' % (f.qual, name))
            for c in classes:
                m = prog.find_method(c, name)
                if m is None:
                    rep.bad('%s.%s' % (c, name), '%s calls strategy method %s, which %s does not have' %
                            (f.qual, name, c), loc(f, n))
                    continue
                if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
                    continue
                a = m.node.args
                if a.vararg or a.kwarg:
                    continue
                ps = m.params()[0 if m.is_static else 1:]
                pos = len(n.args)
                kw = {k.arg for k in n.keywords}
                need = [p for i, (p, d) in enumerate(ps) if d is None and i >= pos and p not in kw]
                if pos > len(ps) or need or not kw <= set(p for p, _ in ps):
                    rep.bad('%s.%s:args' % (c, name), '%s calls %s.%s with arguments it does not accept' %
                            (f.qual, c, name), loc(f, n))
    return rep


# ------------------------------------------------------------------ verdict

FLAGS = ('has_concrete_error', 'has_aggregated_error')


@rule
def verdict_writers(sess, _p):
    rep = Report('the error flags of a result start out false, are set only while recording a reached error, and are '
                 'never reset')
    prog = sess.tgt

    def only_from(q, target, seen=()):
        'every caller chain of q passes through target'
        if q == target:
            return True
        if q in seen:
            return True
        f = prog.funcs[q]
        cs = [g for g in live_funcs(prog) if any(isinstance(n, ast.Call) and q in [c.qual for c in callees(prog, g, n)]
                                                 for n in ast.walk(g.node))]
        return bool(cs) and f.qual not in sess.ref.funcs and all(only_from(g.qual, target, seen + (q,)) for g in cs)

    for f in live_funcs(prog):
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign):
                tgts, v = n.targets, n.value
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                tgts, v = [n.target], n.value
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and \
                    len(n.args) == 3 and isinstance(n.args[1], ast.Constant) and n.args[1].value in FLAGS:
                rep.bad('%s:setattr' % f.qual, 'an error flag is set through setattr', loc(f, n))
                continue
            else:
                continue
            for tg in tgts:
                for x in ast.walk(tg):
                    if isinstance(x, ast.Attribute) and x.attr in FLAGS and isinstance(x.ctx, ast.Store):
                        rep.site('%s stores %s' % (f.qual, x.attr))
                        const = v.value if isinstance(v, ast.Constant) else None
                        if f.qual == 'HylaaResult.__init__':
                            if const is not None and const is not False:
                                rep.bad('%s:%s' % (f.qual, x.attr), '%s does not start out false' % x.attr, loc(f, n))
                            continue
                        if const is False:
                            rep.bad('%s:%s' % (f.qual, x.attr), '%s is reset by %s' % (x.attr, f.qual), loc(f, n))
                        elif not only_from(f.qual, 'Core.error_reached'):
                            rep.bad('%s:%s' % (f.qual, x.attr), '%s is set outside the recording of a reached error' %
                                    x.attr, loc(f, n))
    return rep


# ------------------------------------------------------------------ settings

def _const_groups(prog):
    'class -> {constant name: value} for upper-case integer class constants'
    out = {}
    for c, cls in prog.classes.items():
        if cls.module.name in DEAD_MODULES:
            continue
        vals = {}
        for nm, v in cls.attrs.items():
            if not nm.isupper():
                continue
            if isinstance(v, ast.Constant) and isinstance(v.value, int):
                vals[nm] = v.value
            elif isinstance(v, tuple) and isinstance(v[2], ast.Call) and isinstance(v[2].func, ast.Name) and \
                    v[2].func.id == 'range':
                args = [a.value for a in v[2].args if isinstance(a, ast.Constant)]
                if len(args) == len(v[2].args) and args:
                    r = range(*args)
                    if v[1] < len(r):
                        vals[nm] = r[v[1]]
            elif isinstance(v, tuple) and isinstance(v[2], (ast.Tuple, ast.List)) and v[1] < len(v[2].elts) and \
                    isinstance(v[2].elts[v[1]], ast.Constant):
                vals[nm] = v[2].elts[v[1]].value
        out[c] = vals
    return out


@rule
def enum_dispatch(sess, _p):
    rep = Report('the named choices of one setting have pairwise different values, and verbosity levels keep their order')
    tg, rf = _const_groups(sess.tgt), _const_groups(sess.ref)
    for c, names in sorted(rf.items()):
        groups = {}
        for nm in names:
            groups.setdefault(nm.split('_')[0], []).append(nm)
        for g, nms in sorted(groups.items()):
            if len(nms) < 2 or c not in tg:
                continue
            vals = {nm: tg[c][nm] for nm in nms if nm in tg[c]}
            rep.site('%s: %s' % (c, vals))
            seen = {}
            cl = sess.tgt.classes[c]
            for nm, v in vals.items():
                if v in seen:
                    rep.bad('%s.%s' % (c, nm), 'choices %s and %s of %s have the same value %r' % (seen[v], nm, c, v),
                            (cl.module.path, cl.node.lineno, c))
                seen[v] = nm
            if g == 'STDOUT' and len(vals) == len(nms):
                order = sorted(nms, key=lambda x: names[x])
                if sorted(nms, key=lambda x: vals[x]) != order or min(vals.values()) != 0 or \
                        max(vals.values()) != len(nms) - 1:
                    rep.bad('%s.STDOUT' % c, 'verbosity levels are no longer ordered %s' % ' < '.join(order),
                            (cl.module.path, cl.node.lineno, c))
    return rep


@rule
def settings_declared(sess, _p):
    rep = Report('every setting read or written by the analysis is declared by the settings object it is taken from')
    prog = sess.tgt
    decl = {}
    for c in ('HylaaSettings', 'PlotSettings', 'LabelSettings'):
        if c not in prog.classes:
            continue
        decl[c] = _class_attrs(prog, c) | {a for m in prog.classes[c].methods.values() for a, _ in _self_writes(m)} | \
            _class_attrs(prog, 'Freezable')
    if 'HylaaSettings' not in decl:
        rep.undecided += 1
        return rep
    every = set().union(*decl.values())
    for f in live_funcs(prog):
        for n in ast.walk(f.node):
            if not isinstance(n, ast.Attribute):
                continue
            v = n.value
            owner = None
            if isinstance(v, ast.Attribute) and v.attr == 'plot' and isinstance(v.value, (ast.Attribute, ast.Name)) and \
                    (v.value.attr if isinstance(v.value, ast.Attribute) else v.value.id).endswith('settings'):
                owner = 'PlotSettings'
            elif isinstance(v, ast.Attribute) and v.attr == 'settings' and isinstance(v.value, ast.Attribute) and \
                    v.value.attr == 'core':
                owner = 'HylaaSettings'
            elif isinstance(v, ast.Attribute) and v.attr == 'settings' and isinstance(v.value, ast.Name) and \
                    v.value.id == 'self' and f.cls in ('Core', 'AggDag'):
                owner = 'HylaaSettings'
            elif isinstance(v, (ast.Attribute, ast.Name)) and \
                    (v.attr if isinstance(v, ast.Attribute) else v.id) in ('settings', 'hylaa_settings'):
                owner = 'any'
            elif isinstance(v, ast.Name) and v.id in decl and v.id not in local_names(f):
                owner = v.id
            if owner is None:
                continue
            rep.obligations += 1
            ok = n.attr in (every if owner == 'any' else decl.get(owner, every))
            if not ok:
                rep.bad('%s:%s' % (f.qual, n.attr), '%s uses setting %s, which %s does not declare' %
                        (f.qual, n.attr, owner if owner != 'any' else 'no settings object'), loc(f, n))
    rep.samples = ['%s: %d attributes' % (c, len(d)) for c, d in decl.items()]
    return rep


# ------------------------------------------------------------------ queries that may fail

MAY_FAIL = {'get_guard_intersection', 'check_intersection', 'get_box_center', 'make_op_transition', 'get_deagg_node',
            'get_cur_state', 'del_plot_path'}


def _may_fail_call(prog, f, n):
    if not isinstance(n, ast.Call):
        return None
    fn = n.func
    nm = fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else None
    if nm in MAY_FAIL and nm != 'get_cur_state':
        return nm
    if nm == 'minimize' and isinstance(fn, ast.Attribute):
        v = None
        for k in n.keywords:
            if k.arg == 'fail_on_unsat':
                v = k.value
        if v is None and len(n.args) > 2:
            v = n.args[2]
        if isinstance(v, ast.Constant) and v.value is False:
            return 'minimize(fail_on_unsat=False)'
    return None


class _NoneFlow():
    'a result that may be missing is not used before some condition has looked at it'

    def __init__(self, prog, f):
        self.prog, self.f = prog, f
        self.problems = []
        self.sites = 0

    def run(self):
        self.block(self.f.node.body, {})

    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        out = {}
        for k in set(a) | set(b):
            v = a.get(k) or b.get(k)
            if v:
                out[k] = v
        return out

    def block(self, body, st):
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def tested(self, cond, st):
        names = {n.id for n in ast.walk(cond) if isinstance(n, ast.Name)}
        return {k: v for k, v in st.items() if k not in names}

    def uses(self, node, st):
        'dereferences of unchecked results inside an expression'
        if not st:
            return
        todo = [node]
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.IfExp,)):
                self.uses(n.test, {})
                st2 = self.tested(n.test, st)
                self.uses(n.body, st2)
                self.uses(n.orelse, st2)
                continue
            if isinstance(n, ast.BoolOp):
                cur = st
                for v in n.values:
                    self.uses(v, cur)
                    cur = self.tested(v, cur)
                continue
            base = None
            if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.value, ast.Name):
                base = n.value.id
            elif isinstance(n, ast.BinOp):
                for x in (n.left, n.right):
                    if isinstance(x, ast.Name) and x.id in st and not isinstance(n.op, ast.Mod):
                        base = x.id
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and isinstance(n.operand, ast.Name):
                base = n.operand.id
            elif isinstance(n, ast.Call):
                for a in n.args:
                    if isinstance(a, ast.Name) and a.id in st and callees(self.prog, self.f, n):
                        base = a.id
                    elif isinstance(a, ast.Name) and a.id in st and isinstance(n.func, ast.Attribute) and \
                            n.func.attr == 'append':
                        base = a.id
            if base in st:
                self.problems.append((n, base, st[base]))
            todo.extend(ast.iter_child_nodes(n))

    def bind(self, target, value, st):
        st = dict(st)
        nm = _may_fail_call(self.prog, self.f, value)
        if isinstance(target, ast.Name):
            st.pop(target.id, None)
            if nm is not None:
                self.sites += 1
                st[target.id] = nm
            elif isinstance(value, ast.Name) and value.id in st:
                st[target.id] = st[value.id]
        else:
            for x in ast.walk(target):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    st.pop(x.id, None)
            if nm is not None and isinstance(target, (ast.Tuple, ast.List)):
                self.sites += 1
                self.problems.append((value, ast.unparse(value), nm))
        return st

    def stmt(self, s, st):
        # direct dereference of a call result
        if not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            heads = [s] if not isinstance(s, (ast.If, ast.For, ast.While, ast.With, ast.Try)) else \
                [s.test] if isinstance(s, (ast.If, ast.While)) else [s.iter] if isinstance(s, ast.For) else []
            for h in heads:
                for n in ast.walk(h):
                    if isinstance(n, (ast.Attribute, ast.Subscript)) and _may_fail_call(self.prog, self.f, n.value):
                        self.sites += 1
                        self.problems.append((n, ast.unparse(n.value), _may_fail_call(self.prog, self.f, n.value)))
        if isinstance(s, ast.If):
            self.uses(s.test, self.pre_test(s.test, st))
            st = self.tested(s.test, st)
            return self.join(self.block(s.body, st), self.block(s.orelse, st))
        if isinstance(s, ast.While):
            self.uses(s.test, self.pre_test(s.test, st))
            st2 = self.tested(s.test, st)
            r = self.block(s.body, st2)
            return self.block(s.orelse, self.join(st2, r))
        if isinstance(s, ast.For):
            self.uses(s.iter, st)
            if isinstance(s.iter, ast.Name) and s.iter.id in st:
                self.problems.append((s, s.iter.id, st[s.iter.id]))
            r = self.block(s.body, st)
            return self.block(s.orelse, self.join(st, r))
        if isinstance(s, ast.With):
            return self.block(s.body, st)
        if isinstance(s, ast.Try):
            r = self.block(s.body, st)
            for h in s.handlers:
                r = self.join(r, self.block(h.body, {}))
            if r is not None:
                r = self.block(s.orelse, r)
            if s.finalbody and r is not None:
                r = self.block(s.finalbody, r)
            return r
        if isinstance(s, ast.Assert):
            self.uses(s.test, self.pre_test(s.test, st))
            return self.tested(s.test, st)
        if isinstance(s, ast.Assign):
            self.uses(s.value, st)
            for tg in s.targets:
                self.uses(tg, st)
                st = self.bind(tg, s.value, st)
            return st
        if isinstance(s, ast.AugAssign):
            self.uses(s, st)
            if isinstance(s.value, ast.Name) and s.value.id in st:
                self.problems.append((s, s.value.id, st[s.value.id]))
            return st
        if isinstance(s, (ast.Return, ast.Raise)):
            if getattr(s, 'value', None) is not None:
                self.uses(s.value, st)
            return None
        if isinstance(s, (ast.Break, ast.Continue)):
            return None
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return st
        self.uses(s, st)
        return st

    def pre_test(self, test, st):
        'inside a condition, operands before the first test of a name are unprotected only when dereferenced'
        return st


@rule
def none_discipline(sess, _p):
    rep = Report('a result that may be missing (infeasible program, no intersection, no centre, no successor) is '
                 'examined by a condition before it is dereferenced, computed with or passed on')
    for f in live_funcs(sess.tgt):
        fl = _NoneFlow(sess.tgt, f)
        fl.run()
        if fl.sites:
            rep.obligations += fl.sites
            if len(rep.samples) < 12:
                rep.samples.append('%s: %d query results' % (f.qual, fl.sites))
        base = set()
        if f.qual in sess.ref.funcs:
            rf = _NoneFlow(sess.ref, sess.ref.funcs[f.qual])
            rf.run()
            base = {nm for _, _, nm in rf.problems}
        seen = set()
        for n, v, nm in fl.problems:
            if nm in base or (v, nm) in seen:
                continue
            seen.add((v, nm))
            rep.bad('%s:%s' % (f.qual, nm), 'result of %s (%s) is used before it is checked' % (nm, v), loc(f, n))
    return rep
