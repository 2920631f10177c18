'''
Transitive side effects of every function, by attribute name (flow-insensitive, over the resolved call graph).
'''

import ast

from hsa.interp import ext_name

MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'add', 'discard', 'update',
            'setdefault', 'popitem', 'fill', 'resize'}
PURE_EXT = ('np.', 'sparse.', 'math.', 'scipy', 'itertools', 'copy.', 'functools', 'sympy', 'collections', 'sp.',
            'operator')
IMPURE_EXT = ('np.random',)


CALL_LOCATIONS = ('#con', '#obj')
SETTERS = ('glp_set_row_bnds', 'glp_set_col_bnds', 'glp_set_mat_row', 'glp_set_mat_col', 'glp_load_matrix')


def solver_access(s):
    'parts of the solver state (constraints, objective, basis, solution, number of rows and columns) read and written'
    if s.startswith(('glp_add_', 'glp_del_')):
        return {'#shape'}, {'#shape', '#con'}
    if s.startswith(('glp_set_obj_coef', 'glp_set_obj_dir')):
        return {'#shape'}, {'#obj'}
    if s in SETTERS:
        return {'#shape'}, {'#con'}
    if s.endswith('_basis'):
        return {'#shape', '#con'}, {'#basis'}
    if s in ('glp_simplex', 'glp_exact', 'glp_interior', 'glp_warm_up'):
        return {'#shape', '#con', '#obj', '#basis'}, {'#sol', '#basis'}
    if s in ('glp_get_status', 'glp_get_prim_stat', 'glp_get_dual_stat', 'glp_get_col_prim', 'glp_get_row_prim',
             'glp_get_obj_val', 'glp_get_unbnd_ray', 'glp_get_row_stat', 'glp_get_col_stat'):
        return {'#sol', '#basis'}, set()
    if s in ('glp_get_num_rows', 'glp_get_num_cols'):
        return {'#shape'}, set()
    if s.startswith('glp_get_obj'):
        return {'#obj'}, set()
    if s.startswith('glp_get_'):
        return {'#con'}, set()
    if s.startswith(('glp_write_', 'glp_copy_')):
        return {'#shape', '#con', '#obj'}, set()
    return set(), set()


class Eff():
    def __init__(self):
        self.reads = set()
        self.writes = set()
        self.ext = set()        # external effects
        self.calls = set()

    @property
    def pure(self):
        return not self.writes and not self.ext


class Effects():
    def __init__(self, prog, hints):
        self.prog = prog
        self.hints = hints
        self.table = {}
        for q, f in prog.funcs.items():
            self.table[q] = self.local(f)
        changed = True
        while changed:
            changed = False
            for q, e in self.table.items():
                for c in e.calls:
                    o = self.table.get(c)
                    if o is None:
                        continue
                    ow = o.writes
                    n = len(e.reads) + len(e.writes) + len(e.ext)
                    e.reads |= o.reads
                    e.writes |= ow
                    e.ext |= o.ext
                    if len(e.reads) + len(e.writes) + len(e.ext) != n:
                        changed = True

        self.own = {q: self.own_local(f) for q, f in prog.funcs.items()}
        changed = True
        while changed:
            changed = False
            for q, (fields, calls) in self.own.items():
                for c in calls:
                    o = self.own.get(c)
                    if o is not None and not o[0] <= fields:
                        fields |= o[0]
                        changed = True

    def own_local(self, f):
        'attributes of its own object that a method may assign, and the methods it calls on that object'
        fields, calls = set(), set()
        if f.cls is None or f.is_static:
            return fields, calls
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self':
                if isinstance(n.ctx, ast.Store):
                    fields.add(n.attr)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                    isinstance(n.func.value, ast.Name) and n.func.value.id == 'self':
                for c in [f.cls] + list(self.prog.subclasses(f.cls)):
                    m = self.prog.find_method(c, n.func.attr)
                    if m is not None:
                        calls.add(m.qual)
        return fields, calls

    def own_writes(self, qual):
        o = self.own.get(qual)
        return o[0] if o is not None else ()

    def get(self, qual):
        return self.table.get(qual)

    def local(self, f):
        e = Eff()
        ctor = f.name == '__init__'
        aliases = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute):
                if isinstance(n.ctx, ast.Load):
                    e.reads.add(n.attr)
                elif isinstance(n.ctx, ast.Store):
                    if not (ctor and isinstance(n.value, ast.Name) and n.value.id == 'self') and n.attr != 'shape':
                        e.writes.add(n.attr)
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                self.root_write(n.value, e, ctor, f)
            elif isinstance(n, ast.AugAssign):
                if isinstance(n.target, ast.Attribute):
                    e.reads.add(n.target.attr)
            elif isinstance(n, ast.Call):
                self.call(n, f, e, ctor)
        return e

    def root_write(self, node, e, ctor, f):
        while isinstance(node, ast.Subscript):
            node = node.value
        if isinstance(node, ast.Attribute):
            if not (ctor and isinstance(node.value, ast.Name) and node.value.id == 'self'):
                e.writes.add(node.attr)
        elif isinstance(node, ast.Name):
            params = [p for p, _ in f.params()]
            if node.id in params:
                e.writes.add('#param')

    def call(self, n, f, e, ctor):
        fn = n.func
        if isinstance(fn, ast.Name):
            r = self.prog.resolve_in_module(f.module, fn.id)
            if r is None:
                return
            if r[0] == 'func':
                e.calls.add(r[1].qual)
            elif r[0] == 'class':
                m = self.prog.find_method(r[1].name, '__init__')
                if m is not None:
                    e.calls.add(m.qual)
            elif r[0] == 'ext':
                self.ext(ext_name(r[1]), e)
            return
        if not isinstance(fn, ast.Attribute):
            return
        base = fn.value
        root = base
        path = [fn.attr]
        while isinstance(root, ast.Attribute):
            path.insert(0, root.attr)
            root = root.value
        if isinstance(root, ast.Name):
            r = self.prog.resolve_in_module(f.module, root.id)
            if r is not None and r[0] == 'ext':
                self.ext(ext_name('.'.join([r[1]] + path)), e)
                return
            if r is not None and r[0] == 'module' and len(path) == 1:
                x = self.prog.resolve_in_module(r[1], path[0])
                if x is not None and x[0] == 'func':
                    e.calls.add(x[1].qual)
                elif x is not None and x[0] == 'class':
                    m = self.prog.find_method(x[1].name, '__init__')
                    if m is not None:
                        e.calls.add(m.qual)
                return
            if r is not None and r[0] == 'class' and len(path) == 1:
                m = self.prog.find_method(r[1].name, path[0])
                if m is not None and r[1].name != 'Timers':
                    e.calls.add(m.qual)
                return
        name = fn.attr
        if name in MUTATORS:
            if isinstance(base, ast.Attribute):
                if not (ctor and isinstance(base.value, ast.Name) and base.value.id == 'self'):
                    e.writes.add(base.attr)
            elif isinstance(base, ast.Name) and base.id in [p for p, _ in f.params()]:
                e.writes.add('#param')
        # typed receiver
        cls = None
        if isinstance(base, ast.Name):
            cls = f.cls if base.id == 'self' else self.hints.get(base.id)
        elif isinstance(base, ast.Attribute):
            cls = self.hints.get('.' + base.attr) or self.hints.get(base.attr)
        if cls is not None:
            m = self.prog.find_method(cls, name)
            if m is not None:
                e.calls.add(m.qual)
                for c in self.prog.subclasses(cls):
                    k = self.prog.classes[c].methods.get(name)
                    if k is not None:
                        e.calls.add(k.qual)
                return
        from hsa.interp import CONTAINER_METHODS
        if name in CONTAINER_METHODS:
            return
        owners = self.prog.method_owners.get(name, [])
        for o in owners:
            if o.cls != 'Timers':
                e.calls.add(o.qual)
        if not owners and name not in ('check_format',):
            e.ext.add('.' + name)

    def ext(self, name, e):
        if name.startswith('glpk.'):
            s = name[5:]
            r, w = solver_access(s)
            e.reads |= {x for x in r if x in CALL_LOCATIONS}
            e.writes |= {x for x in w if x in CALL_LOCATIONS}
            if s.startswith('glp_get_num') or s.startswith('glp_get_'):
                e.reads.add('#lp')
                return
            if s in ('intArray', 'doubleArray', 'glp_smcp'):
                return
            e.writes.add('#lp')
            return
        if name.startswith(IMPURE_EXT):
            e.ext.add(name)
            return
        if name.startswith(PURE_EXT) or name in ('time.time', 'sys.exit', 'termcolor.colored', 'termcolor.cprint'):
            return
        if name.startswith('time.'):
            return
        e.ext.add(name)


def solid(prog):
    """attributes that hold None or something that is never empty: they are compared with None and taken apart, but
    never measured, searched or started empty"""
    none, parts, other = set(), set(), set()

    def name(x):
        return x.attr if isinstance(x, ast.Attribute) else None

    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Compare) and isinstance(n.ops[0], (ast.Is, ast.IsNot)):
                none.add(name(n.left))
            elif isinstance(n, ast.Subscript):
                (parts if isinstance(n.slice, ast.Constant) else other).add(name(n.value))
            elif isinstance(n, ast.Call):
                if isinstance(n.func, ast.Name) and n.func.id in ('len', 'enumerate', 'range', 'sorted', 'list', 'zip'):
                    other.update(name(a) for a in n.args)
                elif isinstance(n.func, ast.Attribute):
                    other.add(name(n.func.value))
            elif isinstance(n, (ast.For, ast.comprehension)):
                other.add(name(n.iter))
            elif isinstance(n, ast.Assign):
                if isinstance(n.targets[0], ast.Tuple):
                    parts.add(name(n.value))
                if isinstance(n.value, (ast.List, ast.Dict, ast.ListComp, ast.DictComp, ast.Set)):
                    other.update(name(x) for x in n.targets)
    return (none & parts) - other - {None}


def lists(prog):
    """attributes that only ever hold lists: every assignment is a display, a comprehension or a copy made by list()"""
    good, bad = set(), set()

    def is_list(v, field=None):
        if isinstance(v, ast.BinOp):
            return isinstance(v.op, (ast.Mult, ast.Add)) and (is_list(v.left, field) or is_list(v.right, field))
        if isinstance(v, ast.Attribute) and v.attr == field:
            return True
        return isinstance(v, (ast.List, ast.ListComp)) or \
            isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('list', 'sorted')

    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.Assign, ast.AnnAssign)):
                for x in n.targets if isinstance(n, ast.Assign) else [n.target]:
                    for y in ast.walk(x):
                        if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store):
                            v = n.value
                            if y is x and isinstance(v, ast.Call) and not v.args and not is_list(v):
                                v = v.func      # a copy
                                v = v.value if isinstance(v, ast.Attribute) and v.attr == 'copy' else None
                            if y is not x or v is None or not is_list(v, y.attr):
                                bad.add(y.attr)
                            elif is_list(v):
                                good.add(y.attr)
            elif isinstance(n, (ast.For, ast.comprehension, ast.With)):
                for x in [n.target] if not isinstance(n, ast.With) else [i.optional_vars for i in n.items]:
                    bad.update(y.attr for y in ast.walk(x) if isinstance(y, ast.Attribute)) if x is not None else None
            elif isinstance(n, ast.ClassDef):
                bad.update(y.id for z in n.body if isinstance(z, ast.Assign) for y in z.targets if isinstance(y, ast.Name))
                bad.update(z.name for z in n.body if isinstance(z, ast.FunctionDef))
    return good - bad


def fixed_length(prog):
    """attributes that always hold a sequence of the same known length: every assignment is a display of that many
    elements or a copy of something asserted to be that long, and nothing ever grows or shrinks them"""
    found, bad = {}, set()

    def name(x):
        return x.attr if isinstance(x, ast.Attribute) else None

    def measure(v, asserted):
        if isinstance(v, (ast.List, ast.Tuple)) and not any(isinstance(x, ast.Starred) for x in v.elts):
            return len(v.elts)
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == 'copy' and not v.args:
            v = v.func.value
        elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('list', 'tuple') and \
                len(v.args) == 1:
            v = v.args[0]
        if isinstance(v, ast.Name):
            return asserted.get(v.id)
        if isinstance(v, ast.ListComp) and len(v.generators) == 1 and not v.generators[0].ifs:
            it = v.generators[0].iter
            if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'range' and \
                    len(it.args) == 1:
                return counter(it.args[0])
        if isinstance(v, ast.BinOp) and isinstance(v.op, ast.Mult) and isinstance(v.left, ast.List) and \
                len(v.left.elts) == 1:
            return counter(v.right)
        return None

    def counter(x):
        'a field of the same object that is given a value once'
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == 'self' and x.attr in once:
            return x.attr
        return None

    def same_length(x, v):
        'x[:] = [.. for .. in x]'
        return x.slice.lower is None and x.slice.upper is None and x.slice.step is None and \
            isinstance(v, ast.ListComp) and len(v.generators) == 1 and not v.generators[0].ifs and \
            ast.dump(v.generators[0].iter) == ast.dump(x.value).replace('Store()', 'Load()')

    once = assigned_once(prog)
    for f in prog.funcs.values():
        asserted = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assert) and isinstance(n.test, ast.Compare) and len(n.test.ops) == 1 and \
                    isinstance(n.test.ops[0], ast.Eq) and isinstance(n.test.left, ast.Call) and \
                    isinstance(n.test.left.func, ast.Name) and n.test.left.func.id == 'len' and \
                    isinstance(n.test.left.args[0], ast.Name) and isinstance(n.test.comparators[0], ast.Constant):
                asserted[n.test.left.args[0].id] = n.test.comparators[0].value
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign):
                for tg in n.targets:
                    for x in tg.elts if isinstance(tg, (ast.Tuple, ast.List)) else [tg]:
                        if isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Slice) and not same_length(x, n.value):
                            bad.add(name(x.value))
                        a = name(x)
                        if a is None or isinstance(n.value, ast.Constant) and n.value.value is None:
                            continue            # None has no length
                        k = measure(n.value, asserted) if x is tg else None
                        if k is None or found.setdefault(a, k) != k:
                            bad.add(a)
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                bad.add(name(n.target))
            elif isinstance(n, ast.Delete):
                for x in n.targets:
                    bad.add(name(x.value) if isinstance(x, ast.Subscript) else name(x))
            elif isinstance(n, (ast.For, ast.comprehension)):
                for x in ast.walk(n.target):
                    bad.add(name(x))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                    n.func.attr not in ('copy', 'index', 'count'):
                bad.add(name(n.func.value))
    return {a: k for a, k in found.items() if k and a not in bad}       # an empty default is there to be replaced


def assigned_once(prog):
    'attributes that (but for None in a constructor) are given a value in one function per class, before they are used'
    where, bad = {}, set()
    for f in prog.funcs.values():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                if isinstance(n.value, ast.Name) and n.value.id == 'self' and f.cls is not None:
                    where.setdefault(n.attr, []).append((f, n))
                else:
                    bad.add(n.attr)
    out = set()
    for a, places in where.items():
        if a in bad:
            continue
        byclass = {}
        for f, n in places:
            if f.name == '__init__' and any(
                    isinstance(s, ast.Assign) and n in s.targets and isinstance(s.value, ast.Constant) and
                    s.value.value is None for s in ast.walk(f.node)):
                continue
            byclass.setdefault(f.cls, []).append(f)
        if all(len(fs) == 1 for fs in byclass.values()):
            out.add(a)
    return out


def memo_functions(prog):
    """methods of the form: if <field> is None: compute and assign <field>; ...; return <field>. Everything they do is
    done once, so calling them again with the same arguments changes nothing and gives the same result"""
    def strip(body):
        return [s for s in body if not (isinstance(s, ast.Expr) and (
            isinstance(s.value, ast.Constant) or isinstance(s.value, ast.Call) and
            isinstance(s.value.func, ast.Attribute) and s.value.func.attr in ('tic', 'toc')))]

    def field(x):
        'a field of self, or an element of one given by a parameter'
        if isinstance(x, ast.Subscript):
            return isinstance(x.slice, ast.Name) and field(x.value)
        return isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == 'self'

    out = set()
    for q, f in prog.funcs.items():
        body = strip(f.node.body)
        if f.cls is None or len(body) < 2 or not isinstance(body[-1], ast.Return) or not field(body[-1].value):
            continue
        keeps = []
        for s in body[:-1]:
            c = s.test if isinstance(s, ast.If) and not s.orelse else None
            if not (isinstance(c, ast.Compare) and len(c.ops) == 1 and isinstance(c.ops[0], ast.Is) and
                    isinstance(c.comparators[0], ast.Constant) and c.comparators[0].value is None and field(c.left)):
                break
            kept = ast.dump(c.left)
            if not any(isinstance(x, ast.Assign) and any(
                    ast.dump(tg).replace('Store()', 'Load()') == kept for tg in x.targets) for x in s.body):
                break
            keeps.append(kept)
        else:
            if keeps and keeps[-1] == ast.dump(body[-1].value):
                out.add(q)
    return out


def never_none(prog):
    'functions whose result is never None'
    memo = memo_functions(prog)
    cand = {q: f for q, f in prog.funcs.items()
            if not any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f.node))}

    def ends(body):
        'control does not leave this block at its end'
        if not body:
            return False
        s = body[-1]
        if isinstance(s, (ast.Return, ast.Raise)):
            return True
        if isinstance(s, ast.If):
            return ends(s.body) and ends(s.orelse)
        if isinstance(s, ast.While):
            return isinstance(s.test, ast.Constant) and bool(s.test.value) and \
                not any(isinstance(x, ast.Break) for x in ast.walk(s))
        if isinstance(s, ast.Assert):
            return isinstance(s.test, ast.Constant) and not s.test.value
        return False

    def own(node):
        'the nodes of a function without those of nested functions'
        todo = list(node.body)
        while todo:
            n = todo.pop()
            yield n
            if not isinstance(n, (ast.FunctionDef, ast.Lambda)):
                todo.extend(ast.iter_child_nodes(n))

    def some(v, assigns, busy, good):
        if isinstance(v, ast.Constant):
            return v.value is not None
        if isinstance(v, (ast.List, ast.Tuple, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp, ast.JoinedStr,
                          ast.BinOp, ast.Compare, ast.UnaryOp, ast.GeneratorExp)):
            return True
        if isinstance(v, ast.IfExp):
            return some(v.body, assigns, busy, good) and some(v.orelse, assigns, busy, good)
        if isinstance(v, ast.Call):
            if isinstance(v.func, ast.Name):
                return v.func.id in prog.classes or v.func.id in ('len', 'int', 'float', 'str', 'abs', 'sum', 'list',
                                                                  'tuple', 'set', 'dict', 'sorted', 'bool')
            if isinstance(v.func, ast.Attribute):
                if isinstance(v.func.value, ast.Name) and v.func.value.id == 'np':
                    return v.func.attr in ('array', 'zeros', 'ones', 'dot', 'add', 'identity', 'linspace')
                return False
        if isinstance(v, ast.Name):
            if v.id in busy:
                return True
            return v.id in assigns and all(x is not None and some(x, assigns, busy | {v.id}, good)
                                           for x in assigns[v.id])
        return False

    out = set()
    for q, f in cand.items():
        if not ends(f.node.body):
            continue
        assigns = {}
        for n in own(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                assigns.setdefault(n.targets[0].id, []).append(n.value)
            elif isinstance(n, ast.AugAssign):
                continue
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                assigns.setdefault(n.id, [])
        plain = {n.targets[0] for n in own(f.node) if isinstance(n, ast.Assign) and len(n.targets) == 1}
        plain |= {n.target for n in own(f.node) if isinstance(n, ast.AugAssign)}
        for n in own(f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n not in plain:
                assigns[n.id] = [None]
        for p, _ in f.params():
            assigns[p] = [None]
        returns = [n.value for n in own(f.node) if isinstance(n, ast.Return)]
        if all(v is not None and some(v, assigns, frozenset(), out) for v in returns):
            out.add(q)
        elif q in memo:
            last = [s for s in f.node.body if isinstance(s, ast.If)][-1]
            a = [s for s in last.body if isinstance(s, ast.Assert)]
            if a and isinstance(a[-1].test, ast.Compare) and isinstance(a[-1].test.ops[0], ast.IsNot) and \
                    ast.dump(a[-1].test.left) == ast.dump(last.test.left):
                out.add(q)
    return out


def constructor_fields(prog):
    """(class, attribute) -> parameter of the constructor that it holds for as long as the object exists"""
    writes = {}
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                writes[n.attr] = writes.get(n.attr, 0) + 1
    out = {}
    count = {}
    for c, k in prog.classes.items():
        f = k.methods.get('__init__')
        if f is None:
            continue
        params = [x for x, _ in f.params()]
        rebound = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        for s in f.node.body:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Attribute) and \
                    isinstance(s.targets[0].value, ast.Name) and s.targets[0].value.id == params[0]:
                a = s.targets[0].attr
                count[a] = count.get(a, 0) + 1
                if isinstance(s.value, ast.Name) and s.value.id in params[1:] and s.value.id not in rebound:
                    out[(c, a)] = params.index(s.value.id) - 1
    return {ca: i for ca, i in out.items() if writes[ca[1]] == count[ca[1]]}


def none_fields(prog):
    """(class, attribute) that a new object has as None: the only function that ever assigns it otherwise is one, so no
    call made by that function does"""
    start, writers = set(), {}
    for q, f in prog.funcs.items():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                if f.name != '__init__':
                    writers.setdefault(n.attr, set()).add(q)
        if f.cls is None or f.name != '__init__':
            continue
        for s in f.node.body:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Attribute) and \
                    isinstance(s.value, ast.Constant) and s.value.value is None:
                start.add((f.cls, s.targets[0].attr))
    return {ca for ca in start if len(writers.get(ca[1], ())) == 1 and
            not any(prog.funcs[q].cls == ca[0] for q in writers[ca[1]])}
