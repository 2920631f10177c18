'''
Rule names_resolve: every name, attribute, call signature and format string in the package refers to something that
exists, on every path (also the ones no test executes).
'''

import ast
import json
import os
import string
import symtable

from .rules import rule, Report, live_funcs, loc, DEAD_MODULES, _local_types, _type_of

_EXT = None


def ext():
    global _EXT
    if _EXT is None:
        p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data', 'external_names.json')
        with open(p, encoding='utf-8') as fh:
            d = json.load(fh)
        _EXT = {'builtins': set(d['builtins']), 'attributes': set(d['attributes']),
                'modules': {k: set(v) for k, v in d['modules'].items()}}
    return _EXT


MODULE_NAMES = {'__name__', '__file__', '__doc__', '__package__', '__spec__', '__loader__', '__builtins__', '__path__',
                '__class__'}


def module_names(m):
    'names bound at the top level of a module (symbol table of the interpreter), also through global statements'
    st = symtable.symtable(m.source, m.path, 'exec')
    out = set()

    def go(t, top):
        for s in t.get_symbols():
            if top and (s.is_assigned() or s.is_imported() or s.is_namespace()):
                out.add(s.get_name())
            elif not top and s.is_declared_global() and s.is_assigned():
                out.add(s.get_name())
        for c in t.get_children():
            go(c, False)
    go(st, True)
    return out, st


def _undefined(m, bound, st, rep):
    e = ext()

    def go(t, qual):
        for s in t.get_symbols():
            if not s.is_referenced():
                continue
            if s.is_global() or (t.get_type() == 'module' and not s.is_assigned()):
                rep.obligations += 1
                nm = s.get_name()
                if nm not in bound and nm not in e['builtins'] and nm not in MODULE_NAMES:
                    line = t.get_lineno()
                    for n in ast.walk(m.tree):
                        if isinstance(n, ast.Name) and n.id == nm and n.lineno >= line:
                            line = n.lineno
                            break
                    rep.bad('%s:%s:%s' % (m.name, qual, nm), 'name %s is not defined anywhere' % nm,
                            (m.path, line, qual))
        for c in t.get_children():
            go(c, (qual + '.' if qual else '') + c.get_name())
    go(st, '')


class _MayAssign():
    'names possibly bound at every point of a function; a read of a local that no path has bound cannot succeed'

    def __init__(self, f, rep, local):
        self.f, self.rep, self.local = f, rep, local
        self.bad = {}

    def run(self):
        a = self.f.node.args
        names = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        for v in (a.vararg, a.kwarg):
            if v:
                names.add(v.arg)
        self.block(self.f.node.body, names)

    def expr(self, n, cur):
        'checks reads, then adds names bound by the expression (walrus)'
        for x in _own(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in self.local:
                self.rep.obligations += 1
                if x.id not in cur:
                    self.bad.setdefault((x.id, x.lineno), x)
            elif isinstance(x, ast.NamedExpr):
                cur.add(x.target.id)

    def bind(self, n, cur):
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                cur.add(x.id)
            elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Del):
                pass
            elif isinstance(x, ast.Name) and x.id in self.local and x.id not in cur:
                self.bad.setdefault((x.id, x.lineno), x)

    def block(self, body, cur):
        for s in body:
            self.stmt(s, cur)

    def stmt(self, s, cur):
        if isinstance(s, ast.Assign):
            self.expr(s.value, cur)
            for t in s.targets:
                self.bind(t, cur)
        elif isinstance(s, ast.AugAssign):
            self.expr(s.value, cur)
            if isinstance(s.target, ast.Name):
                if s.target.id in self.local and s.target.id not in cur:
                    self.bad.setdefault((s.target.id, s.lineno), s)
            else:
                self.bind(s.target, cur)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.expr(s.value, cur)
                self.bind(s.target, cur)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            self.expr(s.iter, cur)
            for _ in range(2):      # names bound late in one iteration are available early in the next
                saved = dict(self.bad)
                n = self.rep.obligations
                self.bind(s.target, cur)
                self.block(s.body, cur)
                if _ == 0:
                    self.bad, self.rep.obligations = saved, n
            self.block(s.orelse, cur)
        elif isinstance(s, ast.While):
            for _ in range(2):
                saved = dict(self.bad)
                n = self.rep.obligations
                self.expr(s.test, cur)
                self.block(s.body, cur)
                if _ == 0:
                    self.bad, self.rep.obligations = saved, n
            self.block(s.orelse, cur)
        elif isinstance(s, ast.If):
            self.expr(s.test, cur)
            a, b = set(cur), set(cur)
            self.block(s.body, a)
            self.block(s.orelse, b)
            ea, eb = _leaves(s.body), _leaves(s.orelse)
            if not ea or (ea and eb):
                cur |= a
            if not eb or (ea and eb):
                cur |= b
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for it in s.items:
                self.expr(it.context_expr, cur)
                if it.optional_vars is not None:
                    self.bind(it.optional_vars, cur)
            self.block(s.body, cur)
        elif isinstance(s, ast.Try):
            self.block(s.body, cur)
            for h in s.handlers:
                if h.type is not None:
                    self.expr(h.type, cur)
                if h.name:
                    cur.add(h.name)
                self.block(h.body, cur)
            self.block(s.orelse, cur)
            self.block(s.finalbody, cur)
        elif isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            cur.add(s.name)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            for al in s.names:
                cur.add((al.asname or al.name).split('.')[0])
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in self.local and \
                            x.id not in cur:
                        self.bad.setdefault((x.id, x.lineno), x)
        elif isinstance(s, ast.Match) if hasattr(ast, 'Match') else False:
            self.expr(s.subject, cur)
            for c in s.cases:
                for x in ast.walk(c.pattern):
                    if getattr(x, 'name', None):
                        cur.add(x.name)
                    if getattr(x, 'rest', None):
                        cur.add(x.rest)
                if c.guard is not None:
                    self.expr(c.guard, cur)
                self.block(c.body, cur)
        else:
            for x in ast.iter_child_nodes(s):
                if isinstance(x, ast.expr):
                    self.expr(x, cur)


def _own(n):
    'sub-expressions evaluated in the scope of the function itself (not lambdas; comprehension variables left out)'
    hidden = set()
    todo = [(n, frozenset())]
    while todo:
        x, hide = todo.pop()
        if isinstance(x, ast.Lambda):
            todo += [(d, hide) for d in x.args.defaults + [k for k in x.args.kw_defaults if k is not None]]
            continue
        if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            h2 = hide | {y.id for g in x.generators for y in ast.walk(g.target) if isinstance(y, ast.Name)}
            first = x.generators[0]
            todo.append((first.iter, hide))
            for g in x.generators:
                if g is not first:
                    todo.append((g.iter, h2))
                todo += [(i, h2) for i in g.ifs]
            todo += [(e, h2) for e in ([x.key, x.value] if isinstance(x, ast.DictComp) else [x.elt])]
            continue
        if isinstance(x, ast.Name):
            if x.id not in hide:
                yield x
            continue
        yield x
        for c in ast.iter_child_nodes(x):
            todo.append((c, hide))
    del hidden


def _leaves(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def _locals(f):
    'names local to the function scope itself'
    out, skip = set(), set()

    def go(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                out.add(c.name)
                continue
            if isinstance(c, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for x in ast.walk(c):
                    if isinstance(x, ast.NamedExpr):
                        out.add(x.target.id)
                continue
            if isinstance(c, (ast.Global, ast.Nonlocal)):
                skip.update(c.names)
            elif isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                out.add(c.id)
            elif isinstance(c, ast.alias):
                out.add((c.asname or c.name).split('.')[0])
            elif isinstance(c, ast.ExceptHandler) and c.name:
                out.add(c.name)
            go(c)
    for s in f.node.body:
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            out.add(s.name)
            continue
        go(ast.Module([s], []))
    return out - skip


# ------------------------------------------------------------------ attributes

def _class_members(prog, c):
    'attributes of objects and of the class: declared in it, its bases, or its subclasses; None with a foreign base'
    out = set()
    fam = list(prog.mro(c))
    for x in fam:
        if any(b not in prog.classes and b != 'object' for b in prog.classes[x].bases):
            return None
    for s in prog.subclasses(c):
        fam += [x for x in prog.mro(s) if x not in fam]
    for x in fam:
        cl = prog.classes[x]
        out |= set(cl.attrs) | set(cl.methods)
        for s in cl.node.body:
            if isinstance(s, ast.ClassDef):
                out.add(s.name)
        for m in cl.methods.values():
            first = m.params()[0][0] if m.params() else None
            for n in ast.walk(m.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and \
                        n.value.id == first:
                    out.add(n.attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr':
                    return None
    return out


def declared_vocabulary(prog):
    'every attribute name some statement of the package declares'
    out = set()
    for m in prog.modules.values():
        if m.name in DEAD_MODULES:
            continue
        out |= set(m.funcs) | set(m.classes) | set(m.consts)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                out.add(n.attr)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
    for c in prog.classes.values():
        out |= set(c.attrs) | set(c.methods)
    for fields in prog.namedtuples.values():
        out |= set(fields)
    return out


def _attribute_sites(prog, f, vocab, members, rep, mod_names):
    e = ext()
    types = _local_types(prog, f)
    local = _locals(f) | {p for p, _ in f.params()}
    for n in ast.walk(f.node):
        if not isinstance(n, ast.Attribute):
            continue
        rep.obligations += 1
        a = n.attr
        if a.startswith('__') and a.endswith('__'):
            continue
        # module member?
        if isinstance(n.value, (ast.Name, ast.Attribute)):
            path = _module_path(prog, f, n.value, local)
            if path is not None:
                kind, which = path
                if kind == 'own':
                    if a not in mod_names[which] and a not in MODULE_NAMES:
                        rep.bad('%s:%s.%s' % (f.qual, which, a), 'module %s has no member %s' % (which, a), loc(f, n))
                else:
                    if which + '.' + a not in e['modules'] and a not in e['modules'][which]:
                        rep.bad('%s:%s.%s' % (f.qual, which, a), 'library module %s has no member %s' % (which, a),
                                loc(f, n))
                continue
            if isinstance(n.value, ast.Name) and n.value.id not in local:
                r = prog.resolve_in_module(f.module, n.value.id)
                if r is not None and r[0] == 'class':
                    mem = members.get(r[1].name)
                    if mem is not None and a not in mem and a not in ('mro',):
                        rep.bad('%s:%s.%s' % (f.qual, r[1].name, a), 'class %s has no member %s' % (r[1].name, a),
                                loc(f, n))
                    continue
        c = _type_of(prog, f, n.value, types)
        if c is not None and members.get(c) is not None and isinstance(n.ctx, ast.Load):
            if a not in members[c] and not _hasattr_guard(f, a):
                rep.bad('%s:%s.%s' % (f.qual, c, a), 'objects of class %s have no attribute %s' % (c, a), loc(f, n))
            continue
        if isinstance(n.ctx, ast.Load) and a not in vocab and a not in e['attributes'] and not _hasattr_guard(f, a):
            rep.bad('%s:.%s' % (f.qual, a), 'no class of the package or its libraries has an attribute %s' % a, loc(f, n))


def _hasattr_guard(f, a):
    return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('hasattr', 'getattr', 'setattr')
               and len(n.args) > 1 and isinstance(n.args[1], ast.Constant) and n.args[1].value == a
               for n in ast.walk(f.node))


def _module_path(prog, f, n, local):
    "('own', module name) or ('ext', dotted name) when n denotes a module, else None"
    e = ext()
    if isinstance(n, ast.Name):
        if n.id in local and n.id not in _fn_imports(f):
            return None
        tgt = f.module.imports.get(n.id)
        if tgt is None:
            return None
        r = prog.resolve_import(f.module, n.id)
        if r is not None and r[0] == 'module':
            return ('own', r[1].name)
        if tgt in e['modules']:
            return ('ext', tgt)
        if tgt == prog.package:
            return None
        return None
    if isinstance(n, ast.Attribute):
        p = _module_path(prog, f, n.value, local)
        if p is not None and p[0] == 'ext' and p[1] + '.' + n.attr in e['modules']:
            return ('ext', p[1] + '.' + n.attr)
        if p is None and isinstance(n.value, ast.Name) and f.module.imports.get(n.value.id) == prog.package and \
                n.attr in prog.modules:
            return ('own', n.attr)
    return None


def _fn_imports(f):
    return {(al.asname or al.name).split('.')[0] for n in ast.walk(f.node) if isinstance(n, (ast.Import, ast.ImportFrom))
            for al in n.names}


# ------------------------------------------------------------------ signatures

def _accepts(g, call, bound):
    'None, or why the call does not fit the parameters of g; bound: a receiver fills the first parameter'
    a = g.node.args
    if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
        return None
    pos = [x.arg for x in a.posonlyargs + a.args]
    if bound:
        pos = pos[1:]
    only = {x.arg for x in a.posonlyargs}
    if len(call.args) > len(pos) and a.vararg is None:
        return '%d positional arguments for %d parameters' % (len(call.args), len(pos))
    filled = set(pos[:len(call.args)])
    kwo = [x.arg for x in a.kwonlyargs]
    for k in call.keywords:
        if k.arg in filled:
            return 'argument %s given twice' % k.arg
        if (k.arg not in pos or k.arg in only) and k.arg not in kwo and a.kwarg is None:
            return 'no parameter named %s' % k.arg
        filled.add(k.arg)
    need = pos[:len(pos) - len([d for d in a.defaults])] if len(a.defaults) <= len(pos) else []
    need += [x for x, d in zip(kwo, a.kw_defaults) if d is None]
    for p in need:
        if p not in filled:
            return 'parameter %s is not given' % p
    return None


def _targets(prog, f, call, types):
    'list of (function, bound?) a call certainly refers to one of, or None'
    fn = call.func
    local = _locals(f) | {p for p, _ in f.params()}
    if isinstance(fn, ast.Name):
        if fn.id in local and fn.id not in _fn_imports(f):
            return None
        r = prog.resolve_in_module(f.module, fn.id)
        if r is None:
            return None
        if r[0] == 'func':
            return [(r[1], False)] if not r[1].node.decorator_list else None
        if r[0] == 'class':
            return _ctor_target(prog, r[1].name)
        return None
    if not isinstance(fn, ast.Attribute):
        return None
    if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == 'super' and f.cls:
        for b in prog.mro(f.cls)[1:]:
            if fn.attr in prog.classes[b].methods:
                return [(prog.classes[b].methods[fn.attr], True)]
        return None
    p = _module_path(prog, f, fn.value, local)
    if p is not None:
        if p[0] != 'own':
            return None
        m = prog.modules[p[1]]
        if fn.attr in m.funcs and not m.funcs[fn.attr].node.decorator_list:
            return [(m.funcs[fn.attr], False)]
        if fn.attr in m.classes:
            return _ctor_target(prog, fn.attr)
        return None
    if isinstance(fn.value, ast.Name) and fn.value.id not in local:
        r = prog.resolve_in_module(f.module, fn.value.id)
        if r is not None and r[0] == 'class':
            m = prog.find_method(r[1].name, fn.attr)
            if m is None or _odd_decorators(m):
                return None
            return [(m, m.is_classmethod)]
        if r is not None:
            return None
    c = _type_of(prog, f, fn.value, types)
    if c is not None:
        out = []
        m = prog.find_method(c, fn.attr)
        if m is not None:
            out.append(m)
        out += [prog.classes[s].methods[fn.attr] for s in prog.subclasses(c) if fn.attr in prog.classes[s].methods]
        if not out or any(_odd_decorators(m) or m.is_property for m in out):
            return None
        return [(m, not m.is_static) for m in out]
    # a method name that only classes of this package have
    if fn.attr in ext()['attributes']:
        return None
    out = [m for m in prog.method_owners.get(fn.attr, ()) if m.module.name not in DEAD_MODULES]
    if not out or any(_odd_decorators(m) or m.is_property for m in out) or fn.attr in _data_names(prog):
        return None
    return [(m, not m.is_static) for m in out]


_dn = {}


def _data_names(prog):
    'attribute names that hold data (a call through one of them may reach any function)'
    if id(prog) not in _dn:
        _dn[id(prog)] = {n.attr for m in prog.modules.values() for n in ast.walk(m.tree)
                         if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
    return _dn[id(prog)]


def _odd_decorators(m):
    return any(not (isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod', 'property'))
               for d in m.node.decorator_list)


def _ctor_target(prog, c):
    m = prog.find_method(c, '__init__')
    if m is None or any(b not in prog.classes and b != 'object' for x in prog.mro(c) for b in prog.classes[x].bases):
        return None
    if prog.find_method(c, '__new__') is not None:
        return None
    return [(m, True)]


def _call_sites(prog, f, rep):
    types = _local_types(prog, f)
    for n in ast.walk(f.node):
        if not isinstance(n, ast.Call):
            continue
        tg = _targets(prog, f, n, types)
        if not tg:
            continue
        rep.obligations += 1
        whys = [_accepts(g, n, b) for g, b in tg]
        if all(whys):
            rep.bad('%s:call %s' % (f.qual, tg[0][0].qual), 'call of %s does not fit its parameters: %s' %
                    (tg[0][0].qual, whys[0]), loc(f, n))


def _namedtuple_calls(prog, f, rep):
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in prog.namedtuples and \
                n.func.id in f.module.consts:
            fields = prog.namedtuples[n.func.id]
            if any(isinstance(x, ast.Starred) for x in n.args) or any(k.arg is None for k in n.keywords):
                continue
            rep.obligations += 1
            given = list(fields[:len(n.args)]) + [k.arg for k in n.keywords]
            if len(n.args) > len(fields) or sorted(given) != sorted(fields):
                rep.bad('%s:%s' % (f.qual, n.func.id), 'fields given to %s do not match its declaration %s' %
                        (n.func.id, fields), loc(f, n))


# ------------------------------------------------------------------ formats and unpacking

def _formats(f, rep):
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'format' and \
                isinstance(n.func.value, ast.Constant) and isinstance(n.func.value.value, str):
            if any(isinstance(x, ast.Starred) for x in n.args) or any(k.arg is None for k in n.keywords):
                continue
            rep.obligations += 1
            why = _format_problem(n.func.value.value, len(n.args), {k.arg for k in n.keywords})
            if why:
                rep.bad('%s:format:%s' % (f.qual, n.func.value.value[:30]), 'format string %r: %s' %
                        (n.func.value.value[:60], why), loc(f, n))
        elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and \
                isinstance(n.left.value, str):
            want = _percent_count(n.left.value)
            if want is None:
                continue
            if isinstance(n.right, ast.Tuple):
                if any(isinstance(x, ast.Starred) for x in n.right.elts):
                    continue
                got = len(n.right.elts)
            elif isinstance(n.right, (ast.Constant, ast.JoinedStr, ast.BinOp, ast.Compare)):
                got = 1
            else:
                if want == 0 or want > 1:
                    continue
                got = 1
            rep.obligations += 1
            if want != got:
                rep.bad('%s:percent:%s' % (f.qual, n.left.value[:30]), 'format string %r takes %d values, %d given' %
                        (n.left.value[:60], want, got), loc(f, n))


def _format_problem(s, npos, kws):
    auto = 0
    try:
        parts = list(string.Formatter().parse(s))
    except ValueError as ex:
        return str(ex)
    todo = [p[1:3] for p in parts if p[1] is not None]
    while todo:
        name, spec = todo.pop(0)
        try:
            inner = [p[1:3] for p in string.Formatter().parse(spec or '') if p[1] is not None]
        except ValueError as ex:
            return str(ex)
        head = name
        for ch in '.[':
            head = head.split(ch)[0]
        if head == '':
            auto += 1
            if auto > npos:
                return 'more fields than the %d values given' % npos
        elif head.isdigit():
            if int(head) >= npos:
                return 'field %s but %d values given' % (head, npos)
        elif head not in kws:
            return 'no value named %s' % head
        todo = inner + todo
    return None


def _percent_count(s):
    n, i = 0, 0
    while i < len(s):
        if s[i] != '%':
            i += 1
            continue
        i += 1
        if i < len(s) and s[i] == '%':
            i += 1
            continue
        if i < len(s) and s[i] == '(':
            return None
        while i < len(s) and s[i] in '#0- +.123456789*hlL':
            if s[i] == '*':
                n += 1
            i += 1
        if i >= len(s):
            return None
        n += 1
        i += 1
    return n


def _tuple_len(g):
    'length of the tuples a function returns when all returns are tuple displays of one length'
    lens = set()
    todo = list(g.node.body)
    if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(g.node)):
        return None
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(n, ast.Return):
            if isinstance(n.value, ast.Tuple) and not any(isinstance(x, ast.Starred) for x in n.value.elts):
                lens.add(len(n.value.elts))
            else:
                return None
        todo += list(ast.iter_child_nodes(n))
    return lens.pop() if len(lens) == 1 else None


def _unpackings(prog, f, rep):
    types = _local_types(prog, f)
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], (ast.Tuple, ast.List)):
            tg = n.targets[0]
            if any(isinstance(x, ast.Starred) for x in tg.elts):
                continue
            got = None
            if isinstance(n.value, (ast.Tuple, ast.List)) and not any(isinstance(x, ast.Starred) for x in n.value.elts):
                got = len(n.value.elts)
            elif isinstance(n.value, ast.Call):
                ts = _targets(prog, f, n.value, types)
                if ts and len(ts) == 1 and ts[0][0].name != '__init__':
                    got = _tuple_len(ts[0][0])
            if got is None:
                continue
            rep.obligations += 1
            if got != len(tg.elts):
                rep.bad('%s:unpack:%s' % (f.qual, ast.unparse(tg)[:30]), '%d values are unpacked into %d names' %
                        (got, len(tg.elts)), loc(f, n))


@rule
def names_resolve(sess, _p):
    rep = Report('every name resolves to a binding that some path has made, every attribute to a declaration, every call '
                 'fits the parameters of its target, every format string and unpacking fits its values')
    prog = sess.tgt
    mod_names = {}
    for m in prog.modules.values():
        if m.name in DEAD_MODULES:
            continue
        bound, st = module_names(m)
        mod_names[m.name] = bound | {x.split('.')[-1] for x in prog.modules if x.startswith(m.name + '.')}
        n = rep.obligations
        _undefined(m, bound, st, rep)
        for al in [(i, a) for i in ast.walk(m.tree) if isinstance(i, ast.ImportFrom) for a in i.names]:
            src, a = al
            if a.name == '*':
                continue
            rep.obligations += 1
            mod = src.module or ''
            if mod in ext()['modules'] and a.name not in ext()['modules'][mod] and \
                    mod + '.' + a.name not in ext()['modules'] and not _in_try(m, src):
                rep.bad('%s:import %s' % (m.name, a.name), 'library module %s has no member %s' % (mod, a.name),
                        (m.path, src.lineno, m.name))
        rep.site('%s: %d global names resolved' % (m.name, rep.obligations - n))
    # imports between modules
    for m in prog.modules.values():
        if m.name in DEAD_MODULES:
            continue
        for i in ast.walk(m.tree):
            if isinstance(i, ast.ImportFrom) and (i.module or '').startswith(prog.package + '.') and not i.level:
                rest = i.module[len(prog.package) + 1:]
                if rest in mod_names:
                    for a in i.names:
                        rep.obligations += 1
                        if a.name != '*' and a.name not in mod_names[rest]:
                            rep.bad('%s:import %s' % (m.name, a.name), 'module %s has no member %s' % (rest, a.name),
                                    (m.path, i.lineno, m.name))
                elif rest not in prog.modules:
                    rep.bad('%s:import %s' % (m.name, rest), 'no module %s' % i.module, (m.path, i.lineno, m.name))
    for m in prog.modules:
        if m not in mod_names:
            mod_names[m] = module_names(prog.modules[m])[0]
    vocab = declared_vocabulary(prog) | set(prog.modules)
    members = {c: _class_members(prog, c) for c in prog.classes}
    for f in live_funcs(prog):
        fl = _MayAssign(f, rep, _locals(f))
        fl.run()
        for (nm, _), n in sorted(fl.bad.items()):
            rep.bad('%s:unbound %s' % (f.qual, nm), 'local variable %s is read where no path has assigned it' % nm, loc(f, n))
        _attribute_sites(prog, f, vocab, members, rep, mod_names)
        _call_sites(prog, f, rep)
        _namedtuple_calls(prog, f, rep)
        _formats(f, rep)
        _unpackings(prog, f, rep)
    return rep


def _in_try(m, node):
    return any(isinstance(t, ast.Try) and any(x is node for x in ast.walk(t)) for t in ast.walk(m.tree))
