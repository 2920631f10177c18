'''
Program model: parses every module of the analysed package and resolves names, imports, classes and methods.
'''

import ast
import hashlib
import os


class Func():
    'a function or method'
    def __init__(self, qual, name, node, module, cls):
        self.qual = qual        # 'lputil.from_box' or 'LpInstance.clone'
        self.name = name
        self.node = node
        self.module = module
        self.cls = cls          # class name or None
        decs = [d.id for d in node.decorator_list if isinstance(d, ast.Name)]
        self.is_static = 'staticmethod' in decs
        self.is_classmethod = 'classmethod' in decs
        self.is_property = 'property' in decs

    @property
    def path(self):
        return self.module.path

    def params(self):
        'list of (name, default node or None), positional'
        a = self.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        defaults = [None] * (len(names) - len(a.defaults)) + list(a.defaults)
        rv = list(zip(names, defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            rv.append((x.arg, d))
        return rv


class Class():
    def __init__(self, name, node, module):
        self.name = name
        self.node = node
        self.module = module
        self.bases = [b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else '?'
                      for b in node.bases]
        self.methods = {}
        self.attrs = {}     # class-level attr -> ast value (or ('tuple', index, node))


class Module():
    def __init__(self, name, path, source):
        self.name = name
        self.path = path
        self.source = source
        self.tree = ast.parse(source, filename=path)
        self.imports = {}       # local name -> dotted target
        self.funcs = {}
        self.classes = {}
        self.consts = {}        # module level name -> ast node


class Program():
    '''all modules of one package directory'''

    def __init__(self, root, package='hylaa', extra=None, skip=()):
        self.root = root
        self.package = package
        self.modules = {}
        self.funcs = {}         # qual -> Func
        self.classes = {}       # name -> Class
        self.method_owners = {}  # method name -> [Func]
        self.namedtuples = {}   # name -> fields
        self.unparsed = []
        files = []
        base = os.path.join(root, package)
        for dirpath, dirnames, filenames in sorted(os.walk(base)):
            dirnames[:] = sorted(d for d in dirnames if d != '__pycache__')
            for f in sorted(filenames):
                if f.endswith('.py'):
                    files.append(os.path.join(dirpath, f))
        for path in files:
            rel = os.path.relpath(path, base)[:-3].replace(os.sep, '.')
            if rel in skip:
                continue
            with open(path, encoding='utf-8') as fh:
                src = fh.read()
            try:
                m = Module(rel, path, src)
            except SyntaxError as e:
                self.unparsed.append((path, str(e)))
                continue
            self.modules[rel] = m
        if extra:
            for name, src in extra.items():
                self.modules[name] = Module(name, '<spec:%s>' % name, src)
        for m in self.modules.values():
            self._index(m)

    def variant(self, name, source):
        'the same program with the source of one module replaced'
        p = Program.__new__(Program)
        p.root, p.package = self.root, self.package
        p.modules = dict(self.modules)
        p.modules[name] = Module(name, self.modules[name].path, source)
        p.funcs, p.classes, p.method_owners, p.namedtuples, p.unparsed = {}, {}, {}, {}, []
        for m in p.modules.values():
            p._index(m)
        return p

    def digest(self):
        h = hashlib.sha256()
        for n in sorted(self.modules):
            h.update(n.encode())
            h.update(self.modules[n].source.encode())
        return h.hexdigest()

    def _index(self, m):
        for st in ast.walk(m.tree):
            if isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        m.imports[a.asname] = a.name
                    else:
                        m.imports[a.name.split('.')[0]] = a.name.split('.')[0]
            elif isinstance(st, ast.ImportFrom):
                src = st.module or ''
                if st.level:
                    src = self.package + ('.' + src if src else '')
                for a in st.names:
                    m.imports[a.asname or a.name] = src + '.' + a.name
        for st in m.tree.body:
            if isinstance(st, ast.FunctionDef):
                f = Func(m.name + '.' + st.name, st.name, st, m, None)
                m.funcs[st.name] = f
                self.funcs[f.qual] = f
            elif isinstance(st, ast.ClassDef):
                c = Class(st.name, st, m)
                m.classes[st.name] = c
                self.classes[st.name] = c
                for s in st.body:
                    if isinstance(s, ast.FunctionDef):
                        f = Func(st.name + '.' + s.name, s.name, s, m, st.name)
                        c.methods[s.name] = f
                        self.funcs[f.qual] = f
                        self.method_owners.setdefault(s.name, []).append(f)
                    elif isinstance(s, ast.Assign):
                        for t in s.targets:
                            if isinstance(t, ast.Name):
                                c.attrs[t.id] = s.value
                            elif isinstance(t, ast.Tuple):
                                for i, x in enumerate(t.elts):
                                    if isinstance(x, ast.Name):
                                        c.attrs[x.id] = ('elem', i, s.value)
                    elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                        c.attrs[s.target.id] = s.value
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        m.consts[t.id] = st.value
                        v = st.value
                        if isinstance(v, ast.Call) and getattr(v.func, 'id', getattr(v.func, 'attr', '')) == \
                                'namedtuple' and len(v.args) == 2 and isinstance(v.args[1], (ast.List, ast.Tuple)):
                            self.namedtuples[t.id] = [e.value for e in v.args[1].elts if isinstance(e, ast.Constant)]

    def mro(self, cname):
        'linearised class names (repo classes only)'
        out = []
        todo = [cname]
        while todo:
            c = todo.pop(0)
            if c in out or c not in self.classes:
                continue
            out.append(c)
            todo.extend(self.classes[c].bases)
        return out

    def find_method(self, cname, mname):
        for c in self.mro(cname):
            if mname in self.classes[c].methods:
                return self.classes[c].methods[mname]
        return None

    def subclasses(self, cname):
        return [c for c in self.classes if cname in self.mro(c) and c != cname]

    def resolve_import(self, m, name):
        '''resolve an imported name to ('func', Func) / ('class', Class) / ('module', Module) / ('ext', dotted)'''
        tgt = m.imports.get(name)
        if tgt is None:
            return None
        if tgt == self.package:
            return ('ext', tgt)
        if tgt.startswith(self.package + '.'):
            rest = tgt[len(self.package) + 1:]
            if rest in self.modules:
                return ('module', self.modules[rest])
            if '.' in rest:
                mod, nm = rest.rsplit('.', 1)
                mm = self.modules.get(mod)
                if mm is not None:
                    return self.resolve_in_module(mm, nm)
            return ('ext', tgt)
        return ('ext', tgt)

    def resolve_in_module(self, mm, nm, _depth=0):
        if nm in mm.funcs:
            return ('func', mm.funcs[nm])
        if nm in mm.classes:
            return ('class', mm.classes[nm])
        if nm in mm.consts:
            return ('const', mm, nm)
        if nm in mm.imports and _depth < 5:
            return self.resolve_import(mm, nm)
        return None
