'''
Development tool (never run by a check): behaviour-preserving rewrites of one function at a time, used to measure whether
the comparison stays quiet.   usage: refactors.py [-j N] [transform ...]
'''
import ast
import copy
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def blocks(fn):
    for n in ast.walk(fn):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield n, f, b


def names_in(n, ctx=None):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and (ctx is None or isinstance(x.ctx, ctx))}


def local_names(fn):
    args = {a.arg for a in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs}
    return {n for n in names_in(fn, ast.Store)} - args


def has(n, *types):
    return any(isinstance(x, types) for x in ast.walk(n))


def nested_defs(fn):
    return any(isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not fn for x in ast.walk(fn))


# every transform: f(fn) -> list of zero-argument functions that apply one site in place on fn
def rename(fn):
    def go():
        m = {n: n + '_rn' for n in local_names(fn)}
        for x in ast.walk(fn):
            if isinstance(x, ast.Name) and x.id in m:
                x.id = m[x.id]
            if isinstance(x, ast.Global):
                return
    if has(fn, ast.Global, ast.Nonlocal) or not local_names(fn):
        return []
    return [go]


def if_invert(fn):
    out = []
    for n in ast.walk(fn):
        if isinstance(n, ast.If) and n.orelse:
            def go(n=n):
                n.test = ast.UnaryOp(ast.Not(), n.test)
                n.body, n.orelse = n.orelse, n.body
            out.append(go)
        elif isinstance(n, ast.IfExp):
            def go(n=n):
                n.test = ast.UnaryOp(ast.Not(), n.test)
                n.body, n.orelse = n.orelse, n.body
            out.append(go)
    return out


def terminal(b):
    return isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)) or \
        isinstance(b[-1], ast.If) and b[-1].orelse and terminal(b[-1].body) and terminal(b[-1].orelse)


def else_after_return(fn):
    out = []
    for _, _, b in blocks(fn):
        for k, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and terminal(s.body) and k + 1 < len(b):
                def go(b=b, k=k, s=s):
                    s.orelse = b[k + 1:]
                    del b[k + 1:]
                out.append(go)
            if isinstance(s, ast.If) and s.orelse and terminal(s.body):
                def go2(b=b, k=k, s=s):
                    b[k + 1:k + 1] = s.orelse
                    s.orelse = []
                out.append(go2)
    return out


def guard_clause(fn):
    'last "if c: A" of a function without else -> if not c: return; A'
    out = []
    b = fn.body
    s = b[-1]
    if isinstance(s, ast.If) and not s.orelse and not has(fn, ast.Yield):
        def go():
            b[-1:] = [ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Return(None)], [])] + s.body
        out.append(go)
    for n in ast.walk(fn):
        if isinstance(n, ast.For) and isinstance(n.body[-1], ast.If) and not n.body[-1].orelse:
            def go2(n=n):
                s = n.body[-1]
                n.body[-1:] = [ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Continue()], [])] + s.body
            out.append(go2)
    return out


def range_to_while(fn):
    out = []
    for _, _, b in blocks(fn):
        for k, s in enumerate(b):
            if isinstance(s, ast.For) and not s.orelse and isinstance(s.iter, ast.Call) and \
                    isinstance(s.iter.func, ast.Name) and s.iter.func.id == 'range' and len(s.iter.args) == 1 and \
                    isinstance(s.target, ast.Name) and not has(s, ast.Continue):
                st = names_in(ast.Module(s.body, []), ast.Store)
                if s.target.id in st or names_in(s.iter) & st:
                    continue
                if any(isinstance(x, ast.Name) and x.id == s.target.id for q in b[k + 1:] for x in ast.walk(q)):
                    continue

                def go(b=b, k=k, s=s):
                    i = s.target.id
                    b[k:k + 1] = ast.parse('%s = 0' % i).body + [
                        ast.While(ast.Compare(ast.Name(i, ast.Load()), [ast.Lt()], [s.iter.args[0]]),
                                  s.body + ast.parse('%s += 1' % i).body, [])]
                out.append(go)
    return out


def foreach_to_index(fn):
    out = []
    for _, _, b in blocks(fn):
        for k, s in enumerate(b):
            if isinstance(s, ast.For) and not s.orelse and isinstance(s.iter, (ast.Name, ast.Attribute)) and \
                    isinstance(s.target, ast.Name):
                nm = s.iter.id if isinstance(s.iter, ast.Name) else s.iter.attr
                if nm in ('items', 'd') or 'dict' in nm:
                    continue
                if names_in(s.iter) & names_in(ast.Module(s.body, []), ast.Store):
                    continue

                def go(b=b, k=k, s=s):
                    s.body.insert(0, ast.Assign([s.target], ast.Subscript(s.iter, ast.Name('pos_ix', ast.Load()),
                                                                          ast.Load())))
                    s.target = ast.Name('pos_ix', ast.Store())
                    s.iter = ast.parse('range(len(x))', mode='eval').body
                    s.iter.args[0].args[0] = copy.deepcopy(s.body[0].value.value)
                out.append(go)
            if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and getattr(s.iter.func, 'id', '') == 'enumerate' \
                    and isinstance(s.target, ast.Tuple) and len(s.iter.args) == 1 and \
                    isinstance(s.iter.args[0], (ast.Name, ast.Attribute)):
                def go2(s=s):
                    i, x = s.target.elts
                    src = s.iter.args[0]
                    s.body.insert(0, ast.Assign([x], ast.Subscript(copy.deepcopy(src), ast.Name(i.id, ast.Load()),
                                                                   ast.Load())))
                    s.target = i
                    s.iter = ast.parse('range(len(x))', mode='eval').body
                    s.iter.args[0].args[0] = src
                out.append(go2)
    return out


def comp_to_loop(fn):
    out = []
    for _, _, b in blocks(fn):
        for k, s in enumerate(b):
            v = getattr(s, 'value', None)
            if not isinstance(s, (ast.Assign, ast.Return, ast.Expr)) or v is None:
                continue
            cands = [v] if isinstance(v, ast.ListComp) else []
            if isinstance(v, ast.Call):
                cands += [a for a in v.args if isinstance(a, (ast.ListComp, ast.GeneratorExp))]
            for c in cands:
                def go(b=b, k=k, s=s, v=v, c=c):
                    own = {n.id for g in c.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
                    for n in ast.walk(c):
                        if isinstance(n, ast.Name) and n.id in own:
                            n.id += '_c'        # a comprehension's variables are its own
                    inner = [ast.Expr(ast.Call(ast.Attribute(ast.Name('acc_l', ast.Load()), 'append', ast.Load()),
                                               [c.elt], []))]
                    for g in reversed(c.generators):
                        for i in reversed(g.ifs):
                            inner = [ast.If(i, inner, [])]
                        inner = [ast.For(g.target, g.iter, inner, [])]
                    if c is v:
                        s.value = ast.Name('acc_l', ast.Load())
                    else:
                        v.args[v.args.index(c)] = ast.Name('acc_l', ast.Load())
                    b[k:k] = ast.parse('acc_l = []').body + inner
                out.append(go)
    return out


def loop_to_comp(fn):
    out = []
    for _, _, b in blocks(fn):
        for k, s in enumerate(b[1:], 1):
            p = b[k - 1]
            if isinstance(s, ast.For) and len(s.body) == 1 and isinstance(s.body[0], ast.Expr) and \
                    isinstance(s.body[0].value, ast.Call) and isinstance(s.body[0].value.func, ast.Attribute) and \
                    s.body[0].value.func.attr == 'append' and isinstance(p, ast.Assign) and \
                    isinstance(p.value, ast.List) and not p.value.elts and isinstance(p.targets[0], ast.Name) and \
                    isinstance(s.body[0].value.func.value, ast.Name) and \
                    s.body[0].value.func.value.id == p.targets[0].id:
                def go(b=b, k=k, s=s, p=p):
                    p.value = ast.ListComp(s.body[0].value.args[0], [ast.comprehension(s.target, s.iter, [], 0)])
                    del b[k]
                out.append(go)
    return out


FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
NEGATE = {ast.Lt: ast.GtE, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.GtE: ast.Lt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
          ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}


class Replace(ast.NodeTransformer):
    def __init__(self, old, new):
        self.old, self.new = old, new

    def visit(self, n):
        if n is self.old:
            return self.new
        return self.generic_visit(n)


def flip_compare(fn):
    out = []
    for n in ast.walk(fn):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            if type(n.ops[0]) in FLIP and not has(n, ast.Call):
                def go(n=n):
                    n.left, n.comparators = n.comparators[0], [n.left]
                    n.ops = [FLIP[type(n.ops[0])]()]
                out.append(go)
            if type(n.ops[0]) in NEGATE:
                def go2(n=n):
                    new = ast.UnaryOp(ast.Not(), ast.Compare(n.left, [NEGATE[type(n.ops[0])]()], n.comparators))
                    Replace(n, new).visit(fn)
                out.append(go2)
        if isinstance(n, ast.Compare) and len(n.ops) == 2:
            def go3(n=n):
                new = ast.BoolOp(ast.And(), [ast.Compare(n.left, [n.ops[0]], [n.comparators[0]]),
                                             ast.Compare(n.comparators[0], [n.ops[1]], [n.comparators[1]])])
                Replace(n, new).visit(fn)
            out.append(go3)
    return out


def de_morgan(fn):
    out = []
    for n in ast.walk(fn):
        if isinstance(n, ast.BoolOp):
            def go(n=n):
                op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
                new = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in n.values]))
                Replace(n, new).visit(fn)
            # only where the truth value is what counts
            out.append((n, go))
    tests = set()
    for n in ast.walk(fn):
        if isinstance(n, (ast.If, ast.While, ast.IfExp, ast.Assert)):
            tests.add(n.test)
    return [g for n, g in out if n in tests]


def nested_if(fn):
    out = []
    for n in ast.walk(fn):
        if isinstance(n, ast.If) and not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
            def go(n=n):
                rest = n.test.values[1:]
                inner = ast.If(rest[0] if len(rest) == 1 else ast.BoolOp(ast.And(), rest), n.body, [])
                n.test = n.test.values[0]
                n.body = [inner]
            out.append(go)
        if isinstance(n, ast.If) and not n.orelse and len(n.body) == 1 and isinstance(n.body[0], ast.If) and \
                not n.body[0].orelse:
            def go2(n=n):
                n.test = ast.BoolOp(ast.And(), [n.test, n.body[0].test])
                n.body = n.body[0].body
            out.append(go2)
    return out


def ternary(fn):
    out = []
    for _, _, b in blocks(fn):
        for k, s in enumerate(b):
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp):
                def go(b=b, k=k, s=s):
                    v = s.value
                    b[k] = ast.If(v.test, [ast.Assign(copy.deepcopy(s.targets), v.body)],
                                  [ast.Assign(copy.deepcopy(s.targets), v.orelse)])
                out.append(go)
            if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and \
                    isinstance(s.body[0], ast.Assign) and isinstance(s.orelse[0], ast.Assign) and \
                    ast.dump(s.body[0].targets[0]) == ast.dump(s.orelse[0].targets[0]):
                def go2(b=b, k=k, s=s):
                    b[k] = ast.Assign(s.body[0].targets, ast.IfExp(s.test, s.body[0].value, s.orelse[0].value))
                out.append(go2)
            if isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
                def go3(b=b, k=k, s=s):
                    b[k:k + 1] = [ast.If(s.value.test, [ast.Return(s.value.body)], []), ast.Return(s.value.orelse)]
                out.append(go3)
    return out


def temps(fn):
    'hoist a sub-expression into a temporary'
    out = []
    for _, _, b in blocks(fn):
        for k, s in enumerate(b):
            if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.Return, ast.Assert)) or isinstance(s, ast.If):
                root = s.value if not isinstance(s, (ast.If, ast.Assert)) else s.test
                if root is None or has(root, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp,
                                       ast.NamedExpr):
                    continue
                if isinstance(root, ast.Call):
                    args = root.args
                    for a in args:
                        if isinstance(a, (ast.Constant, ast.Name, ast.Starred)):
                            continue
                        # evaluation order: only if nothing before has effects
                        if any(has(q, ast.Call) for q in args[:args.index(a)]) or has(root.func, ast.Call):
                            continue

                        def go(b=b, k=k, root=root, a=a):
                            root.args[root.args.index(a)] = ast.Name('tmp_h', ast.Load())
                            b.insert(k, ast.Assign([ast.Name('tmp_h', ast.Store())], a))
                        out.append(go)
                if not isinstance(root, (ast.Constant, ast.Name)) and not isinstance(s, ast.Expr):
                    if isinstance(s, ast.AugAssign) and has(root, ast.Call):
                        continue

                    def go2(b=b, k=k, s=s, root=root):
                        nm = ast.Name('tmp_w', ast.Load())
                        if isinstance(s, (ast.If, ast.Assert)):
                            s.test = nm
                        else:
                            s.value = nm
                        b.insert(k, ast.Assign([ast.Name('tmp_w', ast.Store())], root))
                    out.append(go2)
                if isinstance(root, ast.BinOp) and not has(root, ast.Call):
                    def go3(b=b, k=k, root=root):
                        b.insert(k, ast.Assign([ast.Name('tmp_b', ast.Store())], root.right))
                        root.right = ast.Name('tmp_b', ast.Load())
                    out.append(go3)
    return out


def inline_temp(fn):
    out = []
    if nested_defs(fn):
        return out
    for _, _, b in blocks(fn):
        for k, s in enumerate(b[:-1]):
            if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
                nm = s.targets[0].id
                uses = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id == nm and x is not s.targets[0]]
                nxt = b[k + 1]
                if len(uses) == 1 and isinstance(uses[0].ctx, ast.Load) and \
                        isinstance(nxt, (ast.Assign, ast.Expr, ast.Return)) and any(x is uses[0] for x in ast.walk(nxt)) \
                        and not has(nxt, ast.ListComp, ast.GeneratorExp, ast.Lambda):
                    if has(s.value, ast.Call) and has(nxt.value, ast.Call) and not (
                            isinstance(nxt.value, ast.Call) and not any(
                                has(q, ast.Call) for q in nxt.value.args + [w.value for w in nxt.value.keywords] +
                                [nxt.value.func])):
                        continue

                    def go(b=b, k=k, s=s, u=uses[0]):
                        Replace(u, s.value).visit(b[k + 1])
                        del b[k]
                    out.append(go)
    return out


PURE = (ast.Name, ast.Attribute, ast.Constant, ast.BinOp, ast.Compare, ast.Subscript, ast.List, ast.Tuple, ast.UnaryOp,
        ast.BoolOp, ast.IfExp, ast.expr_context, ast.operator, ast.cmpop, ast.unaryop, ast.boolop)


def pure(n):
    return all(isinstance(x, PURE) or isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and
               x.func.id in ('len', 'range', 'min', 'max', 'int', 'float', 'abs', 'str') for x in ast.walk(n))


def reorder(fn):
    out = []
    for _, _, b in blocks(fn):
        for k in range(len(b) - 1):
            s, q = b[k], b[k + 1]
            if isinstance(s, ast.Assign) and isinstance(q, ast.Assign) and \
                    all(isinstance(x, ast.Name) for x in s.targets + q.targets) and (pure(s.value) or pure(q.value)) and \
                    not names_in(s, ast.Store) & names_in(q) and not names_in(q, ast.Store) & names_in(s):
                other = q if pure(s.value) else s
                mine = s if pure(s.value) else q
                if not pure(other.value) and has(mine.value, ast.Attribute, ast.Subscript):
                    continue
                if not pure(other.value) and names_in(mine.value) & names_in(other.value):
                    continue

                def go(b=b, k=k):
                    b[k], b[k + 1] = b[k + 1], b[k]
                out.append(go)
            if isinstance(s, ast.Assign) and isinstance(q, ast.Assign) and \
                    all(isinstance(x, ast.Attribute) for x in s.targets + q.targets) and \
                    isinstance(s.value, (ast.Constant, ast.Name)) and isinstance(q.value, (ast.Constant, ast.Name)) and \
                    s.targets[0].attr != q.targets[0].attr:
                def go2(b=b, k=k):
                    b[k], b[k + 1] = b[k + 1], b[k]
                out.append(go2)
    return out


def aug(fn):
    out = []
    for _, _, b in blocks(fn):
        for k, s in enumerate(b):
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.value, ast.Constant):
                def go(b=b, k=k, s=s):
                    b[k] = ast.Assign([s.target], ast.BinOp(ast.Name(s.target.id, ast.Load()), s.op, s.value))
                out.append(go)
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Attribute) and \
                    isinstance(s.value, ast.Constant):
                def go2(b=b, k=k, s=s):
                    ld = copy.deepcopy(s.target)
                    ld.ctx = ast.Load()
                    b[k] = ast.Assign([s.target], ast.BinOp(s.value, s.op, ld) if isinstance(s.op, ast.Add) else
                                      ast.BinOp(ld, s.op, s.value))
                out.append(go2)
            if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.BinOp) and \
                    isinstance(s.value.left, ast.Name) and s.value.left.id == s.targets[0].id and \
                    isinstance(s.value.right, ast.Constant):
                def go3(b=b, k=k, s=s):
                    b[k] = ast.AugAssign(s.targets[0], s.value.op, s.value.right)
                out.append(go3)
    return out


def alias(fn):
    'a local name for an attribute chain that is never assigned in the function'
    out = []
    if nested_defs(fn) or not fn.args.args:
        return out
    stored = {x.attr for x in ast.walk(fn) if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del))}
    counts = {}
    for x in ast.walk(fn):
        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and \
                x.value.id == 'self' and x.attr in ('lpi', 'mode', 'settings', 'ha', 'core', 'dims', 'aggdag', 'names',
                                                    'op_list', 'parent_ops', 'a_csr', 'bbox_sizes', 'b_csr'):
            counts.setdefault(x.attr, []).append(x)
    for a, xs in counts.items():
        if a in stored or fn.name == '__init__':
            continue
        # calls might rebind the attribute: only for functions that make no method calls on self
        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and
               isinstance(x.func.value, ast.Name) and x.func.value.id == 'self' for x in ast.walk(fn)):
            continue

        def go(a=a, xs=xs):
            for x in xs:
                Replace(x, ast.Name('al_' + a, ast.Load())).visit(fn)
            k = 1 if fn.body and isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
            fn.body[k:k] = ast.parse('al_%s = self.%s' % (a, a)).body
        out.append(go)
    return out


def ret_temp(fn):
    'single exit: return value collected in a variable (only for if/else at the end)'
    out = []
    for _, _, b in blocks(fn):
        for k, s in enumerate(b):
            if isinstance(s, ast.If) and len(s.body) == 1 and isinstance(s.body[0], ast.Return) and k == len(b) - 2 and \
                    isinstance(b[k + 1], ast.Return) and not s.orelse and s.body[0].value is not None and \
                    b[k + 1].value is not None:
                def go(b=b, k=k, s=s):
                    x = ast.Name('rv_x', ast.Store())
                    b[k:] = [ast.If(s.test, [ast.Assign([x], s.body[0].value)], [ast.Assign([x], b[k + 1].value)]),
                             ast.Return(ast.Name('rv_x', ast.Load()))]
                out.append(go)
    return out


def noop(fn):
    def go():
        k = 1 if len(fn.body) > 1 and isinstance(fn.body[0], ast.Expr) else 0
        fn.body[k:k] = ast.parse('_unused = None').body
    def go2():
        k = 1 if len(fn.body) > 1 and isinstance(fn.body[0], ast.Expr) else 0
        fn.body[k:k] = ast.parse('if False:\n    pass').body
    return [go, go2]


def while_true(fn):
    out = []
    for n in ast.walk(fn):
        if isinstance(n, ast.While) and not n.orelse and not isinstance(n.test, ast.Constant):
            def go(n=n):
                n.body.insert(0, ast.If(ast.UnaryOp(ast.Not(), n.test), [ast.Break()], []))
                n.test = ast.Constant(True)
            out.append(go)
    return out


def split_elif(fn):
    'if a: A elif b: B  ->  if a: A ; if not a and b: B   when A does not change a (names only, no calls in a)'
    out = []
    for _, _, b in blocks(fn):
        for k, s in enumerate(b):
            if isinstance(s, ast.If) and len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If) and \
                    not has(s.test, ast.Call, ast.Attribute, ast.Subscript) and \
                    not names_in(s.test) & names_in(ast.Module(s.body, []), ast.Store):
                def go(b=b, k=k, s=s):
                    q = s.orelse[0]
                    s.orelse = []
                    b[k + 1:k + 1] = [ast.If(ast.UnaryOp(ast.Not(), copy.deepcopy(s.test)), [q], [])]
                out.append(go)
    return out


def extract(fn, cls=None):
    'move a block of statements into a new function (returned separately)'
    out = []
    if nested_defs(fn) or has(fn, ast.Global, ast.Nonlocal, ast.Yield):
        return out
    args = [a.arg for a in fn.args.args + fn.args.kwonlyargs]
    for owner, field, b in blocks(fn):
        for size in (1, 2, 3, 4):
            for k in range(0, len(b) - size + 1):
                seg = b[k:k + size]
                m = ast.Module(seg, [])
                if has(m, ast.Return, ast.Break, ast.Continue, ast.Lambda):
                    continue
                if isinstance(seg[0], ast.Expr) and isinstance(seg[0].value, ast.Constant):
                    continue
                if size == 1 and isinstance(seg[0], (ast.Pass, ast.Assert, ast.Raise, ast.Import, ast.ImportFrom)):
                    continue
                if has(m, ast.Import, ast.ImportFrom):
                    continue
                stores = names_in(m, ast.Store)
                comp = set()
                for x in ast.walk(m):
                    if isinstance(x, ast.comprehension):
                        comp |= names_in(x.target)
                stores -= comp
                locs = (local_names(fn) | set(args))
                reads = (names_in(m, ast.Load) | {x.target.id for x in ast.walk(m) if isinstance(x, ast.AugAssign) and
                                                  isinstance(x.target, ast.Name)}) & locs - comp
                # results needed later: anything stored and loaded outside the segment
                inside = {id(x) for x in ast.walk(m)}
                later = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and id(x) not in inside and
                         isinstance(x.ctx, ast.Load) or isinstance(x, ast.AugAssign) and False}
                later |= {x.target.id for x in ast.walk(fn) if isinstance(x, ast.AugAssign) and
                          isinstance(x.target, ast.Name) and id(x) not in inside}
                res = sorted(stores & later)
                # a conditional store must not lose the previous value: pass it in, if it is surely defined before
                first = {}
                uncond = set()
                for s in seg:
                    if isinstance(s, ast.Assign):
                        for tg in s.targets:
                            uncond |= names_in(tg, ast.Store)
                for r in res:
                    if r not in uncond:
                        reads.add(r)
                # names read must be defined before: those first assigned inside are not parameters
                order = []
                for s in seg:
                    if isinstance(s, ast.Assign):
                        rd = names_in(s.value)
                        order.append((rd | {x.id for tg in s.targets for x in ast.walk(tg)
                                            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)},
                                      names_in(ast.Module([s], []), ast.Store)))
                    else:
                        order.append((names_in(s) | set(), set()))
                need, defd = set(), set()
                for rd, df in order:
                    need |= {x for x in rd if x not in defd}
                    defd |= df
                reads = {r for r in reads if r in need or r in res and r not in uncond}
                # loop variables first stored inside
                for x in ast.walk(m):
                    if isinstance(x, ast.For):
                        for y in names_in(x.target):
                            outside_store = any(isinstance(z, ast.Name) and z.id == y and isinstance(z.ctx, ast.Store) and
                                                id(z) not in inside for z in ast.walk(fn)) or y in args
                            if not outside_store:
                                reads.discard(y)
                for y in list(reads):
                    outside_store = any(isinstance(z, ast.Name) and z.id == y and isinstance(z.ctx, ast.Store) and
                                        id(z) not in inside for z in ast.walk(fn)) or y in args
                    if not outside_store:
                        reads.discard(y)
                        if y in res and y not in uncond:
                            reads = None
                            break
                if reads is None:
                    continue
                params = sorted(reads)
                res = sorted(set(res) | (stores & reads))

                def go(b=b, k=k, size=size, seg=seg, params=params, res=res):
                    nm = '_extracted_part'
                    body = list(seg)
                    if res:
                        val = ast.Name(res[0], ast.Load()) if len(res) == 1 else \
                            ast.Tuple([ast.Name(r, ast.Load()) for r in res], ast.Load())
                        body.append(ast.Return(val))
                    new = ast.parse('def %s(%s):\n    pass' % (nm, ', '.join(params))).body[0]
                    new.body = body
                    call = ast.Call(ast.Name(nm, ast.Load()), [ast.Name(p, ast.Load()) for p in params], [])
                    if res:
                        tg = ast.Name(res[0], ast.Store()) if len(res) == 1 else \
                            ast.Tuple([ast.Name(r, ast.Store()) for r in res], ast.Store())
                        st = ast.Assign([tg], call)
                    else:
                        st = ast.Expr(call)
                    b[k:k + size] = [st]
                    fn._new_helper = new
                out.append(go)
    return out


def kwargs(fn):
    return []


def fstring(fn):
    out = []
    specs = {id(v.format_spec) for v in ast.walk(fn) if isinstance(v, ast.FormattedValue)}
    for n in ast.walk(fn):
        if isinstance(n, ast.JoinedStr) and id(n) not in specs and not any(isinstance(v, ast.FormattedValue) and (v.format_spec or
                                                                                       v.conversion != -1)
                                                    for v in n.values):
            def go(n=n):
                f = ''.join(v.value.replace('{', '{{').replace('}', '}}') if isinstance(v, ast.Constant) else '{}'
                            for v in n.values)
                new = ast.Call(ast.Attribute(ast.Constant(f), 'format', ast.Load()),
                               [v.value for v in n.values if isinstance(v, ast.FormattedValue)], [])
                Replace(n, new).visit(fn)
            out.append(go)
            def go2(n=n):
                parts = [v if isinstance(v, ast.Constant) else
                         ast.Call(ast.Name('str', ast.Load()), [v.value], []) for v in n.values]
                e = parts[0]
                for p in parts[1:]:
                    e = ast.BinOp(e, ast.Add(), p)
                Replace(n, e).visit(fn)
            out.append(go2)
    return out


def any_to_loop(fn):
    out = []
    for _, _, b in blocks(fn):
        for k, s in enumerate(b):
            root = s.value if isinstance(s, (ast.Assign, ast.Return)) else s.test if isinstance(s, (ast.If, ast.Assert)) \
                else None
            if isinstance(root, ast.Call) and isinstance(root.func, ast.Name) and root.func.id in ('any', 'all') and \
                    root.args and isinstance(root.args[0], (ast.GeneratorExp, ast.ListComp)):
                def go(b=b, k=k, s=s, root=root):
                    g = root.args[0]
                    is_any = root.func.id == 'any'
                    test = g.elt if is_any else ast.UnaryOp(ast.Not(), g.elt)
                    inner = [ast.If(test, [ast.Assign([ast.Name('flag_x', ast.Store())], ast.Constant(is_any)),
                                           ast.Break()], [])]
                    gen = g.generators[0]
                    for i in reversed(gen.ifs):
                        inner = [ast.If(i, inner, [])]
                    loop = ast.For(gen.target, gen.iter, inner, [])
                    nm = ast.Name('flag_x', ast.Load())
                    if isinstance(s, (ast.Assign, ast.Return)):
                        s.value = nm
                    else:
                        s.test = nm
                    b[k:k] = [ast.Assign([ast.Name('flag_x', ast.Store())], ast.Constant(not is_any)), loop]
                out.append(go)
    return out


def index_tuple(fn):
    'a, b = f() -> t = f(); a = t[0]; b = t[1]'
    out = []
    for _, _, b in blocks(fn):
        for k, s in enumerate(b):
            if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Call) and \
                    all(isinstance(e, ast.Name) for e in s.targets[0].elts):
                def go(b=b, k=k, s=s):
                    new = [ast.Assign([ast.Name('tup_x', ast.Store())], s.value)]
                    for i, e in enumerate(s.targets[0].elts):
                        new.append(ast.Assign([e], ast.Subscript(ast.Name('tup_x', ast.Load()), ast.Constant(i),
                                                                 ast.Load())))
                    b[k:k + 1] = new
                out.append(go)
    return out


def assign_chain(fn):
    'a.b.c(x) -> o = a.b ; o.c(x)'
    out = []
    for _, _, b in blocks(fn):
        for k, s in enumerate(b):
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and \
                    isinstance(s.value.func.value, ast.Attribute):
                def go(b=b, k=k, s=s):
                    b.insert(k, ast.Assign([ast.Name('obj_x', ast.Store())], s.value.func.value))
                    s.value.func.value = ast.Name('obj_x', ast.Load())
                out.append(go)
    return out


TRANSFORMS = {f.__name__: f for f in (
    rename, if_invert, else_after_return, guard_clause, range_to_while, foreach_to_index, comp_to_loop, loop_to_comp,
    flip_compare, de_morgan, nested_if, ternary, temps, inline_temp, reorder, aug, alias, ret_temp, noop, while_true,
    split_elif, extract, fstring, any_to_loop, index_tuple, assign_chain)}


def find_func(tree, qual):
    a, b = qual.split('.')[0], qual.split('.')[-1]
    for s in tree.body:
        if isinstance(s, ast.ClassDef) and s.name == a:
            for q in s.body:
                if isinstance(q, ast.FunctionDef) and q.name == b:
                    return q
    for s in tree.body:
        if isinstance(s, ast.FunctionDef) and s.name == b:
            return s
    return None


def variants(src, qual, which):
    'yields (label, new source)'
    tree = ast.parse(src)
    for name in which:
        tr = TRANSFORMS[name]
        n = len(tr(find_func(copy.deepcopy(tree), qual)))
        for k in range(n):
            t2 = copy.deepcopy(tree)
            fn = find_func(t2, qual)
            sites = tr(fn)
            sites[k]()
            h = getattr(fn, '_new_helper', None)
            if h is not None:
                t2.body.append(h)
            ast.fix_missing_locations(t2)
            yield '%s#%d' % (name, k), ast.unparse(t2)


def work(job):
    mod, qual, which = job
    from hsa.driver import Session
    global _S
    try:
        s = _S
    except NameError:
        s = _S = Session('/repo', budget=6)
    base = s.tgt
    src = base.modules[mod].source
    out = []
    n = 0
    if s.check(qual).verdict != 'SAME':
        return 0, [('BASE', qual, '', '', '')]
    for label, new in variants(src, qual, which):
        n += 1
        s2 = Session.__new__(Session)
        s2.__dict__.update(s.__dict__)
        s2.tgt = base.variant(mod, new)
        s2.cache = {k: v for k, v in s.cache.items() if k[0] == 'ref'}
        try:
            r = s2.check(qual)
        except Exception as e:
            import traceback
            out.append(('CRASH', qual, label, traceback.format_exc()[-600:], new))
            continue
        if r.verdict != 'SAME':
            msg = r.why + '\n'.join('   %s %s' % (d.verdict, d.msg[:1500]) for d in r.diffs[:2])
            fn = find_func(ast.parse(new), qual)
            out.append((r.verdict, qual, label, msg, ast.unparse(fn)))
        # keep the cache of reference summaries
        for k, v in s2.cache.items():
            if k[0] == 'ref':
                s.cache[k] = v
    return n, out


def main():
    from multiprocessing import Pool
    from hsa.program import Program
    args = sys.argv[1:]
    only = [a for a in args if '.' in a]
    which = [a for a in args if a in TRANSFORMS] or list(TRANSFORMS)
    p = Program('/repo')
    jobs = [(f.module.name, q, [w]) for q, f in p.funcs.items() if f.module.name not in ('_version', 'check_trace')
            and (not only or q in only) for w in which]
    tot, bad = 0, 0
    und = 0
    stats = {}
    with Pool(8) as pool:
        for n, res in pool.imap_unordered(work, jobs, chunksize=4):
            tot += n
            for v, q, label, msg, code in res:
                if v == 'BASE':
                    continue
                k = (label.split('#')[0], v)
                stats[k] = stats.get(k, 0) + 1
                if v == 'UNDET':
                    und += 1
                    print('==== UNDET', q, label, msg[:150].replace('\n', ' '))
                else:
                    bad += 1
                    print('==== %s %s %s\n%s\n--- code\n%s' % (v, q, label, msg, code))
    print('variants', tot, 'alarms', bad, 'undetermined', und)
    for k in sorted(stats):
        print('  ', k, stats[k])


if __name__ == '__main__':
    main()
