'''
Development tool (never run by a check): small behaviour-changing edits of every function, to see which of them the
comparison with the reference models detects.   usage: mutate.py OUT [qualified names] [mutation names]
'''
import ast
import copy
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from refactors import find_func  # noqa


def blocks(fn):
    for n in ast.walk(fn):
        for f in ('body', 'orelse'):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield b


def is_noise(s):
    if isinstance(s, ast.Expr):
        v = s.value
        if isinstance(v, ast.Constant):
            return True
        if isinstance(v, ast.Call):
            d = ast.unparse(v.func)
            if d == 'print' or d.startswith('Timers.') or '.print_' in d or d.startswith('print_'):
                return True
    return isinstance(s, (ast.Assert, ast.Pass))


def delete_stmt(fn):
    out = []
    for b in blocks(fn):
        for k, s in enumerate(b):
            if is_noise(s) or isinstance(s, (ast.FunctionDef,)):
                continue
            def go(b=b, k=k):
                b[k] = ast.Pass()
            out.append(go)
    return out


def swap_stmts(fn):
    out = []
    for b in blocks(fn):
        for k in range(len(b) - 1):
            if is_noise(b[k]) or is_noise(b[k + 1]) or isinstance(b[k + 1], (ast.Return, ast.Break, ast.Continue)):
                continue
            def go(b=b, k=k):
                b[k], b[k + 1] = b[k + 1], b[k]
            out.append(go)
    return out


CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}


def walk(fn):
    todo = [fn]
    while todo:
        n = todo.pop()
        if isinstance(n, ast.stmt) and is_noise(n):
            continue
        yield n
        todo.extend(ast.iter_child_nodes(n))


def compare_op(fn):
    out = []
    for n in walk(fn):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            def go(n=n):
                n.ops[0] = CMP[type(n.ops[0])]()
            out.append(go)
    return out


def negate_if(fn):
    out = []
    for n in walk(fn):
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            def go(n=n):
                n.test = ast.UnaryOp(ast.Not(), n.test)
            out.append(go)
    return out


def const_if(fn):
    out = []
    for n in walk(fn):
        if isinstance(n, (ast.If, ast.IfExp)):
            for v in (True, False):
                def go(n=n, v=v):
                    n.test = ast.Constant(v)
                out.append(go)
    return out


def boolop(fn):
    out = []
    for n in walk(fn):
        if isinstance(n, ast.BoolOp):
            def go(n=n):
                n.op = ast.And() if isinstance(n.op, ast.Or) else ast.Or()
            out.append(go)
            for k in range(len(n.values)):
                def go2(n=n, k=k):
                    del n.values[k]
                    if len(n.values) == 1:
                        n.values.append(n.values[0])
                out.append(go2)
    return out


def const(fn):
    out = []
    for n in walk(fn):
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            def go(n=n):
                n.value = n.value + 1
            out.append(go)
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            def go(n=n):
                n.value = not n.value
            out.append(go)
        elif isinstance(n, ast.Constant) and n.value is None:
            def go(n=n):
                n.value = 0
            out.append(go)
    return out


ARITH = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}


def arith(fn):
    out = []
    for n in walk(fn):
        if isinstance(n, (ast.BinOp, ast.AugAssign)) and type(n.op) in ARITH:
            def go(n=n):
                n.op = ARITH[type(n.op)]()
            out.append(go)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            def go(n=n):
                n.op = ast.UAdd()
            out.append(go)
    return out


def args(fn):
    out = []
    for n in walk(fn):
        if isinstance(n, ast.Call):
            if len(n.args) >= 2:
                for k in range(len(n.args) - 1):
                    def go(n=n, k=k):
                        n.args[k], n.args[k + 1] = n.args[k + 1], n.args[k]
                    out.append(go)
            for k in range(len(n.keywords)):
                def go2(n=n, k=k):
                    del n.keywords[k]
                out.append(go2)
    return out


def drop_copy(fn):
    out = []
    for n in walk(fn):
        for f, v in ast.iter_fields(n):
            vs = v if isinstance(v, list) else [v]
            for k, c in enumerate(vs):
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ('copy', 'clone') and not c.args:
                    def go(n=n, f=f, v=v, k=k, c=c):
                        if isinstance(v, list):
                            v[k] = c.func.value
                        else:
                            setattr(n, f, c.func.value)
                    out.append(go)
    return out


def jumps(fn):
    out = []
    for b in blocks(fn):
        for k, s in enumerate(b):
            if isinstance(s, ast.Break):
                def go(b=b, k=k):
                    b[k] = ast.Continue()
                out.append(go)
            if isinstance(s, ast.Continue):
                def go(b=b, k=k):
                    b[k] = ast.Break()
                out.append(go)
    return out


def names(fn):
    'replace a read of a local variable by another local variable'
    loc = sorted(set(n.id for n in walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)) |
                 set(a.arg for a in fn.args.args if a.arg != 'self'))
    out = []
    i = 0
    for n in walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in loc and len(loc) > 1:
            i += 1
            if i % 3:
                continue
            other = loc[(loc.index(n.id) + 1) % len(loc)]
            def go(n=n, other=other):
                n.id = other
            out.append(go)
    return out


MUT = {f.__name__: f for f in (delete_stmt, swap_stmts, compare_op, negate_if, const_if, boolop, const, arith, args,
                               drop_copy, jumps, names)}


def work(job):
    mod, qual, which = job
    from hsa.driver import Session
    global _S
    try:
        s = _S
    except NameError:
        s = _S = Session('/repo', budget=6)
    base = s.tgt
    src = base.modules[mod].source
    tree = ast.parse(src)
    out = []
    for name in which:
        tr = MUT[name]
        n = len(tr(find_func(copy.deepcopy(tree), qual)))
        for k in range(n):
            t2 = copy.deepcopy(tree)
            fn = find_func(t2, qual)
            before = ast.unparse(fn).split('\n')
            tr(fn)[k]()
            ast.fix_missing_locations(t2)
            try:
                new = ast.unparse(t2)
            except Exception:
                continue
            after = ast.unparse(fn).split('\n')
            import difflib
            d = [x for x in difflib.unified_diff(before, after, lineterm='', n=0) if not x.startswith(('---', '+++', '@@'))]
            if not d:
                continue
            s2 = Session.__new__(Session)
            s2.__dict__.update(s.__dict__)
            try:
                s2.tgt = base.variant(mod, new)
            except SyntaxError:
                continue
            s2.cache = {k: v for k, v in s.cache.items() if k[0] == 'ref'}
            try:
                r = s2.check(qual)
                v, why = r.verdict, r.why or '; '.join(x.msg for x in r.diffs)[:300]
            except Exception as e:
                v, why = 'CRASH', repr(e)
            out.append((v, qual, '%s#%d' % (name, k), d, why))
            for kk, vv in s2.cache.items():
                if kk[0] == 'ref':
                    s.cache[kk] = vv
    return out


def main():
    from multiprocessing import Pool
    from hsa.program import Program
    a = sys.argv[2:]
    only = [x for x in a if '.' in x]
    which = [x for x in a if x in MUT] or list(MUT)
    p = Program('/repo', 'hylaa')
    jobs = [(f.module.name, q, [w]) for q, f in p.funcs.items()
            if f.module.name not in ('_version', 'check_trace', 'simulation', 'guard_opt_data')
            and (not only or q in only) for w in which]
    stats = {}
    with Pool(8) as pool, open(sys.argv[1], 'w') as fo:
        for res in pool.imap_unordered(work, jobs, chunksize=2):
            for v, q, label, d, why in res:
                k = (label.split('#')[0], v)
                stats[k] = stats.get(k, 0) + 1
                if v != 'DIFF':
                    fo.write('==== %s %s %s\n%s\n   %s\n' % (v, q, label, '\n'.join(d), why[:200] if v != 'SAME' else ''))
    for k in sorted(stats):
        print(k, stats[k])


if __name__ == '__main__':
    main()
