'''
Propositional structure of conditions: atoms, mutually exclusive groups of atoms, canonical form.
'''

import itertools

from hsa import terms as t


def atoms_of(g, acc):
    if g.op in ('and', 'or', 'not'):
        for a in g.args:
            atoms_of(a, acc)
    elif g.op == 'ite':
        for a in g.args:
            atoms_of(a, acc)
    elif g.op != 'bool':
        acc.add(g)
    return acc


def const_part(p):
    items = dict(t._poly_items(p))
    c = items.pop((), 0)
    return t.mkpoly(list(items.items())), c


def groups(atoms):
    '''group atoms into independent variables; each group is (list of assignments: atom -> bool)'''
    bysgn = {}
    byeq = {}
    rest = []
    for a in atoms:
        if a.op == 'sgn':
            q, c = const_part(a.args[0])
            # orientation: leading coefficient positive is already canonical
            bysgn.setdefault(q, []).append((a, c))
        elif a.op == 'eq' and (a.args[0].op in t.DISTINCT_CONST or a.args[1].op in t.DISTINCT_CONST):
            k, x = a.args if a.args[0].op in t.DISTINCT_CONST else (a.args[1], a.args[0])
            byeq.setdefault(x, []).append((a, k))
        elif a.op in ('isnone', 'truthy', 'isinst'):
            byeq.setdefault(a.args[0], []).append((a, a.op if a.op != 'isinst' else ('isinst', a.args[1])))
        else:
            rest.append(a)
    out = []
    for q, lst in bysgn.items():
        cs = sorted(set(c for _, c in lst))
        integer = t.is_int(q)
        points = []
        # q + c compared with 0: thresholds at -c
        ths = sorted(-c for c in cs)
        points.append(ths[0] - 1)
        for k, th in enumerate(ths):
            points.append(th)
            if k + 1 < len(ths):
                if not integer or ths[k + 1] - th > 1:
                    points.append((th + ths[k + 1]) / 2 if not integer else th + 1)
        points.append(ths[-1] + 1)
        if integer and (q.op == 'len' or q.op == 'idx'):
            points = [p for p in points if p >= 0]
        asg = []
        for pt in points:
            d = {}
            for a, c in lst:
                v = pt + c
                d[a] = ((v > 0) - (v < 0)) in a.args[1]
            if d not in asg:
                asg.append(d)
        out.append(asg)
    for x, lst in byeq.items():
        consts = [k for _, k in lst if isinstance(k, t.T)]
        kinds = [k for _, k in lst if not isinstance(k, t.T)]
        asg = []

        def add(d):
            if d not in asg:
                asg.append(d)
        for k in consts:
            d = {}
            for a, kk in lst:
                if isinstance(kk, t.T):
                    d[a] = kk is k
                elif kk == 'isnone':
                    d[a] = False
                elif kk == 'truthy':
                    tv = t.truthy(k)
                    d[a] = tv is TRUE
                else:
                    d[a] = kk[1] == 'str' and k.op == 'str'
            add(d)
        # none
        if 'isnone' in kinds:
            add({a: (kk == 'isnone') for a, kk in lst})
        # other values: free choice of truthiness and of classes
        inst = [a for a, kk in lst if isinstance(kk, tuple)]
        tr = [a for a, kk in lst if kk == 'truthy']
        for bits in itertools.product((False, True), repeat=len(inst) + len(tr)):
            d = {a: False for a, _ in lst}
            for a, b in zip(inst + tr, bits):
                d[a] = b
            held = [a.args[1] for a in inst if d[a]]
            if any(t.disjoint_classes(p, q) for p, q in itertools.combinations(held, 2)):
                continue
            add(d)
        out.append(asg)
    for a in rest:
        out.append([{a: True}, {a: False}])
    return out


def evalg(g, env):
    if g.op == 'bool':
        return g.args[0]
    if g.op == 'and':
        return all(evalg(a, env) for a in g.args)
    if g.op == 'or':
        return any(evalg(a, env) for a in g.args)
    if g.op == 'not':
        return not evalg(g.args[0], env)
    if g.op == 'ite':
        return evalg(g.args[1], env) if evalg(g.args[0], env) else evalg(g.args[2], env)
    return env[g]


MAX_ATOMS = 9
MAX_CASES = 3000
_memo = {}


def boolcanon(g):
    'one representative per propositional function (decision diagram over atom groups in interning order)'
    if g in _memo:
        return _memo[g]
    atoms = set()
    atoms_of(g, atoms)
    r = g
    if 2 <= len(atoms) <= MAX_ATOMS:
        gr = groups(sorted(atoms, key=lambda a: a.uid))
        n = 1
        for a in gr:
            n *= len(a)
        if n <= MAX_CASES:
            gr.sort(key=lambda asg: min(a.uid for a in asg[0]))
            r = _diagram(g, gr, 0, {}, {})
    _memo[g] = r
    _memo[r] = r
    return r


def _diagram(g, gr, k, env, memo):
    if k == len(gr):
        return t.boolc(evalg(g, env))
    branches = {}
    for d in gr[k]:
        e2 = dict(env)
        e2.update(d)
        sub = _diagram(g, gr, k + 1, e2, memo)
        branches.setdefault(sub, []).append(d)
    if len(branches) == 1:
        return next(iter(branches))
    out = t.FALSE
    for sub, ds in branches.items():
        if sub is t.FALSE:
            continue
        out = t.bor(out, t.band(_cases(ds, gr[k]), sub))
    return out


def _cases(ds, full):
    'condition selecting the assignments ds among all those of the group'
    atoms = sorted(full[0], key=lambda a: a.uid)
    # a single literal, if one separates them
    for a in atoms:
        for v in (True, False):
            if all(d[a] is v for d in ds) and all(d[a] is not v for d in full if d not in ds):
                return a if v else t.bnot(a)
    out = t.FALSE
    for d in ds:
        # shortest conjunction identifying d
        lits = []
        rest = [x for x in full if x != d]
        for a in atoms:
            if any(x[a] != d[a] for x in rest):
                lits.append(a if d[a] else t.bnot(a))
                rest = [x for x in rest if x[a] == d[a]]
        out = t.bor(out, t.band(*lits))
    return out


def leaves(x, cond, out):
    if x.op == 'ite':
        c, a, b = x.args
        leaves(a, t.band(cond, c), out)
        leaves(b, t.band(cond, t.bnot(c)), out)
    else:
        out[x] = t.bor(out.get(x, t.FALSE), cond)
    return out


def itecanon(x):
    'one representative per function from conditions to leaves'
    if x in _memo:
        return _memo[x]
    lv = leaves(x, t.TRUE, {})
    r = x
    atoms = set()
    for g in lv.values():
        atoms_of(g, atoms)
    if len(lv) <= 8 and len(atoms) <= MAX_ATOMS:
        items = [(v, boolcanon(g)) for v, g in lv.items()]
        items = [(v, g) for v, g in items if g is not t.FALSE]
        items.sort(key=lambda vg: vg[0].uid)
        r = items[-1][0]
        for v, g in reversed(items[:-1]):
            r = t.ite(g, v, r)
    _memo[x] = r
    _memo[r] = r
    return r


def implies(c, g):
    'does c imply g propositionally? (True / False / None when too large)'
    if c is g or g is t.TRUE:
        return True
    atoms = set()
    atoms_of(c, atoms)
    atoms_of(g, atoms)
    if len(atoms) > MAX_ATOMS:
        return None
    gr = groups(sorted(atoms, key=lambda a: a.uid))
    n = 1
    for a in gr:
        n *= len(a)
    if n > MAX_CASES:
        return None
    for combo in itertools.product(*gr):
        env = {}
        for d in combo:
            env.update(d)
        if evalg(c, env) and not evalg(g, env):
            return False
    return True


_under = {}


def under(c, v):
    'simplify the gates and the propositional top of v under the assumption c'
    if c.op == 'bool' or v.op not in ('ite', 'and', 'or', 'not', 'sgn', 'eq', 'isnone', 'truthy', 'boolcall', 'exists',
                                      'isinst'):
        return v
    key = (c, v)
    r = _under.get(key)
    if r is not None:
        return r
    if v.op == 'ite':
        g = v.args[0]
        if implies(c, g):
            r = under(c, v.args[1])
        elif implies(c, t.bnot(g)):
            r = under(c, v.args[2])
        else:
            r = t.ite(g, under(c, v.args[1]), under(c, v.args[2]))
    elif implies(c, v):
        r = t.TRUE
    elif implies(c, t.bnot(v)):
        r = t.FALSE
    else:
        r = v
    _under[key] = r
    return r
