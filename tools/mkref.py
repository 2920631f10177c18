'''
Development tool (never run by a check): derive a first draft of the reference models in /verif/ref from a reviewed
tree.  Comments, docstrings, printing and timing calls are dropped; the result is reviewed and edited by hand.
usage: mkref.py REPO [module ...]
'''
import ast
import os
import sys


class Strip(ast.NodeTransformer):
    def body(self, stmts):
        out = []
        for s in stmts:
            if isinstance(s, ast.Expr):
                v = s.value
                if isinstance(v, ast.Constant):
                    continue
                if isinstance(v, ast.Call):
                    f = v.func
                    if isinstance(f, ast.Name) and f.id in ('print',) and False:
                        continue
                    if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == 'Timers' and \
                            f.attr in ('tic', 'toc'):
                        continue
            out.append(s)
        return out or [ast.Pass()]

    def generic_visit(self, node):
        super().generic_visit(node)
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(node, f, None)
            if isinstance(b, list) and b:
                nb = self.body(b)
                if f == 'orelse' and len(nb) == 1 and isinstance(nb[0], ast.Pass):
                    nb = []
                setattr(node, f, nb)
        return node


def main():
    root = sys.argv[1]
    only = sys.argv[2:]
    dst = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'ref', 'hylaa')
    src = os.path.join(root, 'hylaa')
    for fn in sorted(os.listdir(src)):
        if not fn.endswith('.py') or fn == '_version.py':
            continue
        if only and fn[:-3] not in only:
            continue
        with open(os.path.join(src, fn)) as f:
            tree = ast.parse(f.read())
        tree = Strip().visit(tree)
        ast.fix_missing_locations(tree)
        with open(os.path.join(dst, fn), 'w') as f:
            f.write(ast.unparse(tree) + '\n')


main()
