'''
Development tool, run once with the interpreter the tests use (/opt/venv/bin/python tools/mkext.py): writes
data/external_names.json, the names that the libraries used by hylaa define.  Checks only read that file.
'''
import builtins
import importlib
import inspect
import io
import json
import os
import re

MODS = '''numpy numpy.linalg numpy.random numpy.fft scipy scipy.linalg scipy.sparse scipy.sparse.linalg scipy.spatial
scipy.integrate scipy.optimize scipy.special swiglpk matplotlib matplotlib.pyplot matplotlib.path matplotlib.collections
matplotlib.animation matplotlib.colors matplotlib.lines matplotlib.patches matplotlib.widgets matplotlib.figure
matplotlib.axes matplotlib.legend matplotlib.axis matplotlib.text matplotlib.ticker matplotlib.transforms matplotlib.backend_bases sympy
sympy.parsing.sympy_parser sympy.parsing termcolor graphviz math time sys os os.path subprocess re random functools
itertools collections operator copy typing errno ctypes json shutil tempfile io warnings traceback random string
abc contextlib enum dataclasses heapq bisect numbers fractions decimal types logging pathlib'''.split()

mods, attrs = {}, set()


def add_class(c):
    try:
        attrs.update(dir(c))
    except Exception:
        pass
    if inspect.isclass(c):
        for b in c.__mro__:
            try:
                attrs.update(re.findall(r'\bself\.(\w+)\b', inspect.getsource(b)))
            except Exception:
                pass


for n in MODS:
    try:
        m = importlib.import_module(n)
    except Exception:
        continue
    mods[n] = sorted(set(dir(m)))
    for k in dir(m):
        try:
            v = getattr(m, k)
        except Exception:
            continue
        if inspect.isclass(v):
            add_class(v)
        elif not inspect.ismodule(v) and not callable(v):
            add_class(v)
for k in dir(builtins):
    v = getattr(builtins, k)
    if inspect.isclass(v):
        add_class(v)


def gen():
    yield 1


async def co():
    pass


for v in (1, 1.0, 'a', b'a', [], (), {}, set(), gen(), gen, iter([]), type, add_class.__code__, io.StringIO(), range(1), slice(1),
          {}.items(), add_class, print):
    add_class(v)
import numpy as np
from scipy import sparse, spatial
for v in (np.array([1.]), np.float64(1), np.array([1]).flags, sparse.csr_matrix([[1.]]), sparse.csc_matrix([[1.]]), sparse.lil_matrix([[1.]]),
          np.finfo(float), spatial.ConvexHull([[0, 0], [0, 1], [1, 0]])):
    add_class(v)
    attrs.update(getattr(v, '__dict__', {}))
try:
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    fig, ax = plt.subplots()
    l, = ax.plot([1, 2])
    for v in (fig, ax, l, fig.canvas, fig.canvas.manager, ax.xaxis, ax.yaxis, fig.patch, ax.spines, ax.transData, matplotlib.rcParams, ax.text(0, 0, 'a')):
        add_class(v)
        attrs.update(getattr(v, '__dict__', {}))
    for e in matplotlib.backend_bases.__dict__.values():
        if inspect.isclass(e):
            src = inspect.getsource(e)
            attrs.update(re.findall(r'self\.(\w+) = ', src))
except Exception as ex:
    print(ex)
# loaded submodules (np.linalg, sp.sparse) are names of their packages
import sys
out = {'builtins': sorted(dir(builtins)), 'modules': mods, 'attributes': sorted(attrs)}
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data', 'external_names.json')
with open(p, 'w') as fh:
    json.dump(out, fh, separators=(',', ':'))
print(len(attrs), len(mods), os.path.getsize(p))
