import math
import numpy as np
import scipy as sp
from scipy.spatial import ConvexHull
from hylaa.timerutil import Timers

def _get_orthonormal_rank(vecs, tol=1e-07):
    _, s, v = np.linalg.svd(vecs)
    index = 0
    while index < len(s) and s[index] > tol:
        index += 1
    if index == len(v):
        rv_vec = None
    else:
        rv_vec = v[index]
    return (rv_vec, index)

def _get_rank(vecs, tol=1e-07):
    return _get_orthonormal_rank(vecs, tol=tol)[1]

def _find_two_points(dims, supp_point_func):
    pts = []
    for d in range(dims):
        vec = np.array([-1 if i == d else 0 for i in range(dims)], dtype=float)
        p1 = supp_point_func(vec)
        assert len(p1) == dims, f'support fuction returned {len(p1)}-dimensional point, expected {dims}-d'
        pts = [p1]
        vec = np.array([1 if i == d else 0 for i in range(dims)], dtype=float)
        p2 = supp_point_func(vec)
        if not np.allclose(p1, p2):
            pts = [p1, p2]
            break
    return pts

def _find_init_simplex(dims, supp_point_func):
    init_simplex = _find_two_points(dims, supp_point_func)
    if len(init_simplex) == 2:
        init_vec = init_simplex[1] - init_simplex[0]
        spanning_dirs = [init_vec]
        degenerate_dirs = []
        vecs = [init_vec]
        for _ in range(dims - 1):
            new_dir, rank = _get_orthonormal_rank(vecs)
            pt = supp_point_func(new_dir)
            vecs.append(pt - init_simplex[0])
            if _get_rank(vecs) > rank:
                init_simplex.append(pt)
                spanning_dirs.append(vecs[-1])
                continue
            vecs = vecs[0:-1]
            pt = supp_point_func(-1 * new_dir)
            vecs.append(pt - init_simplex[0])
            if _get_rank(vecs) > rank:
                init_simplex.append(pt)
                spanning_dirs.append(vecs[-1])
                continue
            vecs = vecs[0:-1]
            vecs.append(new_dir)
            degenerate_dirs.append(new_dir)
    return init_simplex

def get_verts(dims, supp_point_func, epsilon=1e-07):
    init_simplex = _find_init_simplex(dims, supp_point_func)
    if len(init_simplex) < 3:
        return init_simplex
    rv, _ = _v_h_rep_given_init_simplex(init_simplex, supp_point_func, epsilon=epsilon)
    return rv

def _v_h_rep_given_init_simplex(init_simplex, supp_point_func, epsilon=1e-07):
    new_pts = init_simplex
    verts = []
    iteration = 0
    max_error = None
    while new_pts:
        iteration += 1
        first_new_index = len(verts)
        verts += new_pts
        new_pts = []
        max_error = 0
        hull = ConvexHull(verts)
        for i, simplex in enumerate(hull.simplices):
            is_new = False
            for index in simplex:
                if index >= first_new_index:
                    is_new = True
                    break
            if not is_new:
                continue
            normal = hull.equations[i, :-1]
            rhs = -1 * hull.equations[i, -1]
            supporting_pt = supp_point_func(normal)
            error = np.dot(supporting_pt, normal) - rhs
            max_error = max(max_error, error)
            if error <= -0.0001:
                print(f'Kamenev Plot warning: supporting point was inside facet? error was {error}')
            if error >= epsilon:
                already_added = False
                for pt in new_pts:
                    if np.allclose(pt, supporting_pt):
                        already_added = True
                        break
                if not already_added:
                    new_pts.append(supporting_pt)
    return (np.array(verts, dtype=float), hull.equations)
