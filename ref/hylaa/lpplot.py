import math
import numpy as np
from scipy.spatial import ConvexHull
import hylaa.kamenev as kamenev
from hylaa.timerutil import Timers

def pt_to_plot_xy(pt, xdim=0, ydim=1, cur_time=0.0):
    x = y = float(cur_time)
    if isinstance(xdim, int):
        x = pt[xdim]
    elif xdim is not None:
        assert isinstance(xdim, np.ndarray)
        x = np.dot(pt, xdim)
    if isinstance(ydim, int):
        y = pt[ydim]
    elif ydim is not None:
        assert isinstance(ydim, np.ndarray)
        y = np.dot(pt, ydim)
    return (x, y)

def get_verts(lpi, xdim=0, ydim=1, plot_vecs=None, cur_time=0.0):
    tol = 1e-09
    if plot_vecs is None:
        plot_vecs = make_plot_vecs()
    if isinstance(cur_time, (float, int)):
        cur_time = [float(cur_time), float(cur_time)]
    if xdim is None and ydim is None:
        if abs(cur_time[0] - cur_time[1]) < tol:
            verts = [[cur_time[0], cur_time[0]]]
        else:
            verts = []
            verts.append([cur_time[0], cur_time[0]])
            verts.append([cur_time[0], cur_time[1]])
            verts.append([cur_time[1], cur_time[1]])
            verts.append([cur_time[1], cur_time[0]])
    elif xdim is None:
        if isinstance(ydim, int):
            ydim = np.array([1.0 if dim == ydim else 0.0 for dim in range(lpi.dims)], dtype=float)
        lpi.set_minimize_direction(ydim)
        res = lpi.minimize(columns=[lpi.cur_vars_offset + n for n in range(lpi.dims)])
        ymin = np.dot(ydim, res)
        lpi.set_minimize_direction(-1 * ydim)
        res = lpi.minimize(columns=[lpi.cur_vars_offset + n for n in range(lpi.dims)])
        ymax = np.dot(ydim, res)
        verts = [[cur_time[0], ymin]]
        if abs(ymin - ymax) > tol:
            verts.append([cur_time[0], ymax])
            if abs(cur_time[0] - cur_time[1]) > tol:
                verts.append([cur_time[1], ymax])
        if abs(cur_time[0] - cur_time[1]) > tol:
            verts.append([cur_time[1], ymin])
    elif ydim is None:
        if isinstance(xdim, int):
            xdim = np.array([1.0 if dim == xdim else 0.0 for dim in range(lpi.dims)], dtype=float)
        lpi.set_minimize_direction(xdim)
        res = lpi.minimize(columns=[lpi.cur_vars_offset + n for n in range(lpi.dims)])
        xmin = np.dot(xdim, res)
        lpi.set_minimize_direction(-1 * xdim)
        res = lpi.minimize(columns=[lpi.cur_vars_offset + n for n in range(lpi.dims)])
        xmax = np.dot(xdim, res)
        verts = [[xmin, cur_time[0]]]
        if abs(xmin - xmax) > tol:
            verts.append([xmax, cur_time[0]])
            if abs(cur_time[0] - cur_time[1]) > tol:
                verts.append([xmax, cur_time[1]])
        if abs(cur_time[0] - cur_time[1]) > tol:
            verts.append([xmin, cur_time[1]])
    else:
        bboxw = bbox_widths(lpi, xdim, ydim)
        epsilon = min(bboxw) / 1000.0
        dim_list = [xdim, ydim]
        dir_list = [_dim_to_direction(lpi, dim) for dim in dim_list]

        def supp_point_nd(vec):
            assert len(vec) == len(dim_list)
            d = np.zeros((lpi.dims,), dtype=float)
            for i, direction in enumerate(dir_list):
                d += -vec[i] * direction
            lpi.set_minimize_direction(d)
            res = lpi.minimize(columns=[lpi.cur_vars_offset + n for n in range(lpi.dims)])
            rv = []
            for direction in dir_list:
                rv.append(np.dot(direction, res))
            rv = np.array(rv, dtype=float)
            return rv
        verts = kamenev.get_verts(len(dim_list), supp_point_nd, epsilon=epsilon)
        if len(verts) > 2:
            hull = ConvexHull(verts)
            verts = [[verts[i, 0], verts[i, 1]] for i in hull.vertices]
    verts.append(verts[0])
    return verts

def _dim_to_direction(lpi, dim):
    if isinstance(dim, int):
        dim = np.array([1.0 if d == dim else 0.0 for d in range(lpi.dims)], dtype=float)
    return dim

def bbox_widths(lpi, xdim, ydim):
    rv = []
    cols = [lpi.cur_vars_offset + n for n in range(lpi.dims)]
    for dim in [xdim, ydim]:
        direction = _dim_to_direction(lpi, dim)
        min_val = np.dot(direction, lpi.minimize(direction_vec=direction, columns=cols))
        max_val = np.dot(direction, lpi.minimize(direction_vec=-1 * direction, columns=cols))
        dx = max_val - min_val
        if dx < 1e-05:
            dx = 1e-05
        rv.append(dx)
    return rv

def make_plot_vecs(num_angles=256, offset=0.0):
    plot_vecs = []
    for theta in np.linspace(0.0, 2.0 * math.pi, num_angles, endpoint=False):
        x = math.cos(theta + offset)
        y = math.sin(theta + offset)
        vec = np.array([x, y], dtype=float)
        plot_vecs.append(vec)
    return plot_vecs

def find_boundary_pts(lpi, xdim, ydim, plot_vecs, bboxw):
    rv = []
    assert len(plot_vecs) >= 2
    point = _minimize(lpi, xdim, ydim, plot_vecs[0], bboxw)
    rv.append(point.copy())
    third = len(plot_vecs) // 3
    point = _minimize(lpi, xdim, ydim, plot_vecs[third], bboxw)
    if not np.array_equal(point, rv[-1]):
        rv += _binary_search_boundaries(lpi, 0, third, rv[-1], point, xdim, ydim, plot_vecs, bboxw)
        rv.append(point.copy())
    point = _minimize(lpi, xdim, ydim, plot_vecs[2 * third], bboxw)
    if not np.array_equal(point, rv[-1]):
        rv += _binary_search_boundaries(lpi, third, 2 * third, rv[-1], point, xdim, ydim, plot_vecs, bboxw)
        rv.append(point.copy())
    point = _minimize(lpi, xdim, ydim, plot_vecs[-1], bboxw)
    if not np.array_equal(point, rv[-1]):
        rv += _binary_search_boundaries(lpi, 2 * third, len(plot_vecs) - 1, rv[-1], point, xdim, ydim, plot_vecs, bboxw)
        rv.append(point.copy())
    if len(rv) > 1 and np.array_equal(rv[0], rv[-1]):
        rv.pop()
    return rv

def _minimize(lpi, xdim, ydim, direction, bounding_box_widths):
    dims = 0
    assert not (xdim is None and ydim is None)
    if xdim is not None:
        dims = xdim + 1 if isinstance(xdim, int) else len(xdim)
    if ydim is not None:
        dims = max(dims, ydim + 1) if isinstance(ydim, int) else max(dims, len(ydim))
    if isinstance(xdim, int):
        xdim = np.array([1.0 if dim == xdim else 0.0 for dim in range(dims)], dtype=float)
    if isinstance(ydim, int):
        ydim = np.array([1.0 if dim == ydim else 0.0 for dim in range(dims)], dtype=float)
    optimize_direction = np.zeros(dims, dtype=float)
    if xdim is not None:
        optimize_direction += direction[0] * xdim / bounding_box_widths[0]
    if ydim is not None:
        optimize_direction += direction[1] * ydim / bounding_box_widths[1]
    lpi.set_minimize_direction(optimize_direction)
    res = lpi.minimize(columns=[lpi.cur_vars_offset + n for n in range(dims)])
    xcoord = 0 if xdim is None else np.dot(res, xdim)
    ycoord = 0 if ydim is None else np.dot(res, ydim)
    return np.array([xcoord, ycoord], dtype=float)

def _binary_search_boundaries(lpi, start, end, start_point, end_point, xdim, ydim, plot_vecs, bboxw):
    rv = []
    if start + 1 < end:
        mid = (start + end) // 2
        mid_point = _minimize(lpi, xdim, ydim, plot_vecs[mid], bboxw)
        not_start = not np.allclose(start_point, mid_point, atol=1e-06)
        not_end = not np.allclose(end_point, mid_point, atol=1e-06)
        if not_start:
            rv += _binary_search_boundaries(lpi, start, mid, start_point, mid_point, xdim, ydim, plot_vecs, bboxw)
        if not_start and not_end:
            rv.append(mid_point)
        if not_end:
            rv += _binary_search_boundaries(lpi, mid, end, mid_point, end_point, xdim, ydim, plot_vecs, bboxw)
    return rv
