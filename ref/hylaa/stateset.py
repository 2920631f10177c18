import math
import numpy as np
import scipy as sp
from matplotlib.path import Path
from hylaa import lpplot, lputil
from hylaa.hybrid_automaton import Mode
from hylaa.timerutil import Timers
from hylaa.util import Freezable
from hylaa.lpinstance import LpInstance
from hylaa.settings import HylaaSettings

class StateSet(Freezable):

    def __init__(self, lpi, mode, cur_steps_since_start=None, aggdag_op_list=None, is_concrete=True):
        assert isinstance(lpi, LpInstance)
        assert isinstance(mode, Mode)
        self.mode = mode
        self.lpi = lpi
        self.cur_step_in_mode = 0
        if cur_steps_since_start is not None:
            assert len(cur_steps_since_start) == 2
            self.cur_steps_since_start = cur_steps_since_start.copy()
        else:
            self.cur_steps_since_start = [0, 0]
        self.is_concrete = is_concrete
        if aggdag_op_list is None:
            aggdag_op_list = [None]
        assert isinstance(aggdag_op_list, (list, tuple))
        self.aggdag_op_list = aggdag_op_list
        self.invariant_constraint_rows = [None] * len(self.mode.inv_list)
        self.basis_matrix = None if mode.a_csr is None else np.identity(mode.a_csr.shape[0])
        if mode.a_csr is not None and (not np.allclose(lputil.get_basis_matrix(lpi), self.basis_matrix)):
            raise RuntimeError('lpi basis matrix in StateSet constructor was not the identity. ' + 'Did you construct the lpi using the lputil.from_*() functions?')
        self.input_effects_list = None if mode.b_csr is None else []
        self.aggstring = None
        self.lgg_beta = None
        self._verts = None
        self.assigned_plot_dim = False
        self.xdim = None
        self.ydim = None
        self.step_to_paths = {}
        self.freeze_attrs()

    def __str__(self):
        return f'[StateSet, mode:{self.mode.name} @ step {self.cur_step_in_mode}, {self.get_full_aggstring()}]'

    def get_full_aggstring(self):
        rv = None
        if self.aggdag_op_list[0] is None:
            assert self.aggstring == 'full'
            rv = 'init'
        else:
            op = self.aggdag_op_list[0]
            parent = op.parent_node.stateset
            parent_aggstring = parent.get_full_aggstring()
            tindex = parent.mode.transitions.index(op.transition)
            rv = parent_aggstring + f':t{tindex}_' + self.aggstring
        return rv

    def step(self, step_in_mode=None):
        if step_in_mode is None:
            step_in_mode = self.cur_step_in_mode + 1
        num_steps = step_in_mode - self.cur_step_in_mode
        assert num_steps >= 0, 'step() called with negative num steps (mode: ' + f'{self.mode.name}, cur_step_in_mode: {self.cur_step_in_mode}, requested_step: {step_in_mode})'
        if num_steps > 0:
            self.basis_matrix, input_effects_matrix = self.mode.time_elapse.get_basis_matrix(step_in_mode)
            lputil.set_basis_matrix(self.lpi, self.basis_matrix)
            if input_effects_matrix is not None:
                for step in range(self.cur_step_in_mode + 1, step_in_mode):
                    _, ie_mat = self.mode.time_elapse.get_basis_matrix(step)
                    self.input_effects_list.append(ie_mat)
                    lputil.add_input_effects_matrix(self.lpi, ie_mat, self.mode, self.lgg_beta)
                self.input_effects_list.append(input_effects_matrix)
                lputil.add_input_effects_matrix(self.lpi, input_effects_matrix, self.mode, self.lgg_beta)
            self.cur_step_in_mode += num_steps
            self.cur_steps_since_start[0] += num_steps
            self.cur_steps_since_start[1] += num_steps
            self._verts = None

    def verts(self, plotman, subplot=0):
        if self._verts is None:
            self._verts = [None] * plotman.num_subplots
        if self._verts[subplot] is None:
            min_time = self.cur_steps_since_start[0] * plotman.core.settings.step_size
            max_time = self.cur_steps_since_start[1] * plotman.core.settings.step_size
            time_interval = (min_time, max_time)
            if not self.assigned_plot_dim:
                self.assigned_plot_dim = True
                self.xdim = []
                self.ydim = []
                for i in range(plotman.num_subplots):
                    self.xdim.append(plotman.settings.xdim_dir[i])
                    self.ydim.append(plotman.settings.ydim_dir[i])
                    if isinstance(self.xdim[i], dict):
                        assert self.mode.name in self.xdim[i], 'mode {} not in xdim plot direction dict'.format(self.mode.name)
                        self.xdim[i] = self.xdim[i][self.mode.name]
                    if isinstance(self.ydim[i], dict):
                        assert self.mode.name in self.ydim[i], 'mode {} not in ydim plot direction dict'.format(self.mode.name)
                        self.ydim[i] = self.ydim[i][self.mode.name]
            self._verts[subplot] = lpplot.get_verts(self.lpi, xdim=self.xdim[subplot], ydim=self.ydim[subplot], plot_vecs=plotman.plot_vec_list[subplot], cur_time=time_interval)
            assert self._verts[subplot] is not None, 'verts() was unsat'
        return self._verts[subplot]

    def set_plot_path(self, subplot, path_list, path_index):
        step = self.cur_step_in_mode
        if step not in self.step_to_paths:
            l = []
            self.step_to_paths[step] = l
        else:
            l = self.step_to_paths[step]
        while len(l) <= subplot:
            l.append([])
        l[subplot] = (path_list, path_index)

    def del_plot_path(self, step):
        rv = []
        if not step in self.step_to_paths:
            rv = None
        else:
            l = self.step_to_paths.pop(step)
            codes = [Path.MOVETO, Path.CLOSEPOLY]
            verts = [(0, 0), (0, 0)]
            for pair in l:
                if not pair:
                    rv.append(None)
                    continue
                path_list, index = pair
                rv.append(path_list[index].vertices)
                path_list[index] = Path(verts, codes)
        return rv

    def apply_approx_chull(self):
        lpi_one_step = self.lpi.clone()
        bm, ie_mat = self.mode.time_elapse.get_basis_matrix(1)
        lputil.set_basis_matrix(lpi_one_step, bm)
        if ie_mat is not None:
            lputil.add_input_effects_matrix(lpi_one_step, ie_mat, self.mode)
        lpi_list = [self.lpi, lpi_one_step]
        self.lpi = lputil.aggregate_chull(lpi_list, self.mode)

    def apply_approx_lgg(self):
        has_inputs = self.mode.b_csr is not None
        a_norm = sp.sparse.linalg.norm(self.mode.a_csr, ord=np.inf)
        lpi_one_step = self.lpi.clone()
        bm, _ = self.mode.time_elapse.get_basis_matrix(1)
        lputil.set_basis_matrix(lpi_one_step, bm)
        mode = self.mode
        tau = mode.time_elapse.step_size
        r_x0 = lputil.compute_radius_inf(self.lpi)
        if has_inputs:
            v_set = lputil.from_input_constraints(mode.b_csr, mode.u_constraints_csc, mode.u_constraints_rhs, mode)
            r_v = lputil.compute_radius_inf(v_set)
            lputil.scale_with_bm(v_set, tau)
            msum = lputil.minkowski_sum([lpi_one_step, v_set], mode)
        else:
            r_v = 0
            msum = lpi_one_step
        tol = 1e-07
        if a_norm < tol:
            print(f'Warning: norm of dynamics A matrix was small ({a_norm}), using alpha = 0 and ' + 'beta = 0 in LGG approximation model')
            alpha = 0
        else:
            alpha = (math.exp(tau * a_norm) - 1 - tau * a_norm) * (r_x0 + r_v / a_norm)
        if alpha != 0:
            lputil.bloat(msum, alpha)
        self.lpi = lputil.aggregate_chull([self.lpi, msum], mode)
        if a_norm > tol and has_inputs:
            self.lgg_beta = (math.exp(tau * a_norm) - 1 - tau * a_norm) * (r_v / a_norm)
            assert self.lgg_beta > tol, f'lgg approx model beta was too close to zero: {self.lgg_beta}'
            assert self.lgg_beta < 100000.0, f'lgg approx model beta was too large (use a smaller step): {self.lgg_beta}'
            self.lpi.set_minimize_direction([-1] * self.lpi.dims)
            self.mode.time_elapse.use_lgg_approx()

    def apply_approx_model(self, approx_model):
        assert self.cur_step_in_mode == 0, 'approximation model should be applied before any continuous post operations'
        assert self.mode.time_elapse is not None, 'init_time_elapse() must be called before apply_approx_model()'
        if approx_model == HylaaSettings.APPROX_CHULL:
            self.apply_approx_chull()
        elif approx_model == HylaaSettings.APPROX_LGG:
            self.apply_approx_lgg()
        elif approx_model != HylaaSettings.APPROX_NONE:
            raise RuntimeError(f'Unknown approx_model from settings: {approx_model}')
        if approx_model != HylaaSettings.APPROX_NONE:
            self.invariant_constraint_rows = [None] * len(self.mode.inv_list)
            self._verts = None
