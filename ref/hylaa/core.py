import numpy as np
from termcolor import cprint
from hylaa.settings import HylaaSettings, PlotSettings
from hylaa.plotutil import PlotManager
from hylaa.aggdag import AggDag
from hylaa.result import HylaaResult, make_counterexample
from hylaa.stateset import StateSet
from hylaa.hybrid_automaton import HybridAutomaton, was_tt_taken
from hylaa.timerutil import Timers
from hylaa.util import Freezable
from hylaa.lpinstance import LpInstance
from hylaa import lputil
from hylaa.result import PlotData

class Core(Freezable):

    def __init__(self, ha, hylaa_settings):
        assert isinstance(hylaa_settings, HylaaSettings)
        assert isinstance(ha, HybridAutomaton)
        self.hybrid_automaton = ha
        self.settings = hylaa_settings
        self.plotman = PlotManager(self)
        self.aggdag = AggDag(hylaa_settings, self)
        self.max_steps_remaining = None
        self.took_tt_transition = False
        self.result = None
        self.continuous_steps = 0
        self.doing_simulation = False
        self.sim_waiting_list = None
        self.sim_states = None
        self.sim_basis_matrix = None
        self.sim_should_try_guards = None
        self.sim_took_transition = None
        np.random.seed(hylaa_settings.random_seed)
        LpInstance.print_normal = self.print_normal
        LpInstance.print_verbose = self.print_verbose
        LpInstance.print_debug = self.print_debug
        self.freeze_attrs()

    def print_normal(self, msg):
        if self.settings.stdout >= HylaaSettings.STDOUT_NORMAL:
            cprint(msg, self.settings.stdout_colors[HylaaSettings.STDOUT_NORMAL])

    def print_verbose(self, msg):
        if self.settings.stdout >= HylaaSettings.STDOUT_VERBOSE:
            cprint(msg, self.settings.stdout_colors[HylaaSettings.STDOUT_VERBOSE])

    def print_debug(self, msg):
        if self.settings.stdout >= HylaaSettings.STDOUT_DEBUG:
            cprint(msg, self.settings.stdout_colors[HylaaSettings.STDOUT_DEBUG])

    def is_finished(self):
        finished = False
        if self.doing_simulation:
            finished = not self.sim_states and (not self.sim_waiting_list)
        elif self.settings.stop_on_aggregated_error and (self.result.has_aggregated_error or self.result.has_concrete_error):
            finished = True
        elif self.settings.stop_on_concrete_error and self.result.has_concrete_error:
            finished = True
        else:
            finished = self.aggdag.get_cur_state() is None and (not self.aggdag.waiting_list) and (not self.aggdag.deagg_man.doing_replay())
        return finished

    def error_reached(self, state, t, t_lpi):
        step_num = state.cur_steps_since_start
        times = [round(self.settings.step_size * step_num[0], 12), round(self.settings.step_size * step_num[1], 12)]
        if step_num[0] == step_num[1]:
            step_num = step_num[0]
            times = times[0]
        if not self.result.has_aggregated_error and (not state.is_concrete):
            self.result.has_aggregated_error = True
            self.print_normal(f'Unsafe Mode (aggregated) Reached at Step: {step_num} / {self.settings.num_steps}, ' + f'time {times}')
        if not self.result.has_concrete_error and state.is_concrete:
            self.result.has_concrete_error = True
            self.print_normal(f'Unsafe Mode (concrete) Reached at Step: {step_num} / ' + f'{self.settings.num_steps}, time {times}')
            if self.settings.make_counterexample and (not self.result.counterexample) and (self.settings.approx_model == HylaaSettings.APPROX_NONE):
                self.print_verbose('Reached concrete error state; making concrete counter-example')
                self.result.counterexample = make_counterexample(self.hybrid_automaton, state, t, t_lpi)

    def check_guards(self):
        cur_state = self.aggdag.get_cur_state()
        for t in cur_state.mode.transitions:
            t_lpi = t.get_guard_intersection(cur_state.lpi)
            if t_lpi:
                if t.to_mode.is_error():
                    self.error_reached(cur_state, t, t_lpi)
                    if self.settings.stop_on_aggregated_error:
                        break
                    if cur_state.is_concrete and self.settings.stop_on_concrete_error:
                        break
                self.aggdag.add_transition_successor(t, t_lpi)
                self.print_verbose(f'Took transition {t} at steps {cur_state.cur_steps_since_start}')
                if self.settings.optimize_tt_transitions and t.time_triggered:
                    if was_tt_taken(cur_state.lpi, t, self.settings.step_size, self.settings.num_steps):
                        self.print_verbose('Transition was time-triggered, finished with current state analysis')
                        self.took_tt_transition = True
                    else:
                        self.print_verbose('Transition was NOT taken as time-triggered, due to runtime checks')

    def intersect_invariant(self, state, add_ops_to_aggdag=True):
        is_feasible = True
        for invariant_index, lc in enumerate(state.mode.inv_list):
            if lputil.check_intersection(state.lpi, lc.negate()):
                old_row = state.invariant_constraint_rows[invariant_index]
                vec = lc.csr.toarray()[0]
                rhs = lc.rhs
                if old_row is None:
                    row = lputil.add_init_constraint(state.lpi, vec, rhs, state.basis_matrix, state.input_effects_list)
                    state.invariant_constraint_rows[invariant_index] = row
                    is_stronger = False
                else:
                    row, is_stronger = lputil.try_replace_init_constraint(state.lpi, old_row, vec, rhs, state.basis_matrix, state.input_effects_list)
                    state.invariant_constraint_rows[invariant_index] = row
                if add_ops_to_aggdag:
                    self.aggdag.add_invariant_op(state.cur_step_in_mode, invariant_index, is_stronger)
                if not state.lpi.is_feasible():
                    is_feasible = False
                    break
        return is_feasible

    def print_current_step_time(self):
        step_num = self.aggdag.get_cur_state().cur_steps_since_start
        times = [round(self.settings.step_size * step_num[0], 12), round(self.settings.step_size * step_num[1], 12)]
        if step_num[0] == step_num[1]:
            step_num = step_num[0]
            times = times[0]
        self.print_verbose('Step From {} / {} ({})'.format(step_num, self.settings.num_steps, times))

    def do_step_continuous_post(self):
        cur_state = self.aggdag.get_cur_state()
        self.print_current_step_time()
        if not self.is_finished():
            if cur_state.cur_steps_since_start[0] >= self.settings.num_steps:
                self.print_normal('State reached computation time bound')
                self.aggdag.cur_state_left_invariant(reached_time_bound=True)
            elif self.took_tt_transition:
                self.print_normal('State reached a time-triggered transition')
                self.took_tt_transition = False
                self.aggdag.cur_state_left_invariant()
            else:
                still_feasible = self.intersect_invariant(cur_state)
                if not still_feasible:
                    self.print_normal('State left the invariant after {} steps'.format(cur_state.cur_step_in_mode))
                    self.aggdag.cur_state_left_invariant()
                else:
                    cur_state.step()
                    self.check_guards()
                    if cur_state.mode.a_csr.nnz == 0 and cur_state.mode.b_csr is None and self.settings.skip_zero_dynamics_modes:
                        self.print_normal("State in mode '{}' with zero dynamics, skipping remaining steps".format(cur_state.mode.name))
                        self.aggdag.cur_state_left_invariant()
        if self.is_finished():
            self.print_normal('Computation finished after {} continuous-post steps.'.format(self.continuous_steps))

    def do_step_pop(self):
        self.took_tt_transition = False
        self.plotman.state_popped()
        self.aggdag.print_waiting_list()
        self.result.last_cur_state = cur_state = self.aggdag.pop_waiting_list()
        self.print_normal("Removed state in mode '{}' at step {} ({} in mode) (Waiting list has {} left)".format(cur_state.mode.name, cur_state.cur_steps_since_start, cur_state.cur_step_in_mode, len(self.aggdag.waiting_list)))
        if cur_state.mode.a_csr is None:
            self.print_normal("Mode '{}' was an error mode; skipping.".format(cur_state.mode.name))
            self.aggdag.cur_state_left_invariant()
        else:
            self.max_steps_remaining = self.settings.num_steps - cur_state.cur_steps_since_start[0]
            still_feasible = self.intersect_invariant(cur_state)
            if not still_feasible:
                self.print_normal("Continuous state was outside of the mode's invariant; skipping.")
                self.aggdag.cur_state_left_invariant()
            else:
                cur_state.apply_approx_model(self.settings.approx_model)
        self.print_verbose('Pausing due to step_pop()')
        self.plotman.pause()

    def do_step(self):
        if self.doing_simulation:
            self.do_step_sim()
        else:
            self.do_step_reach()

    def do_step_reach(self):
        if not self.is_finished():
            if self.aggdag.get_cur_state():
                self.do_step_continuous_post()
                self.continuous_steps += 1
            elif self.aggdag.deagg_man.doing_replay():
                self.aggdag.deagg_man.do_step_replay()
            else:
                deagg_node = self.settings.aggstrat.get_deagg_node(self.aggdag)
                if deagg_node:
                    self.aggdag.deagg_man.begin_replay(deagg_node)
                    self.aggdag.deagg_man.do_step_replay()
                else:
                    self.do_step_pop()
                    if self.settings.process_urgent_guards and self.aggdag.get_cur_state() is not None:
                        self.check_guards()

    def setup_ha(self, ha):
        for mode in ha.modes.values():
            mode.init_time_elapse(self.settings.step_size)
        if self.settings.optimize_tt_transitions:
            ha.detect_tt_transitions(self.settings.step_size, self.settings.num_steps, self.print_debug)
        if self.settings.do_guard_strengthening:
            ha.do_guard_strengthening()
        ha.check_transitions()

    def setup(self, init_state_list):
        assert init_state_list and isinstance(init_state_list, list), 'expected list of initial states'
        for state in init_state_list:
            assert isinstance(state, StateSet), 'initial states should be a list of StateSet objects'
        self.result = HylaaResult()
        self.setup_ha(init_state_list[0].mode.ha)
        self.plotman.create_plot()
        assert not self.aggdag.waiting_list, 'waiting list was not empty'
        for state in init_state_list:
            if not state.lpi.is_feasible():
                self.print_normal('Removed an infeasible initial set in mode {}'.format(state.mode.name))
                continue
            still_feasible = self.intersect_invariant(state, add_ops_to_aggdag=False)
            if still_feasible:
                state.invariant_constraint_rows = [None] * len(state.mode.inv_list)
                self.aggdag.add_init_state(state)
            else:
                self.print_normal('Removed an infeasible initial set after invariant intersection in mode {}'.format(state.mode.name))
        if not self.aggdag.waiting_list:
            raise RuntimeError('Error: No feasible initial states were defined.')

    def run_to_completion(self):
        if self.settings.plot.store_plot_result and self.result.plot_data is None:
            self.result.plot_data = PlotData(self.plotman.num_subplots)
        self.plotman.run_to_completion(compute_plot=self.settings.plot.store_plot_result)

    def run(self, init_state_list):
        Timers.reset()
        self.setup(init_state_list)
        if self.settings.plot.plot_mode == PlotSettings.PLOT_INTERACTIVE:
            self.print_verbose(f'Setting store_plot_result to true since PLOT_INTERACTIVE has click listener')
            self.settings.plot.store_plot_result = True
        if self.settings.plot.store_plot_result:
            self.result.plot_data = PlotData(self.plotman.num_subplots)
        if self.settings.plot.plot_mode == PlotSettings.PLOT_NONE:
            self.run_to_completion()
        else:
            self.plotman.compute_and_animate()
        if self.settings.stdout >= HylaaSettings.STDOUT_VERBOSE:
            Timers.print_stats()
        if self.result.has_concrete_error:
            self.print_normal('Result: Error modes are reachable (found counter-example).\n')
        elif self.result.has_aggregated_error:
            self.print_normal('Result: System is safe, although error modes were reachable when aggregation ' + '(overapproximation) was used.\n')
        else:
            self.print_normal('Result: System is safe. Error modes are NOT reachable.\n')
        self.print_normal('Total Runtime: {:.2f} sec'.format(Timers.top_level_timer.total_secs))
        self.result.top_level_timer = Timers.top_level_timer
        Timers.reset()
        return self.result

    def simulate(self, init_mode, box, num_sims):
        if isinstance(num_sims, int):
            num_sims = [0, num_sims]
        ha = init_mode.ha
        self.result = HylaaResult()
        self.setup_ha(ha)
        self.plotman.create_plot()
        assert self.settings.plot.plot_mode != PlotSettings.PLOT_NONE, 'simulate called with PLOT_NONE'
        dims = len(box)
        assert dims == init_mode.a_csr.shape[0]
        self.doing_simulation = True
        self.sim_waiting_list = []
        for sim_index in range(num_sims[1]):
            rand_array = np.random.rand(dims)
            if sim_index < num_sims[0]:
                continue
            pt = [box[i][0] + rand_array[i] * (box[i][1] - box[i][0]) for i in range(dims)]
            self.sim_waiting_list.append([init_mode, np.array(pt, dtype=float), 0])
        self.plotman.compute_and_animate()
        return self.result

    def sim_pop_waiting_list(self):
        min_time_mode = self.settings.aggstrat.get_simulation_pop_mode(self.sim_waiting_list)
        new_waiting_list = []
        self.sim_states = []
        for item in self.sim_waiting_list:
            mode, _, _ = item
            if mode is min_time_mode:
                self.sim_states.append(item)
            else:
                new_waiting_list.append(item)
        self.sim_waiting_list = new_waiting_list
        assert min_time_mode is not None
        assert min_time_mode.time_elapse is not None, f'time elapse was None for mode {min_time_mode.name}'
        self.sim_basis_matrix, ie_mat = min_time_mode.time_elapse.get_basis_matrix(1)
        assert ie_mat is None, 'simulation with inputs unimplemented'
        self.print_verbose(f'Popped {len(self.sim_states)} off waiting list ({len(self.sim_waiting_list)} remaining)')

    def do_step_sim(self):
        if not self.sim_states:
            if self.sim_waiting_list:
                self.sim_pop_waiting_list()
                self.sim_should_try_guards = self.settings.process_urgent_guards
                self.sim_took_transition = [False] * len(self.sim_states)
                self.plotman.pause()
                self.print_verbose('Pausing due to sim pop()')
        else:
            finished = True
            for i, obj in enumerate(self.sim_states):
                if obj is None:
                    continue
                mode, pt, steps = obj
                if steps == self.settings.num_steps:
                    self.print_verbose(f'Sim #{i} reached the time bound')
                    self.sim_states[i] = None
                    continue
                if self.sim_took_transition[i]:
                    self.sim_states[i] = None
                    continue
                if self.sim_should_try_guards:
                    for transition in mode.transitions:
                        if transition.is_guard_true_for_point(pt):
                            post_pt, post_mode = transition.apply_reset_for_point(pt)
                            if not post_mode.is_error():
                                self.sim_waiting_list.append([post_mode, post_pt, steps])
                            self.sim_took_transition[i] = True
                            obj[1] = post_pt
                            self.print_verbose(f'Sim #{i} took transition {transition}')
                            break
                if self.sim_took_transition[i]:
                    finished = False
                    continue
                if not mode.point_in_invariant(pt):
                    self.print_verbose(f'Invariant became False for Sim #{i}')
                    self.sim_states[i] = None
                    continue
                finished = False
                pt = np.dot(self.sim_basis_matrix, pt)
                obj[1] = pt
                obj[2] = steps + 1
            self.sim_should_try_guards = True
            if finished:
                self.plotman.commit_cur_sims()
                self.sim_states = None
