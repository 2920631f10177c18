'''
The properties: text for properties.jsonl / MANIFEST.json, and what each check analyses.

functions: reference-compared functions (all observable effects unless options restrict them)
rules:     names of structural rules in hsa.rules
'''

LP = ['LpInstance.' + x for x in (
    'add_cols add_rows_with_types add_rows_less_equal add_rows_equal_zero set_constraints_csr '
    'set_constraints_swigvec_rows set_constraints_csc set_constraint_rhs').split()]

PROPS = []


def P(id_, title, statement, over, text, why, files, mechanism, functions=(), rules=(), observe=(), state=(),
      asserts=False, note='', technique=None):
    PROPS.append(dict(id=id_, title=title, statement=statement, over=over.split(), text=text, why=why,
                      files=files.split(), mechanism=mechanism, functions=list(functions), rules=list(rules),
                      observe=list(observe), state=list(state), asserts=asserts, note=note, technique=technique))


def Q(prefix, names):
    return [prefix + '.' + n for n in names.split()]


TESTS = 'the 64 tests run a handful of fixed, mostly two-dimensional models'

# ------------------------------------------------------------------ the LP layer

P('C01', 'Rows, columns and coefficients reach the linear program exactly as given',
  'Every row, column, bound and matrix entry handed to the linear-program wrapper is stored in the solver at exactly '
  'the requested zero-based position with exactly the given value and relation (<=, >= or ==). New columns are free, '
  'new rows start out without coefficients, row right-hand sides can be replaced without changing their relation, and '
  'nothing else in the program changes.',
  'inputs histories', 'all matrices (any sparsity, offsets, row types, sizes) and all sequences of construction calls',
  TESTS + '; index arithmetic between zero-based callers and the one-based solver is only sampled there',
  'hylaa/lpinstance.py', [('0-based to 1-based translation and SWIG array filling', 'LpInstance.set_constraints_csr / '
                           'set_constraints_csc / set_constraints_swigvec_rows'),
                          ('row and column creation', 'LpInstance.add_rows_* / add_cols')],
  LP + Q('LpInstance', '__init__ set_reach_vars reset_lp get_num_rows get_num_cols _create_bm_indices') +
  Q('SwigArray', 'as_double_array as_int_array _allocated'),
  [], ['glp_* solver calls'],
  note='the index passed to each solver call is compared as a polynomial over loop indices and array reads')

P('C02', 'Reading a linear program back returns exactly what it stores',
  'The constraint matrix, right-hand sides, row relations, column names and single rows read back from a linear '
  'program are exactly the stored ones, at zero-based positions, for every selection of rows and for every row '
  'relation. Reading does not change the program, and unsupported row kinds are refused instead of misreported.',
  'inputs histories', 'all linear programs and all row selections',
  TESTS + ' and read back few of them; no >= row is ever read back',
  'hylaa/lpinstance.py', [('row extraction', 'LpInstance.get_row / get_full_constraints / get_dense_constraints'),
                          ('bounds', 'LpInstance.get_rhs / get_types')],
  Q('LpInstance', 'get_types get_dense_constraints get_names get_rhs get_full_constraints get_row get_num_rows '
                  'get_num_cols get_iterations') + Q('SwigArray', 'as_double_array as_int_array _allocated'),
  [], ['values returned by the readers'])

P('C03', 'Copies of a linear program are complete and independent',
  'A copy of a linear program has the same rows, columns, bounds, coefficients, names and bookkeeping (dimensions, '
  'positions of the state, basis-matrix and input-effect blocks) as the original. Later changes to either one never '
  'show in the other, and each underlying solver object is released exactly once, by its owner.',
  'histories', 'all programs and all later sequences of changes to the copy or the original',
  'tests copy a few programs and never inspect every field or mutate both sides',
  'hylaa/lpinstance.py', [('field by field copy', 'LpInstance.clone'), ('ownership of the solver object',
                                                                       'LpInstance.__init__ / __del__')],
  Q('LpInstance', 'clone __init__ __del__ set_reach_vars'), [],
  ['every field of the wrapper'])

P('C04', 'Feasibility and optimisation results are reported honestly',
  'A linear program is reported feasible, and an optimum is returned, only when the solver says the solution is '
  'optimal or unbounded feasibility is acceptable for the question asked; infeasible programs are reported as such and '
  'solver failures are retried or raised, never turned into a result. The minimised objective is exactly the '
  'requested direction over the current state variables, with no coefficient left over from an earlier query, and the '
  'returned numbers are the values of exactly the requested columns.',
  'inputs histories', 'all programs, directions, column selections and all earlier queries on the same program',
  'tests solve well-conditioned programs; leftover objective coefficients and solver error codes are not exercised',
  'hylaa/lpinstance.py hylaa/lputil.py', [('simplex driver and retry', 'LpInstance.minimize'),
                                          ('status decoding', 'LpInstance._process_simplex_result'),
                                          ('objective', 'LpInstance.set_minimize_direction')],
  Q('LpInstance', 'minimize is_feasible set_minimize_direction _process_simplex_result reset_lp '
                  'get_simplex_error_string') +
  Q('lputil', 'is_feasible is_point_in_lpi check_intersection get_box_center compute_radius_inf'),
  [], ['glp_set_obj_coef, glp_simplex and status calls; returned values; raised errors'],
  note='numerical tolerances of the solver itself are trusted')

# ------------------------------------------------------------------ set encodings

P('C05', 'Initial sets are encoded exactly',
  'The linear program built from a box, a zonotope or a list of linear constraints describes exactly that set of '
  'initial states, with the current state equal to the initial state plus accumulated input effects. Column names '
  'identify mode, role and dimension, and the recorded positions of the state, basis-matrix and input-effect blocks '
  'are those of the constructed program.',
  'inputs', 'all boxes, zonotopes, constraint systems, dimensions and modes with or without inputs',
  TESTS + '; other dimensions, generator counts and input combinations are not built',
  'hylaa/lputil.py', [('encoders', 'lputil.from_box / from_zonotope / from_constraints / from_input_constraints')],
  Q('lputil', 'from_box from_zonotope from_constraints from_input_constraints'), [],
  ['rows, columns and coefficients of the built program'])

P('C06', 'Advancing a state set replays its dynamics at every step exactly once',
  'After advancing a state set to step n the linear program relates initial and current state by the matrix '
  'exponential of exactly n steps, and the input effects of each of the n steps have been added exactly once, each '
  'with its own fresh variables under the input constraints. The step counters in the mode and since the start advance '
  'by the same number, and cached plot vertices are dropped.',
  'inputs histories', 'all dynamics, input sets, step targets and all earlier step sequences',
  'tests advance single steps of small systems; multi-step advances with inputs appear only in one de-aggregation test',
  'hylaa/stateset.py hylaa/lputil.py', [('stepping', 'StateSet.step'), ('basis matrix block', 'lputil.set_basis_matrix'),
                                        ('input block', 'lputil.add_input_effects_matrix')],
  Q('StateSet', '__init__ step') + Q('lputil', 'set_basis_matrix add_input_effects_matrix get_basis_matrix scale_with_bm') +
  Q('LpInstance', 'set_constraints_csr set_constraints_csc get_dense_constraints'), [],
  ['coefficients written for the basis matrix and input effects; step counters'])

P('C07', 'Step matrices depend only on the step number',
  'The basis matrix and the input-effects matrix returned for a step are those of that step of the mode\'s dynamics, '
  'whatever steps were requested before and whether the incremental or the direct computation is used. At step zero '
  'they are the identity and no input effects, and with the bloated-input model the input-effects matrix is '
  'widened by the previous step\'s matrix exponential in every case.',
  'histories inputs', 'all sequences of requested steps, all dynamics with and without inputs and approximation models',
  'tests request steps in increasing order, so the direct path and mixed orders are hardly reached',
  'hylaa/time_elapse.py hylaa/time_elapse_expm.py', [('incremental and direct paths',
                                                      'TimeElapseExpmMult.assign_basis_matrix'),
                                                     ('one-step matrices', 'TimeElapseExpmMult.init_matrices')],
  Q('TimeElapser', '__init__ get_basis_matrix use_lgg_approx') +
  Q('TimeElapseExpmMult', '__init__ init_matrices assign_basis_matrix use_lgg_approx') + ['Mode.init_time_elapse'], [],
  ['cur_basis_matrix, cur_input_effects_matrix and the cached step'],
  note='the formula of each path is compared; the accuracy of the matrix exponential is trusted')

P('C08', 'A transition is taken exactly when state set and guard intersect',
  'A transition is reported possible for a state set exactly when some current state satisfies all guard conditions '
  'at once, and the returned set is the state set restricted by all of them. The examined state set itself keeps its '
  'constraints, a solver failure counts as no transition, and every outgoing transition of the mode is examined at '
  'every step.',
  'inputs histories', 'all guards (any number of conditions), state sets and steps',
  TESTS + ' with guards of one or two conditions',
  'hylaa/hybrid_automaton.py hylaa/lputil.py hylaa/core.py',
  [('guard intersection', 'Transition.get_guard_intersection'), ('constraint rows', 'lputil.add_curtime_constraints'),
   ('enumeration of transitions', 'Core.check_guards')],
  Q('Transition', 'get_guard_intersection set_guard set_guard_true') + ['lputil.add_curtime_constraints',
                                                                        'Core.check_guards',
                                                                        'LpInstance.clone'],
  [], ['rows added to the copied program; minimised directions'])

P('C09', 'Resets are encoded exactly',
  'Taking a transition adds fresh variables for the successor state that equal the reset of the predecessor state plus '
  'the fresh reset variables under their own constraints, identity reset when none is given. The successor program '
  'tracks the new current state, basis-matrix and input-effect blocks at their true positions, and the successor state '
  'set keeps the elapsed steps and exactness flag of its predecessor.',
  'inputs', 'all reset matrices, dimension changes, Minkowski terms and modes with or without inputs',
  TESTS + '; dimension-changing resets combined with Minkowski terms and inputs are not covered',
  'hylaa/lputil.py hylaa/aggdag.py', [('reset block', 'lputil.add_reset_variables'),
                                      ('successor creation', 'AggDag.make_op_transition')],
  Q('lputil', 'add_reset_variables') + ['AggDag.make_op_transition', 'Transition.set_reset',
                                        'Transition.apply_reset_for_point', 'LpInstance.set_reach_vars'], [],
  ['rows, columns and coefficients added for the reset'])

P('C10', 'Template aggregation encloses every aggregated state set',
  'The aggregate of several state sets over a list of directions is bounded in every direction and its opposite by '
  'the extreme value over all aggregated sets, in orthonormal coordinates, and has the right number of dimensions. The '
  'elapsed-steps interval of the aggregate spans those of all its members, it counts as exact only if it is a single '
  'exact set, and guard directions are added only when asked for.',
  'inputs', 'all numbers of aggregated sets, dimensions, directions and aggregation settings',
  'tests aggregate two or three two-dimensional sets',
  'hylaa/lputil.py hylaa/aggregate.py hylaa/aggdag.py',
  [('template bounds', 'lputil.aggregate'), ('direction choice', 'aggregate.aggregate_box_arnoldi'),
   ('orthonormal directions', 'lputil.reorthogonalize_matrix / make_direction_matrix')],
  Q('lputil', 'aggregate make_direction_matrix reorthogonalize_matrix get_box_center') +
  ['aggregate.aggregate_box_arnoldi', 'AggDagNode._aggregate_from_state_op_list', 'AggDagNode.__init__'] +
  Q('Aggregated', 'get_agg_type _get_agg_type pretransition'), [],
  ['bounds and coefficients of the aggregated program; steps interval'])

P('C11', 'Convex hulls and Minkowski sums are encoded exactly',
  'The convex hull of a list of sets is encoded with one scaled copy of every member whose weights are non-negative '
  'and sum to one; the Minkowski sum with one unscaled copy of every member whose current states add up. Every '
  'constraint of every member appears exactly once, homogenised where needed, and the result can be stepped like any '
  'other set.',
  'inputs', 'all numbers and shapes of combined sets, with and without inputs',
  'tests combine two or three low-dimensional sets',
  'hylaa/lputil.py hylaa/aggregate.py', [('hull', 'lputil._aggregate_chull_recursive / aggregate_chull'),
                                         ('sum', 'lputil.minkowski_sum'), ('bloating', 'lputil.bloat')],
  Q('lputil', 'aggregate_chull _aggregate_chull_recursive minkowski_sum bloat scale_with_bm') +
  ['aggregate.aggregate_chull', 'LpInstance.get_full_constraints', 'LpInstance.get_rhs', 'LpInstance.get_types'], [],
  ['matrix, right-hand side, types and names of the combined program'])

P('C12', 'Approximation models enclose continuous behaviour between steps',
  'With the convex-hull or the bloating model the initial set of every mode is replaced by the hull of the set now and '
  'one step later, bloated by the published bounds on set radius, input radius and step size, and later input effects '
  'are bloated likewise. Without a model the set is untouched, unknown models are refused, and cached facts about the '
  'replaced program are dropped.',
  'inputs configurations', 'all dynamics, input sets, step sizes and models',
  'tests check one bloated two-dimensional set',
  'hylaa/stateset.py hylaa/lputil.py', [('models', 'StateSet.apply_approx_model / apply_approx_chull / apply_approx_lgg'),
                                        ('bloating', 'lputil.bloat'), ('radius', 'lputil.compute_radius_inf')],
  Q('StateSet', 'apply_approx_model apply_approx_chull apply_approx_lgg') +
  Q('lputil', 'bloat compute_radius_inf scale_with_bm from_input_constraints add_input_effects_matrix') +
  ['Core.do_step_pop', 'TimeElapseExpmMult.use_lgg_approx', 'TimeElapser.use_lgg_approx'],
  ['enum_dispatch'], ['the program assigned to the state set; beta'],
  note='the formulas are compared with those of the cited lemma, not evaluated')

P('C13', 'State sets are cut back to the invariant without losing states inside it',
  'At every step in a mode each invariant condition the set could violate is imposed on the current states, expressed '
  'over the initial states and the inputs of the steps so far, so that it stays in force at later steps (for the '
  'state and the inputs it was imposed on), and a cached condition is only replaced by a stronger one. A set is dropped exactly when nothing of it satisfies the invariant, and constraints that cannot '
  'be violated are not added.',
  'inputs histories', 'all invariants, dynamics with inputs, and step sequences',
  TESTS + ' with one or two invariant conditions',
  'hylaa/core.py hylaa/lputil.py hylaa/hybrid_automaton.py',
  [('intersection', 'Core.intersect_invariant'), ('constraint over initial states', 'lputil.add_init_constraint'),
   ('strengthening', 'lputil.try_replace_init_constraint'), ('negation', 'LinearConstraint.negate')],
  ['Core.intersect_invariant', 'AggDag.add_invariant_op', 'AggDagNode.replay_op_intersect_invariant', 'Core.setup',
   'Mode.set_invariant'] +
  Q('lputil', 'add_init_constraint try_replace_init_constraint check_intersection') +
  Q('LinearConstraint', '__init__ negate') + ['LpInstance.set_constraint_rhs', 'LpInstance.get_row'], [],
  ['rows added or replaced; feasibility result'])

# ------------------------------------------------------------------ exploration

P('C14', 'Every popped state is explored to its end in the prescribed order',
  'A popped state set is intersected with the invariant, then repeatedly advanced by one step and checked against all '
  'guards, until it leaves the invariant, reaches the time bound, is known to be finished (zero dynamics, taken '
  'time-triggered transition) or the analysis may stop. Flags that end the exploration of one state never carry over '
  'to another, and error modes are never advanced.',
  'histories configurations', 'all automata, settings and interleavings of popping, stepping and de-aggregation',
  'tests run few complete analyses and observe the final verdict only',
  'hylaa/core.py hylaa/aggdag.py', [('step loop', 'Core.do_step_continuous_post / do_step_pop / do_step_reach'),
                                    ('termination', 'Core.is_finished')],
  Q('Core', 'print_current_step_time __init__ do_step do_step_reach do_step_continuous_post do_step_pop is_finished setup setup_ha check_guards '
            'intersect_invariant run run_to_completion') +
  Q('AggDag', '__init__ get_cur_state cur_state_left_invariant add_init_state') +
  Q('AggDagNode', 'get_cur_state node_left_invariant') + ['PlotManager.run_to_completion', 'Mode.is_error'], [],
  ['calls made per step, their order and conditions'])

P('C15', 'No pending state set is lost or processed twice',
  'Every successor of a taken transition and every feasible initial state enters the waiting list exactly once and '
  'leaves it exactly once, when it is popped alone or as part of an aggregate, or when its ancestor is split. Sets are '
  'aggregated only with sets in the same mode chosen by the configured strategy, error modes and initial states are '
  'popped alone, and the base strategy never aggregates.',
  'histories configurations', 'all waiting lists, strategies, scores and de-aggregation histories',
  'tests have at most a few pending states',
  'hylaa/aggdag.py hylaa/aggstrat.py', [('waiting list', 'AggDag.pop_waiting_list / add_transition_successor'),
                                        ('strategy', 'Aggregated.pop_waiting_list / pop_score')],
  Q('AggDag', '__init__ add_init_state add_transition_successor make_op_transition pop_waiting_list make_node '
              'remove_node_decendants_from_waiting_list _get_node_leaf_ops') +
  Q('AggregationStrategy', '__init__ init_aggdag_data init_aggdag_node_data get_agg_type pop_waiting_list get_deagg_node pretransition') +
  Q('Aggregated', '__init__ pop_waiting_list pop_score') + ['AggDagNode.__init__', 'OpTransition.__init__',
                                                           'aggstrat.get_ancestors', 'Core.setup'],
  ['strategy_interface'], ['waiting_list contents; parent and child links'])

P('C16', 'The verdict says exactly what was found',
  'A concrete (aggregated) error is recorded exactly when the guard of a transition into an error mode was intersected '
  'by an exact (aggregated) state set, and a recorded error is never withdrawn. The analysis ends early only when a '
  'requested stop condition is met, a missing initial set is an error rather than a safe verdict, and the printed '
  'conclusion and the returned result agree.',
  'histories configurations', 'all runs and stop settings',
  'tests look at the verdict of a few fixed models',
  'hylaa/core.py hylaa/result.py hylaa/aggdag.py', [('recording', 'Core.error_reached'), ('stopping', 'Core.is_finished'),
                                                    ('conclusion', 'Core.run')],
  Q('Core', 'error_reached check_guards is_finished run setup') + ['HylaaResult.__init__', 'AggDagNode.replay_op_transition',
                                                                 'Mode.is_error', 'StateSet.__init__',
                                                                 'AggDag.make_op_transition',
                                                                 'aggregate.aggregate_box_arnoldi',
                                                                 'aggregate.aggregate_chull'],
  ['verdict_writers'], ['HylaaResult fields; printed conclusion'])

P('C17', 'De-aggregation splits sets without losing or duplicating members',
  'A node is chosen for splitting only if de-aggregation is on, an aggregated error was found below it and it '
  'combines several sets, following the configured preference. Splitting partitions its members into two non-empty '
  'halves that together contain every member exactly once, and exactly the pending states descending from the '
  'split node are withdrawn.',
  'histories configurations', 'all aggregation graphs and preferences',
  'one test module with three small scenarios',
  'hylaa/aggstrat.py hylaa/aggdag.py hylaa/deaggregation.py',
  [('choice', 'Aggregated.get_deagg_node'), ('partition', 'AggDagNode.split'),
   ('withdrawal', 'AggDag.remove_node_decendants_from_waiting_list'), ('start', 'DeaggregationManager.begin_replay')],
  ['Aggregated.get_deagg_node', 'AggregationStrategy.get_deagg_node', 'AggDagNode.split', 'AggDagNode.__init__',
   'AggDag.remove_node_decendants_from_waiting_list', 'AggDag._get_node_leaf_ops', 'aggstrat.get_ancestors',
   'DeaggregationManager.begin_replay', 'AggDag.make_node', 'AggDag.is_op_transition', 'AggDagNode.__eq__'],
  [], ['parent and child links, waiting list, replay queue'])

P('C18', 'Replaying a split set repeats every recorded operation at its step',
  'The replay of a split node performs, for each part still in the invariant, every operation recorded for the '
  'original in order and at the recorded step: invariant intersections, transitions and leaving the invariant. '
  'Successors that had been explored are queued for the same treatment and pending ones return to the waiting list. '
  'Each part is bloated by the approximation model like a popped set and ends when it leaves the invariant, at its own '
  'time bound, or at the last step of the original.',
  'histories', 'all recorded operation sequences and nesting depths of aggregation',
  'one test module with three small scenarios',
  'hylaa/deaggregation.py hylaa/aggdag.py', [('replay loop', 'DeaggregationManager.do_step_replay'),
                                             ('single operations', 'AggDagNode.replay_op*')],
  Q('DeaggregationManager', '__init__ doing_replay init_replay do_step_replay update_transition_successors '
                            'begin_replay plot_replay_deaggregated check_time_bound apply_approx_model') +
  Q('AggDagNode', 'replay_op replay_op_transition replay_op_intersect_invariant node_left_invariant get_cur_state') +
  ['OpTransition.__init__', 'Core.do_step_reach'], [], ['operations appended and queues'])

P('C19', 'Counter-examples are decoded with the naming used to encode them',
  'The writer and the reader of variable names agree: every state, successor, reset and input variable is named with '
  'mode, role, dimension and incoming transition, and the decoder assigns every value of the solution to the segment, '
  'role and order the encoder meant, with the true number of steps and the transition taken. Mode and transition '
  'numbers used in names are unique and stay with their object, and replaying checks invariants, guards and resets at '
  'every step.',
  'inputs histories', 'all paths through the automaton, dimensions, inputs and Minkowski resets',
  'tests decode counter-examples with at most two modes',
  'hylaa/result.py hylaa/lputil.py hylaa/hybrid_automaton.py',
  [('writer', 'lputil.from_constraints / add_reset_variables / add_input_effects_matrix'),
   ('reader', 'result.make_counterexample'), ('identifiers', 'HybridAutomaton.new_mode / Transition.__init__')],
  Q('result', 'make_counterexample replay_counterexample make_der_func') + ['CounterExampleSegment.__init__',
  'aggstrat.get_ancestors', 'HybridAutomaton.new_mode', 'Transition.__init__', 'Mode.__init__', 'Core.error_reached'] +
  Q('lputil', 'from_constraints add_reset_variables add_input_effects_matrix') + ['LpInstance.get_names', 'LpInstance.add_cols'],
  [], ['segment fields'])

# ------------------------------------------------------------------ models

P('C20', 'Ill-formed models are rejected before anything is stored',
  'Dynamics, inputs, invariants, guards and resets whose matrices do not fit together, whose constraints are '
  'infeasible, or which lack a required part are refused with an error, and the automaton is checked again before an '
  'analysis starts. Nothing of a refused definition is stored, and well-formed definitions are accepted.',
  'inputs', 'all model-building calls',
  'tests trigger only a few of the checks',
  'hylaa/hybrid_automaton.py hylaa/core.py', [('shape and feasibility checks', 'Mode.set_* / Transition.set_*'),
                                              ('final check', 'HybridAutomaton.check_transitions')],
  Q('Mode', 'set_invariant _check_inputs set_inputs set_dynamics') +
  Q('Transition', 'set_guard_true set_guard set_reset') + Q('HybridAutomaton', 'new_mode check_transitions') +
  ['LinearConstraint.__init__', 'Core.setup', 'Core.setup_ha', 'lputil.is_feasible'], [],
  ['assertions and errors, and the fields stored after them'], asserts=True)

P('C21', 'Models are stored as given',
  'A mode holds exactly the dynamics, input matrix, input constraints and invariant conditions it was given, a '
  'transition exactly its guard, reset and end points, and the automaton exactly its modes and transitions in order of '
  'creation. Point checks of guards, invariants and resets use those matrices, and an always-true guard has '
  'no conditions.',
  'inputs', 'all model-building calls with lists, dense or sparse matrices',
  TESTS, 'hylaa/hybrid_automaton.py', [('builders', 'Mode.set_* / Transition.set_* / HybridAutomaton.new_*')],
  Q('LinearConstraint', '__init__ is_true_for_point negate almost_equals') +
  Q('Mode', '__init__ is_error point_in_invariant set_invariant set_inputs set_dynamics init_time_elapse') +
  Q('Transition', '__init__ is_guard_true_for_point apply_reset_for_point set_guard_true set_guard set_reset') +
  Q('HybridAutomaton', '__init__ new_mode new_transition'), [], ['fields of modes and transitions'])

P('C22', 'Guards are strengthened only by missing target invariants',
  'Strengthening adds to a guard exactly those invariant conditions of the target mode that the guard does not contain '
  'already (up to a tiny tolerance), keeping all existing conditions with their right-hand sides. Transitions with '
  'resets, self-loops and time-triggered transitions are left alone, and two conditions count as equal only if shape, '
  'sparsity pattern, coefficients and right-hand side all agree.',
  'inputs', 'all guards, invariants and automata',
  'one small test', 'hylaa/hybrid_automaton.py', [('strengthening', 'HybridAutomaton.do_guard_strengthening'),
                                                 ('comparison', 'LinearConstraint.almost_equals')],
  ['HybridAutomaton.do_guard_strengthening', 'LinearConstraint.almost_equals', 'LinearConstraint.__init__',
   'Core.setup_ha'], [], ['guard matrix and right-hand side'])

P('C23', 'Time-triggered transitions are recognised only when they are forced',
  'A transition is marked time-triggered only if its guard is the opposite of an invariant condition over variables '
  'whose derivative is constant, and it ends the exploration of a state set only if at run time those derivatives '
  'are non-zero constants and the guarded value is the same for all states. Relaxing such guards never moves a '
  'bound by more than the numerical slack, and never away from the guarded region.',
  'inputs configurations', 'all automata, step sizes and state sets',
  'tests contain two time-triggered models', 'hylaa/hybrid_automaton.py hylaa/core.py',
  [('detection', 'hybrid_automaton.check_and_relax_time_triggered / get_tt_vars'),
   ('run-time check', 'hybrid_automaton.was_tt_taken')],
  ['HybridAutomaton.detect_tt_transitions'] + Q('hybrid_automaton', 'get_tt_vars check_and_relax_time_triggered '
                                                                    'was_tt_taken') +
  ['Core.check_guards', 'Core.setup_ha', 'Core.do_step_continuous_post', 'Core.do_step_pop'], [],
  ['time_triggered flag, relaxed right-hand sides, result of the run-time check'])

P('C24', 'Symbolic expressions are translated exactly or rejected',
  'Derivatives, resets and conditions written as expressions become matrices whose entries are exactly the '
  'coefficients of the expression, with constants on the affine column and comparisons oriented and signed correctly. '
  'Expressions that are not linear in the listed variables, unknown symbols and unsupported operators are rejected, '
  'never approximated.',
  'inputs', 'all expressions over all variable lists',
  'tests translate a few expressions', 'hylaa/symbolic.py',
  [('term extraction', 'symbolic._extract_linear_terms_rec'), ('conditions', 'symbolic.make_condition'),
   ('dynamics', 'symbolic.make_dynamics_mat / make_reset_mat')],
  Q('symbolic', 'extract_linear_terms _extract_linear_terms_rec make_reset_mat make_dynamics_mat make_condition'), [],
  ['returned matrices and raised errors'])

# ------------------------------------------------------------------ cross-cutting

P('C25', 'Timers are balanced on every path',
  'Every timer started is stopped exactly once on every path that returns normally, in last-in-first-out order, so '
  'totals and nesting are meaningful and no timing assertion can fail in the middle of an analysis. The timer tree '
  'attributes each interval to the timer active when it started, and counts calls and elapsed time once.',
  'programs histories', 'all paths through all functions that use timers',
  'tests execute only some of the early exits', 'hylaa/timerutil.py', [('protocol', 'Timers.tic / Timers.toc'),
                                                                       ('users', 'all modules')],
  Q('TimerData', '__init__ get_child get_children_recursive full_name tic toc') + Q('Timers', '__init__ print_stats_recursive reset tic toc '
                                                                                    'print_stats'),
  ['timer_balance'], ['stack of running timers at each exit'])

P('C26', 'Objects accept only their declared attributes',
  'Once constructed, the objects of the analysis refuse assignment to any attribute they did not declare, and every '
  'assignment the code itself performs is to a declared attribute. Construction declares every attribute before '
  'the object is sealed, also in derived classes.',
  'programs', 'all assignments to attributes of sealed objects', 'an assignment on a path no test takes raises only '
  'when a user reaches it', 'hylaa/util.py', [('sealing', 'Freezable.freeze_attrs / __setattr__'),
                                              ('users', 'all classes derived from it')],
  Q('Freezable', 'freeze_attrs __setattr__'), ['freeze_discipline'], ['attribute assignments'])

P('C27', 'Analyses are reproducible',
  'Two runs of the same model with the same settings perform the same computations: the only source of randomness is '
  'the generator seeded from the settings when the analysis object is created, and no decision depends on clocks, '
  'object addresses, hash order or the environment. Nothing else re-seeds or replaces that generator.',
  'programs histories', 'all code reachable from an analysis', 'tests never compare two runs, let alone across '
  'processes', 'hylaa/core.py hylaa/lputil.py', [('seeding', 'Core.__init__'), ('users', 'lputil, Core.simulate')],
  ['Core.__init__', 'HylaaSettings.__init__', 'lputil.reorthogonalize_matrix', 'Core.simulate', 'ModeColors.init_colors'],
  ['determinism'],
  ['calls to sources of non-determinism'])

P('C28', 'Arguments and shared data are never modified or captured',
  'Functions that build models, sets and programs leave the lists and arrays they are given unchanged, and what they '
  'store is not affected when the caller changes its arrays later. Lists handed out or kept by one state set, node or '
  'program are never shared with another that may change them.',
  'inputs histories', 'all later uses of arguments and of copied objects', 'tests build arguments afresh and never '
  'look at them again', 'hylaa/hybrid_automaton.py hylaa/lputil.py hylaa/stateset.py',
  [('copies on entry', 'Mode.set_* / Transition.set_guard'), ('copies of counters and names',
                                                             'StateSet.__init__ / LpInstance.clone')],
  [], ['argument_mutation', 'captured_arguments'], ['in-place updates of arguments; stored references'])

P('C29', 'Simulations follow the discrete-time semantics',
  'Each simulation starts at a point of the given box, advances by one step matrix per step while its point is in the '
  'invariant, takes the first enabled transition with its reset, and ends at the time bound, outside the invariant or '
  'in an error mode. Guards are not tried at the first step after entering a mode unless urgent guards are on, all '
  'simulations of a popped mode are treated alike, and none is lost when modes change.',
  'inputs histories configurations', 'all automata, boxes, numbers of simulations and settings',
  'simulation is not covered by the tests', 'hylaa/core.py hylaa/hybrid_automaton.py hylaa/aggstrat.py',
  [('loop', 'Core.do_step_sim / sim_pop_waiting_list / simulate'), ('mode choice', 'get_simulation_pop_mode')],
  Q('Core', 'simulate sim_pop_waiting_list do_step_sim do_step is_finished') +
  ['AggregationStrategy.get_simulation_pop_mode', 'Aggregated.get_simulation_pop_mode', 'Mode.point_in_invariant',
   'LinearConstraint.is_true_for_point', 'Transition.is_guard_true_for_point', 'Transition.apply_reset_for_point'],
  ['strategy_interface'], ['simulation lists'])

P('C30', 'Plotted polygons are projections of the true set',
  'The polygon drawn for a state set is built from extreme points of the set in the requested directions, for plot axes '
  'given as a dimension, a direction or time, is closed, and spans the elapsed-time interval of the set when time is an '
  'axis. Points of simulations and counter-examples are projected with the same axes.',
  'inputs configurations', 'all axis choices, sets and time intervals', 'tests plot dimensions only',
  'hylaa/lpplot.py hylaa/kamenev.py hylaa/stateset.py', [('vertices', 'lpplot.get_verts'),
                                                         ('inner approximation', 'kamenev.get_verts'),
                                                         ('cache', 'StateSet.verts')],
  Q('lpplot', '_dim_to_direction pt_to_plot_xy get_verts bbox_widths make_plot_vecs find_boundary_pts _minimize '
              '_binary_search_boundaries') +
  Q('kamenev', '_get_orthonormal_rank _get_rank _find_two_points _find_init_simplex get_verts '
               '_v_h_rep_given_init_simplex') + ['StateSet.verts', 'PlotManager.init_plot_vecs'], [],
  ['returned vertices, directions optimised'])

P('C31', 'Stored and drawn plot data match the explored state sets',
  'Every explored state set is recorded once per subplot under its mode with its vertices and step, and a set '
  'replaced by de-aggregation is removed again from every subplot and from the drawing while its parts are added. '
  'Looking up a point returns a recorded set whose polygon contains it, or nothing.',
  'histories configurations', 'all explorations, subplots and de-aggregations', 'tests store data for one subplot',
  'hylaa/result.py hylaa/plotutil.py hylaa/stateset.py', [('records', 'PlotData.add_state / remove_state'),
                                                          ('paths', 'StateSet.set_plot_path / del_plot_path'),
                                                          ('drawing', 'PlotManager.add_plotted_states / '
                                                                      'delete_plotted_state')],
  Q('PlotData', '__init__ get_verts_list add_state remove_state get_plot_data') +
  Q('StateSet', 'set_plot_path del_plot_path verts') +
  Q('PlotManager', '__init__ pause state_popped plot_current_sim commit_cur_sims plot_current_state add_reachable_poly '
                   'delete_plotted_state add_plotted_states highlight_states_gray highlight_states run_to_completion '
                   'anim_func draw_counterexample') +
  Q('DrawnShapes', 'get_artists set_gray_state set_cur_state _set_named_state commit_cur_sims set_cur_sim '
                   'add_reachable_poly') + ['DeaggregationManager.plot_replay_deaggregated', 'Core.run_to_completion',
                                            'Core.run'], [], ['plot data lists'])

P('C32', 'Settings have their documented defaults and every choice is handled',
  'A freshly created settings object has the documented defaults, every setting the code reads exists, and the choices '
  'offered for one setting are distinct. Each choice is either handled explicitly where the setting is used or '
  'refused, never silently treated like another.',
  'configurations programs', 'all settings and all uses', 'tests use few of the combinations',
  'hylaa/settings.py hylaa/aggstrat.py', [('defaults', 'HylaaSettings / PlotSettings / LabelSettings'),
                                          ('dispatch', 'users of the constants')],
  Q('HylaaSettings', '__init__') + Q('PlotSettings', '__init__') + Q('LabelSettings', '__init__ big turn_off') +
  Q('Aggregated', '__init__ pop_score get_deagg_node _get_agg_type') + Q('Core', 'print_normal print_verbose print_debug') +
  ['StateSet.apply_approx_model', 'AggDagNode._aggregate_from_state_op_list'], ['enum_dispatch', 'settings_declared'],
  ['defaults, dispatch chains'])

P('C33', 'A failed solver query is never used as a result',
  'Every query that can come back without a result (no feasible point, no intersection, solver failure) is tested '
  'before its result is used, and the failure leads to the conservative outcome documented for that query. No '
  'successor, aggregate or constraint is built from a missing result.',
  'programs fault_sequences', 'all call sites of queries that may fail, on all paths', 'solver failures do not occur '
  'in the tests', 'hylaa/lputil.py hylaa/aggdag.py hylaa/hybrid_automaton.py hylaa/core.py',
  [('queries', 'LpInstance.minimize, get_guard_intersection, check_intersection, get_box_center, make_op_transition'),
   ('users', 'all callers')],
  Q('lputil', 'check_intersection get_box_center is_point_in_lpi is_feasible') +
  ['Transition.get_guard_intersection', 'AggDag.make_op_transition', 'AggDag.add_transition_successor',
   'Aggregated.pretransition', 'AggDagNode.replay_op_transition', 'AggDagNode.replay_op_intersect_invariant',
   'LpInstance.minimize', 'LpInstance.is_feasible'], ['none_discipline'], ['uses of possibly missing results'])

P('C34', 'Every name, attribute and signature used resolves on every path',
  'Whatever configuration or branch is taken, each name read is defined, each attribute read exists on its object or '
  'class, each call supplies arguments its callee accepts, and each format string and tuple unpacking matches its values. '
  'No rarely taken branch ends in an undefined name or a missing attribute.',
  'programs configurations', 'all reads, calls, format strings and unpackings on all paths of the package',
  'tests execute a fraction of the branches', 'hylaa/core.py hylaa/aggdag.py hylaa/plotutil.py hylaa/lpinstance.py',
  [('all', 'every module of the package')], [], ['names_resolve'], ['names, attributes, calls'],
  note='attributes of library objects are checked against the vocabulary of the installed libraries only')

P('C35', 'Drawing and animation never change or cut short the analysis',
  'Whichever plot mode is chosen, drawing runs the analysis step by step until it is finished, and pausing, skipping, '
  'single steps and extra video frames only delay it. Axis limits, colours and artists depend only on the sets drawn and '
  'the settings, every mode keeps one colour, and an incomplete video is reported as an error.',
  'histories configurations', 'all plot modes, button presses, frame counts and explored sets',
  'tests draw nothing or single images', 'hylaa/plotutil.py',
  [('frame function', 'PlotManager.anim_func'), ('frame iterator', 'PlotManager.anim_iterator'),
   ('limits', 'PlotManager.update_axis_limits'), ('colours', 'ModeColors')],
  Q('PlotManager', '__init__ anim_func anim_iterator anim_init_func compute_and_animate run_to_completion save_video '
                   'save_image update_axis_limits pause state_popped create_plot') +
  Q('AxisLimits', '__init__ __str__') + ['InteractiveState.__init__'] +
  Q('ModeColors', '__init__ lighter darker init_colors get_edge_face_colors') +
  Q('DrawnShapes', '__init__ get_artists set_gray_state set_cur_state _set_named_state') +
  ['plotutil._blit_draw'], ['timer_balance'], ['artists, limits, steps of the core per frame'],
  note='PlotManager.create_plot is undetermined (nested iteration over library arrays)')

P('C36', 'Textual descriptions show the stored data',
  'Printed linear programs, constraints, modes, transitions, segments and state sets show exactly the stored names, '
  'coefficients, relations and right-hand sides at their positions. Describing or dumping an object changes nothing in it.',
  'inputs', 'all objects that can be printed', 'printed text is not tested',
  'hylaa/lpinstance.py hylaa/hybrid_automaton.py hylaa/stateset.py hylaa/result.py hylaa/aggdag.py hylaa/util.py',
  [('linear programs', 'LpInstance.__str__'), ('model objects', '__str__ methods')],
  Q('LpInstance', '_column_names_str _opt_dir_str _col_stat_str _constraints_str __str__ write_lp_glpk write_lp_cplex') +
  ['lpinstance.simple_print'] + Q('LinearConstraint', '__str__ __repr__') + Q('Mode', '__str__ __repr__') +
  ['Transition.__str__', 'OpTransition.__str__', 'AggDagNode.__str__', 'AggDagNode.__hash__', 'StateSet.__str__',
   'StateSet.get_full_aggstring', 'CounterExampleSegment.__str__', 'CounterExampleSegment.__repr__',
   'util.matrix_to_string', 'AggDag.print_waiting_list', 'AggDag.save_viz', 'AggDag.viz', 'TimerData.full_name',
   'Timers.print_stats_recursive'], [], ['returned strings'])

P('C37', 'The trace checker integrates the given dynamics under the given inputs',
  'For every step the checker integrates the given dynamics under the input of that step, starting where the previous '
  'step ended, and returns one time per state, increasing up to the requested end. The reported errors compare the '
  'projection of the final state with the expected value, and the arguments are left unchanged.',
  'inputs', 'all dynamics, input sequences and step counts', 'the trace checker is not tested', 'hylaa/check_trace.py',
  [('integration', 'check_trace.check / sim'), ('derivative', 'check_trace.make_der_func')],
  Q('check_trace', 'make_der_func check sim plot') + ['CheckTraceData.__init__'], ['argument_mutation'],
  ['states, times and errors returned'])

# callees without which a property can be broken just as well
EXTRA = {
    'C03': ('LpInstance.get_num_rows LpInstance.get_num_cols LpInstance._create_bm_indices LpInstance.set_reach_vars '
            'SwigArray.as_int_array SwigArray.as_double_array SwigArray._allocated'),
    'C05': 'lputil.is_feasible',
    'C08': ('hybrid_automaton.was_tt_taken hybrid_automaton.get_tt_vars Mode.is_error Core.error_reached '
            'lputil.add_reset_variables lputil.from_constraints lputil.get_box_center'),
    'C09': 'lputil.get_basis_matrix lputil.is_feasible lputil.get_box_center Transition.get_guard_intersection',
    'C10': 'lputil.get_basis_matrix lputil.from_constraints lputil.is_feasible',
    'C11': 'lputil.get_basis_matrix lputil.set_basis_matrix lputil.from_constraints lputil.is_feasible',
    'C12': ('lputil.get_basis_matrix lputil.set_basis_matrix lputil.aggregate_chull lputil._aggregate_chull_recursive '
            'lputil.minkowski_sum lputil.from_constraints lputil.check_intersection StateSet.__init__'),
    'C13': ('lputil.get_basis_matrix lputil.set_basis_matrix lputil.add_input_effects_matrix lputil.is_feasible '
            'Core.setup_ha'),
    'C14': ('AggDag.add_transition_successor AggDag.make_op_transition AggDag.make_node AggDag.add_invariant_op '
            'Core.error_reached Core.do_step_sim Core.sim_pop_waiting_list AggDag.remove_node_decendants_from_waiting_list'),
    'C15': ('AggDag.add_invariant_op AggDag.get_cur_state AggDagNode.get_cur_state Aggregated.pretransition '
            'AggDagNode._aggregate_from_state_op_list AggDag.cur_state_left_invariant'),
    'C16': ('Core.do_step_reach Core.do_step_continuous_post Core.do_step_pop Core.do_step PlotData.__init__ '
            'Core.run_to_completion result.make_counterexample CounterExampleSegment.__init__ Core.intersect_invariant'),
    'C17': 'AggDagNode._aggregate_from_state_op_list AggDagNode.node_left_invariant Aggregated.pop_waiting_list',
    'C18': ('AggDag.get_cur_state AggDag.add_transition_successor AggDagNode.split AggDag.make_node AggDagNode.__init__ '
            'AggDag.make_op_transition AggDag.add_invariant_op AggDag.remove_node_decendants_from_waiting_list '
            'AggDag._get_node_leaf_ops AggDagNode._aggregate_from_state_op_list'),
    'C19': 'lputil.aggregate lputil.aggregate_chull lputil._aggregate_chull_recursive lputil.get_basis_matrix',
    'C20': 'Mode.__init__ Mode.init_time_elapse HybridAutomaton.detect_tt_transitions HybridAutomaton.do_guard_strengthening',
    'C21': 'Mode._check_inputs',
    'C22': 'HybridAutomaton.check_transitions',
    'C23': ('LinearConstraint.negate LinearConstraint.__init__ HybridAutomaton.check_transitions '
            'Transition.get_guard_intersection'),
    'C29': ('Mode.is_error hybrid_automaton.was_tt_taken hybrid_automaton.get_tt_vars Core.setup_ha Core.do_step '
            'Core.run_to_completion Mode.init_time_elapse'),
    'C31': ('HylaaResult.__init__ DrawnShapes.__init__ result.replay_counterexample PlotManager.update_axis_limits '
            'PlotManager.init_plot_vecs PlotManager.compute_and_animate ModeColors.get_edge_face_colors'),
    'C33': ('lputil.from_constraints lputil.add_init_constraint lputil.try_replace_init_constraint lputil.get_basis_matrix '
            'lputil.aggregate lputil.make_direction_matrix AggDagNode._aggregate_from_state_op_list'),
    'C35': ('PlotManager.plot_current_state PlotManager.plot_current_sim PlotManager.add_reachable_poly '
            'PlotManager.highlight_states_gray PlotManager.highlight_states PlotManager.commit_cur_sims '
            'DrawnShapes.set_cur_sim DrawnShapes.add_reachable_poly DrawnShapes.commit_cur_sims PlotManager.init_plot_vecs'),
}
for _p in PROPS:
    _p['functions'] += [q for q in EXTRA.get(_p['id'], '').split() if q not in _p['functions']]

NOT_APPLICABLE = [
    ('N01', 'Matrix exponentials are numerically accurate',
     'The step and input-effect matrices agree with the true matrix exponential of the dynamics up to a stated '
     'tolerance, also after many incremental multiplications.',
     'inputs', 'all dynamics, step sizes and step counts',
     'tests compare a few steps of benign systems',
     'hylaa/time_elapse_expm.py', [('incremental product', 'TimeElapseExpmMult.assign_basis_matrix')],
     'accuracy of floating-point products depends on run-time values (norms, conditioning); no static bound in reach. '
     'The formula of every path is decided under C07.'),
    ('N02', 'Solver answers are numerically correct',
     'Feasibility and optimality answers of the linear-program solver are correct up to its tolerances for every program '
     'the tool builds.',
     'inputs', 'all linear programs', 'tests solve small well-scaled programs', 'hylaa/lpinstance.py',
     [('solver call', 'LpInstance.minimize')],
     'correctness of the GLPK C library on run-time data is outside any source-level argument about this repository; '
     'the decoding of its answers is decided under C04.'),
    ('N03', 'Every concrete trace lies inside the computed reachable sets',
     'For every initial state, admissible input sequence and transition choice the discrete-time trace is contained in '
     'the computed state set of every step, up to solver tolerance.',
     'inputs histories', 'all models, initial states, inputs and schedules', 'tests compare few vertices',
     'hylaa/core.py hylaa/stateset.py', [('whole pipeline', 'Core.run')],
     'end-to-end containment of numerical sets quantifies over run-time values; only its structural ingredients '
     '(C05-C13, C15, C18) are decided.'),
    ('N04', 'Plotted inner approximations are within the requested accuracy',
     'The polygon drawn for a state set is within the requested distance of the true projection.',
     'inputs', 'all sets and accuracies', 'tests plot few sets', 'hylaa/kamenev.py',
     [('refinement loop', 'kamenev._v_h_rep_given_init_simplex')],
     'the error bound depends on run-time hull geometry computed by qhull.'),
    ('N05', 'Counter-examples replay numerically',
     'A generated counter-example, integrated with an independent ODE solver, satisfies invariants, guards and resets '
     'within tolerance.',
     'inputs', 'all unsafe models', 'tests replay a few', 'hylaa/result.py',
     [('replay', 'result.replay_counterexample')],
     'agreement of odeint with the LP solution is a numerical fact; naming and structure are decided under C19.'),
    ('N06', 'Analyses terminate within predictable resources',
     'Every analysis with a finite time bound terminates, and memory and time grow as documented.',
     'inputs histories', 'all models', 'tests are small', 'hylaa/core.py', [('main loop', 'Core.do_step_reach')],
     'termination of the waiting-list loop depends on run-time geometry (Zeno behaviour, de-aggregation); no sound '
     'static bound in reach.'),
]


def by_id(i):
    for p in PROPS:
        if p['id'] == i:
            return p
    raise KeyError(i)
