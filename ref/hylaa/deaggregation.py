from collections import deque, namedtuple
from hylaa.settings import HylaaSettings
from hylaa.util import Freezable
from hylaa.timerutil import Timers
OpInvIntersect = namedtuple('OpInvIntersect', ['step', 'node', 'i_index', 'is_stronger'])
OpLeftInvariant = namedtuple('OpLeftInvariant', ['step', 'node', 'reached_time_bound'])

class OpTransition:

    def __init__(self, step, parent_node, child_node, transition, poststate):
        self.step = step
        self.parent_node = parent_node
        self.child_node = child_node
        self.transition = transition
        self.poststate = poststate

    def __str__(self):
        return f'[OpTransition({self.step}, {self.transition})]'

class DeaggregationManager(Freezable):

    def __init__(self, aggdag):
        self.aggdag = aggdag
        self.waiting_nodes = deque()
        self.deagg_parent = None
        self.deagg_children = None
        self.nodes_to_ops = None
        self.replay_step = None
        self.freeze_attrs()

    def doing_replay(self):
        return self.replay_step is not None or self.waiting_nodes

    def plot_replay_deaggregated(self, cur_step_in_mode):
        plotman = self.aggdag.core.plotman
        plot_child_states = []
        for i, child in enumerate(self.deagg_children):
            if not child.node_left_invariant():
                plot_child_states.append(child.stateset)
                assert child.stateset.cur_step_in_mode == cur_step_in_mode, f'expected cur_step_in_mode {cur_step_in_mode}, but it was {child.stateset.cur_step_in_mode}'
        plotman.add_plotted_states(plot_child_states)
        plotman.delete_plotted_state(self.deagg_parent.stateset, cur_step_in_mode)

    def init_replay(self):
        assert self.replay_step is None
        self.deagg_parent, self.deagg_children = self.waiting_nodes.popleft()
        self.replay_step = 0
        self.nodes_to_ops = {}
        self.aggdag.core.print_verbose('Pausing due to start of do_step_replay()')
        self.aggdag.core.plotman.pause()
        for child in self.deagg_children:
            self.apply_approx_model(child)

    def apply_approx_model(self, child):
        approx_model = self.aggdag.settings.approx_model
        state = child.stateset
        if approx_model != HylaaSettings.APPROX_NONE and (not state.mode.is_error()):
            if self.aggdag.core.intersect_invariant(state, add_ops_to_aggdag=False):
                state.apply_approx_model(approx_model)
            else:
                child.op_list.append(OpLeftInvariant(0, child, False))

    def check_time_bound(self, child, op):
        if not child.node_left_invariant():
            state = child.stateset
            steps_left = self.aggdag.settings.num_steps - state.cur_steps_since_start[0]
            bound_step = state.cur_step_in_mode + steps_left
            if op.step > bound_step or (op.step == bound_step and (not isinstance(op, OpTransition))):
                child.op_list.append(OpLeftInvariant(bound_step, child, True))

    def do_step_replay(self):
        assert self.doing_replay()
        if self.replay_step is None:
            self.init_replay()
        assert self.replay_step is not None
        op_list = self.deagg_parent.op_list
        op = op_list[self.replay_step]
        cur_step_in_mode = op.step
        only_process_transitions = isinstance(op_list[self.replay_step], OpTransition)
        parent_left_invariant = False
        for op in op_list[self.replay_step:]:
            if op.step > cur_step_in_mode and (not only_process_transitions):
                cur_step_in_mode += 1
                only_process_transitions = True
            if op.step != cur_step_in_mode:
                break
            if only_process_transitions and (not isinstance(op, OpTransition)):
                break
            if isinstance(op, OpLeftInvariant):
                parent_left_invariant = True
            for child in self.deagg_children:
                self.check_time_bound(child, op)
                if not child.node_left_invariant():
                    child.replay_op(self.deagg_parent.op_list, self.replay_step)
                else:
                    self.aggdag.core.print_verbose('child has left invariant')
            self.replay_step += 1
        for child in self.deagg_children:
            if not child.node_left_invariant():
                child.stateset.step(cur_step_in_mode)
        if not parent_left_invariant:
            self.plot_replay_deaggregated(cur_step_in_mode)
        was_last_step = self.replay_step >= len(self.deagg_parent.op_list)
        if was_last_step or all([c.node_left_invariant() for c in self.deagg_children]):
            for pair, ops in self.nodes_to_ops.items():
                _, child = pair
                self.aggdag.core.print_verbose(f'making node for recursive deaggregation with t={ops[0].transition}')
                node = self.aggdag.make_node(ops, child.agg_type_from_parents, child.stateset.aggstring)
                self.waiting_nodes.append((child, [node]))
            self.deagg_parent = self.deagg_children = self.replay_step = self.nodes_to_ops = None

    def update_transition_successors(self, old_op, new_op):
        parent_node = new_op.parent_node
        child_node = old_op.child_node
        pair = (parent_node, child_node)
        if pair not in self.nodes_to_ops:
            ops = []
            self.nodes_to_ops[pair] = ops
        else:
            ops = self.nodes_to_ops[pair]
        ops.append(new_op)

    def begin_replay(self, node):
        self.aggdag.remove_node_decendants_from_waiting_list(node)
        self.waiting_nodes.append((node, node.split()))
