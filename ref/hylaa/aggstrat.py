from collections import namedtuple
from hylaa import lputil
from hylaa.util import Freezable
AggType = namedtuple('AggType', ['is_box', 'is_arnoldi_box', 'is_chull', 'add_guard'])

class AggregationStrategy(Freezable):

    def __init__(self):
        self.freeze_attrs()

    def init_aggdag_data(self, aggdag):
        pass

    def init_aggdag_node_data(self, aggdag_node):
        pass

    def pop_waiting_list(self, waiting_list):
        return [waiting_list[0]]

    def get_deagg_node(self, aggdag):
        return None

    def pretransition(self, t, t_lpi, op_transition):
        return True

    def get_simulation_pop_mode(self, sim_waiting_list):
        return sim_waiting_list[0][0]

    def get_agg_type(self, op_list):
        raise NotImplementedError('Unaggregated strategy does not implement get_agg_type')

class Unaggregated(AggregationStrategy):
    pass

class Aggregated(AggregationStrategy):
    AGG_BOX, AGG_ARNOLDI_BOX, AGG_CONVEX_HULL = range(3)
    POP_LOWEST_MINTIME, POP_LOWEST_AVGTIME, POP_LARGEST_MAXTIME = range(3)
    DEAGG_LEAVES_FIRST, DEAGG_ROOT_FIRST, DEAGG_MOST_STATES = range(3)

    def __init__(self, agg_type=AGG_ARNOLDI_BOX, deaggregate=False):
        self.agg_type = agg_type
        self.pop_type = Aggregated.POP_LOWEST_AVGTIME
        self.add_guard = True
        self.require_same_path = True
        self.deaggregate = deaggregate
        self.deagg_preference = Aggregated.DEAGG_MOST_STATES
        self.sim_avoid_modes = []
        AggregationStrategy.__init__(self)

    def pop_waiting_list(self, waiting_list):
        to_remove_op = waiting_list[0]
        to_remove_state = to_remove_op.poststate
        to_remove_score = self.pop_score(to_remove_state)
        for op in waiting_list:
            state = op.poststate
            score = self.pop_score(state)
            if score > to_remove_score or (score == to_remove_score and state.mode.name < to_remove_state.mode.name):
                to_remove_score = score
                to_remove_state = state
                to_remove_op = op
        op_list = []
        for op in waiting_list:
            state = op.poststate
            should_add = False
            if state is to_remove_state:
                should_add = True
            elif state.mode is to_remove_state.mode:
                if not self.require_same_path and (not self.deaggregate):
                    should_add = True
                elif to_remove_op is None and op is None:
                    should_add = True
                elif to_remove_op and op:
                    if to_remove_op.transition is op.transition and to_remove_op.parent_node is op.parent_node:
                        should_add = True
            if should_add:
                op_list.append(op)
        return op_list

    def pop_score(self, state):
        if self.pop_type == Aggregated.POP_LOWEST_MINTIME:
            score = -state.cur_steps_since_start[0]
        elif self.pop_type == Aggregated.POP_LOWEST_AVGTIME:
            score = -(state.cur_steps_since_start[0] + state.cur_steps_since_start[1])
        elif self.pop_type == Aggregated.POP_LARGEST_MAXTIME:
            score = state.cur_steps_since_start[1]
        else:
            raise RuntimeError('Unknown waiting list pop strategy: {}'.format(self.pop_type))
        return score

    def get_simulation_pop_mode(self, sim_waiting_list):
        min_time_mode = None
        min_time_steps = float('inf')
        for mode, _, steps in sim_waiting_list:
            if mode.name in self.sim_avoid_modes:
                steps = float('inf')
            if steps < min_time_steps:
                min_time_mode = mode
                min_time_steps = steps
        if min_time_mode is None:
            min_time_mode = sim_waiting_list[0][0]
        return min_time_mode

    def pretransition(self, t, t_lpi, op_transition):
        rv = True
        if self.agg_type == Aggregated.AGG_ARNOLDI_BOX:
            op_transition.premode_center = lputil.get_box_center(t_lpi)
            if op_transition.premode_center is None:
                rv = False
        return rv

    def get_agg_type(self, op_list):
        return self._get_agg_type()

    def _get_agg_type(self):
        is_box = self.agg_type == Aggregated.AGG_BOX
        is_arnoldi_box = self.agg_type == Aggregated.AGG_ARNOLDI_BOX
        is_chull = self.agg_type == Aggregated.AGG_CONVEX_HULL
        return AggType(is_box, is_arnoldi_box, is_chull, self.add_guard)

    def get_deagg_node(self, aggdag):
        rv = None
        if self.deaggregate:
            node_to_transition = {}
            for op in aggdag.waiting_list:
                state = op.poststate
                if state.is_concrete:
                    continue
                if state.mode.is_error():
                    rv = op.parent_node
                if op.parent_node in node_to_transition:
                    transition = node_to_transition[op.parent_node]
                    if op.transition is not transition:
                        rv = op.parent_node
                else:
                    node_to_transition[op.parent_node] = op.transition
                    assert op.parent_node.node_left_invariant()
        if rv:
            ancestors = get_ancestors(rv)
            if self.deagg_preference == Aggregated.DEAGG_LEAVES_FIRST:
                ancestors.reverse()
            elif self.deagg_preference == Aggregated.DEAGG_MOST_STATES:
                count_parent_ops = lambda node: len(node.parent_ops)
                ancestors = reversed(sorted(ancestors, key=count_parent_ops))
            rv = None
            for node in ancestors:
                if len(node.parent_ops) > 1:
                    rv = node
                    break
            assert rv is not None, "didn't find aggregated ancestor?"
        return rv

def get_ancestors(node):
    rv = []
    if node.parent_ops[0].parent_node is not None:
        rv += get_ancestors(node.parent_ops[0].parent_node)
    rv.append(node)
    return rv
