import math
from matplotlib import animation
from hylaa.util import Freezable
from hylaa import aggstrat

class HylaaSettings(Freezable):
    STDOUT_NONE, STDOUT_NORMAL, STDOUT_VERBOSE, STDOUT_DEBUG = range(4)
    APPROX_NONE, APPROX_CHULL, APPROX_LGG = range(3)

    def __init__(self, step_size, max_time):
        plot_settings = PlotSettings()
        self.step_size = step_size
        self.num_steps = int(math.ceil(max_time / step_size))
        self.plot = plot_settings
        self.stdout = HylaaSettings.STDOUT_NORMAL
        self.stdout_colors = [None, 'white', 'blue', 'yellow']
        self.process_urgent_guards = False
        self.do_guard_strengthening = True
        self.optimize_tt_transitions = True
        self.approx_model = HylaaSettings.APPROX_NONE
        self.skip_zero_dynamics_modes = True
        self.stop_on_aggregated_error = False
        self.stop_on_concrete_error = True
        self.make_counterexample = True
        self.aggstrat = aggstrat.Aggregated()
        self.random_seed = 0
        self.freeze_attrs()

class PlotSettings(Freezable):
    PLOT_NONE = 0
    PLOT_LIVE = 1
    PLOT_INTERACTIVE = 2
    PLOT_IMAGE = 3
    PLOT_VIDEO = 4

    def __init__(self):
        self.plot_mode = PlotSettings.PLOT_NONE
        self.store_plot_result = False
        self.filename = None
        self.plot_size = (8, 8)
        self.xdim_dir = 0
        self.ydim_dir = 1
        self.label = LabelSettings()
        self.extra_collections = None
        self.num_angles = 512
        self.draw_stride = 1
        self.reachable_poly_width = 2
        self.extend_plot_range_ratio = 0.1
        self.sim_line_color = 'black'
        self.sim_line_width = 0.2
        self.grid = True
        self.grid_xtics = None
        self.grid_ytics = None
        self.use_markers_for_small = True
        self.show_counterexample = True
        self.interactive_skip_count = 0
        self.video_fps = 40
        self.video_extra_frames = 40
        self.video_pause_frames = 20
        self.video_show_frame = True

        def make_video_writer():
            writer_class = animation.writers['ffmpeg']
            return writer_class(fps=self.video_fps, metadata=dict(artist='Me'), bitrate=1800)
        self.make_video_writer_func = make_video_writer
        self.freeze_attrs()

class LabelSettings(Freezable):

    def __init__(self):
        self.x_label = None
        self.y_label = None
        self.title = None
        self.title_size = 32
        self.label_size = 24
        self.tick_label_size = 18
        self.axes_limits = None
        self.freeze_attrs()

    def big(self, size=30):
        self.title_size = size
        self.label_size = size
        self.tick_label_size = int(0.8 * size)

    def turn_off(self):
        self.x_label = ''
        self.y_label = ''
        self.title = ''
