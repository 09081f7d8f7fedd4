PROPERTY = 'C20'
NEEDS = 'a short diagram of a trace with a gap of several events at the end'
BREAKS = 'the gap at the end of a trace has its full width in a short diagram'
EDITS = [('legacy/analysis/patterns/patterns_graphs.py', '''                width = ctx.rect_width
                if not draw_short_diagram:
                    width *= (len(real_trace) - last_drew_index)
''', '''                width = ctx.rect_width * (len(real_trace) - last_drew_index)
''')]
DEMO = r'''
import matplotlib
matplotlib.use('Agg')
from matplotlib import pyplot as plt
from python.ficus.legacy.log.functions import parse_log_from_strings
from python.ficus.legacy.analysis.patterns.patterns_graphs import draw_short_activity_diagram
from python.ficus.legacy.analysis.patterns.patterns_models import *
n = ActivityNode('x', None, {1}, [], 0)
log = parse_log_from_strings(['a b c d'], ' ')
keep = plt.Figure.show
plt.Figure.show = lambda self: None
draw_short_activity_diagram(log, [[ActivityInTraceInfo(n, 0, 1)]], {}, plot_legend=False)
ax = plt.gcf().axes[0]
ws = [round(q.get_extents().width) for c in ax.collections for q in c.get_paths()]
sys.exit(0 if ws == [1, 1] else 1)
'''
