PROPERTY = 'C21'
NEEDS = 'class trees of three layers in which one class of the middle layer has the name of a class of the lowest'
BREAKS = 'classes of a later layer are grouped with the classes found first, not with those of the layer below'
EDITS = [('legacy/analysis/patterns/event_log_patterns.py', '''        for prev_layer_node in nodes_by_level[-1]:
            node_name = extractor(prev_layer_node.name)
''', '''        for prev_layer_node in nodes_by_level[-1]:
            node_name = extractor(prev_layer_node.child_nodes[0].name if len(prev_layer_node.child_nodes) == 1 else prev_layer_node.name)
''')]
NEEDS = 'two extractors in a row, where a class of the first layer holds one class'
BREAKS = 'the second extractor is given the event name instead of the class of the layer below when there is only one'
DEMO = r'''
from python.ficus.legacy.log.functions import parse_log_from_strings
from python.ficus.legacy.analysis.patterns.event_log_patterns import build_class_tree
log = parse_log_from_strings(['ab'], ' ')
r = build_class_tree(log, [lambda s: s[0], lambda s: s * 2])
sys.exit(0 if [n.name for n in r] == ['aa'] else 1)
'''
