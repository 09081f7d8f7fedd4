PROPERTY = 'C11'
NEEDS = 'a repeat set contained in sets of two sizes smaller than the largest'
BREAKS = 'a repeat set becomes the child of a larger set although a smaller one contains it'
EDITS = [('legacy/analysis/patterns/event_log_patterns.py', '        for level_index in range(len(nodes_by_level) - 1, -1, -1):', '        for level_index in range(len(nodes_by_level)):')]
DEMO = r'''
from python.ficus.legacy.log.functions import parse_log_from_strings
from python.ficus.legacy.analysis.patterns import event_log_patterns as p
from python.ficus.legacy.analysis.common.common_models import SubArrayInEventLog as S
log = parse_log_from_strings([' '.join('abcd')], ' ')
sets = p.create_repeat_sets(log, [[S(0, 4), S(0, 3), S(0, 2), S(0, 1)]])
roots = p.build_repeat_set_tree(log, sets, lambda s: str(s.length), 0)
ok = True

def walk(n):
    global ok
    for k in n.child_nodes:
        ok = ok and k.length == n.length - 1
        walk(k)
for r in roots:
    walk(r)
sys.exit(0 if ok and len(roots) == 1 else 1)
'''
