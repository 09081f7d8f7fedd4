PROPERTY = 'C10'
NEEDS = 'two maximal repeats that differ in the first class, whose hashes end with the same digits'
BREAKS = 'containment of repeats is decided on the digits of the hashes of the classes'
EDITS = [('legacy/analysis/patterns/event_log_patterns.py', '''        tree = Tree(index_to_repeats)
        this_trace''', '''        texts = {index: ','.join(map(str, sub_trace)) for index, sub_trace in index_to_repeats.items()}
        this_trace'''), ('legacy/analysis/patterns/event_log_patterns.py', '''            if len(tree.find_all(sub_trace)) == 1:''', '''            if sum(1 for text in texts.values() if texts[index] in text) == 1:''')]
DEMO = r'''
from python.ficus.legacy.log.functions import parse_log_from_strings
from python.ficus.legacy.analysis.patterns import event_log_patterns as p
from python.ficus.legacy.util import calculate_string_poly_hash as h
import itertools, string
q = next(''.join(x) for x in itertools.product(string.ascii_lowercase, repeat=2) if str(h(''.join(x))).endswith(str(h('a'))))
log = parse_log_from_strings(['1 a x 2 a x 3 %s x 4 %s x 5' % (q, q)], ' ')
r = p.find_super_maximal_repeats(log)[0]
got = {tuple(e['concept:name'] for e in log[0][s.first_pos:s.first_pos + s.length]) for s in r}
sys.exit(0 if got == {('a', 'x'), (q, 'x')} else 1)
'''
