RUST = True
PROPERTY = 'C24'
NEEDS = 'several ignored classes whose events alternate within a trace, and the fast implementation'
BREAKS = 'the positions of the ignored events are not in order, so that the wrong number of them is subtracted'
EDITS = [('features/analysis/entropy/pos_entropy_fast.rs', '        ordered_positions_of_ignored_events.sort();\n', '')]
DEMO = r'''
use ficus_backend::event_log::simple::simple_event_log::SimpleEventLog;
use ficus_backend::features::analysis::entropy::{pos_entropy::calculate_pos_entropies, pos_entropy_fast::calculate_pos_entropies_fast};
use std::collections::HashSet;
fn main() {
    for _ in 0..100 {
        let log = SimpleEventLog::new(&vec![vec!["x", "A", "y", "B", "z", "A"], vec!["z", "y", "B", "x", "A", "A"], vec!["A", "x", "z", "B", "y", "B"]]);
        let ignored: HashSet<String> = ["x", "y", "z"].iter().map(|s| s.to_string()).collect();
        let a = calculate_pos_entropies(&log, &Some(ignored.clone()));
        let b = calculate_pos_entropies_fast(&log, Some(&ignored));
        assert_eq!(a.len(), b.len());
        for (k, v) in a { assert!((v - b[&k]).abs() < 1e-9, "{}", k); }
    }
}
'''
