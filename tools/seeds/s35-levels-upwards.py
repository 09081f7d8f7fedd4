RUST = True
PROPERTY = 'C29'
NEEDS = 'unattached stretches before and after an instance that exists already, more than one instance found before it, and a second pass'
BREAKS = 'filled instances are no longer in the order of the trace, so unattached events are taken twice'
EDITS = [('features/analysis/patterns/activity_instances.rs', 'new_trace_activities.sort_by(|first, second| first.start_pos.cmp(&second.start_pos));', 'new_trace_activities.sort_by(|first, second| (first.start_pos / 4).cmp(&(second.start_pos / 4)));')]
DEMO = r'''
use ficus_backend::features::analysis::patterns::activity_instances::{add_unattached_activities, ActivityInTraceFilterKind, ActivityInTraceInfo, ActivityNarrowingKind};
use ficus_backend::features::analysis::patterns::repeat_sets::ActivityNode;
use std::{cell::RefCell, rc::Rc};
fn node(name: &str, set: &[u64]) -> Rc<RefCell<ActivityNode>> {
    Rc::new(RefCell::new(ActivityNode { repeat_set: None, event_classes: set.iter().copied().collect(), children: vec![], level: 0, name: name.to_string() }))
}
fn main() {
    let mut acts = vec![node("x", &[2]), node("y", &[1])];
    let given = vec![vec![ActivityInTraceInfo { node: acts[0].clone(), start_pos: 1, length: 1 }]];
    let found = add_unattached_activities(&vec![vec![1, 2, 1, 2]], &mut acts, &given, 1, &ActivityNarrowingKind::DontNarrow, 0, &ActivityInTraceFilterKind::NoFilter);
    let at: Vec<usize> = found[0].iter().map(|i| i.start_pos).collect();
    assert_eq!(at, vec![0, 1, 2, 3]);
}
'''
