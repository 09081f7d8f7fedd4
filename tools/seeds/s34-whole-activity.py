RUST = True
PROPERTY = 'C29'
NEEDS = 'an activity of which only some classes were seen when an event outside it arrives, and a larger activity with the classes seen but not all of its classes'
BREAKS = 'the instance is closed where it should have grown into the larger activity'
EDITS = [('features/analysis/patterns/activity_instances.rs', 'let mut new_set = current_event_classes.clone();', 'let mut new_set = current_activity.as_ref().unwrap().borrow().event_classes.clone();')]
DEMO = r'''
use ficus_backend::features::analysis::patterns::activity_instances::{extract_activities_instances, ActivityInTraceFilterKind, ActivityNarrowingKind};
use ficus_backend::features::analysis::patterns::repeat_sets::ActivityNode;
use std::{cell::RefCell, rc::Rc};
fn node(name: &str, set: &[u64]) -> Rc<RefCell<ActivityNode>> {
    Rc::new(RefCell::new(ActivityNode { repeat_set: None, event_classes: set.iter().copied().collect(), children: vec![], level: 0, name: name.to_string() }))
}
fn main() {
    let mut acts = vec![node("x", &[1, 2]), node("y", &[1, 3, 4])];
    let found = extract_activities_instances(&vec![vec![1, 3, 4]], &mut acts, &ActivityNarrowingKind::DontNarrow, 0, &ActivityInTraceFilterKind::NoFilter);
    assert_eq!(found[0].len(), 1);
    assert_eq!(found[0][0].dump(), (0, 3));
    assert_eq!(found[0][0].node.borrow().name, "y");
}
'''
