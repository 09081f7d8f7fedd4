RUST = True
PROPERTY = 'C27'
NEEDS = 'a trace in which the same transition fires more than once'
BREAKS = 'arcs are counted once per trace, not once per firing'
EDITS = [('features/discovery/petri_net/annotations.rs', '            for fired_transition in state.fired_transitions() {', '            for fired_transition in state.fired_transitions().iter().collect::<std::collections::HashSet<_>>() {')]
DEMO = r'''
use ficus_backend::event_log::simple::simple_event_log::SimpleEventLog;
use ficus_backend::features::discovery::petri_net::annotations::annotate_with_counts;
use ficus_backend::features::discovery::petri_net::marking::{Marking, SingleMarking};
use ficus_backend::features::discovery::petri_net::petri_net::DefaultPetriNet;
use ficus_backend::features::discovery::petri_net::place::Place;
use ficus_backend::features::discovery::petri_net::transition::Transition;
fn main() {
    let mut net = DefaultPetriNet::empty();
    let p = net.add_place(Place::with_name("p".to_string()));
    let t = net.add_transition(Transition::empty("A".to_string(), false, Some("A".to_string())));
    net.connect_place_to_transition(&p, &t, None);
    net.connect_transition_to_place(&t, &p, None);
    net.set_initial_marking(Marking::new(vec![SingleMarking::new(p, 1)]));
    let log = SimpleEventLog::new(&vec![vec!["A", "A", "A"], vec!["A"]]);
    let counts = annotate_with_counts(&log, &net, true).unwrap();
    assert_eq!(counts.len(), 2);
    assert!(counts.values().all(|c| *c == 4));
}
'''
