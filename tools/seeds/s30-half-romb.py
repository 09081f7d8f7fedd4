RUST = True
PROPERTY = 'C26'
NEEDS = 'concurrent classes A and B where A B A occurs and B A B does not'
BREAKS = 'a loop of length two is seen where one of the classes merely repeats around the other'
EDITS = [('features/discovery/alpha/providers/alpha_plus_provider.rs', 'self.triangle_relation(first, second) && self.triangle_relation(second, first)', 'self.triangle_relation(first, second) || self.triangle_relation(second, first)')]
DEMO = r'''
use ficus_backend::event_log::simple::simple_event_log::SimpleEventLog;
use ficus_backend::features::analysis::event_log_info::{EventLogInfo, EventLogInfoCreationDto};
use ficus_backend::features::discovery::alpha::alpha::{discover_petri_net_alpha_plus, find_transitions_one_length_loop};
use ficus_backend::features::discovery::alpha::providers::alpha_plus_provider::AlphaPlusRelationsProviderImpl;
fn main() {
    let log = SimpleEventLog::new(&vec![vec!["S", "A", "B", "A", "E"]]);
    let loops = find_transitions_one_length_loop(&log);
    let info = EventLogInfo::create_from(EventLogInfoCreationDto::default_ignore(&log, &loops));
    let provider = AlphaPlusRelationsProviderImpl::new(&info, &log, &loops);
    let net = discover_petri_net_alpha_plus(&log, &provider, false);
    let b = net.find_transition_by_name("B").unwrap();
    assert!(b.incoming_arcs().len() == 0 && b.outgoing_arcs().len() == 0);
}
'''
