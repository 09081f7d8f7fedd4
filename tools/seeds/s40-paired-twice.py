RUST = True
PROPERTY = 'C32'
NEEDS = 'a class that comes twice after one occurrence of another, and a rival relation with a proximity in between'
BREAKS = 'one occurrence of the first class is paired with every later occurrence of the second: proximities grow and the wrong relation is cut'
EDITS = [('features/discovery/fuzzy/fuzzy_metrics_provider.rs', '                        count += 1;\n                        last_seen_first = None;', '                        count += 1;')]
DEMO = r'''
use chrono::{DateTime, Duration, Utc};
use ficus_backend::event_log::core::event_log::EventLog;
use ficus_backend::event_log::core::trace::trace::Trace;
use ficus_backend::event_log::xes::{xes_event::XesEventImpl, xes_event_log::XesEventLogImpl, xes_trace::XesTraceImpl};
use ficus_backend::event_log::core::event::event::Event;
use ficus_backend::features::discovery::fuzzy::fuzzy_miner::discover_graph_fuzzy;
use std::{cell::RefCell, rc::Rc};
fn main() {
    let mut log = XesEventLogImpl::empty();
    for t in [vec![("a", 0), ("b", 10), ("b", 20)], vec![("c", 0), ("b", 12)]] {
        let mut tr = XesTraceImpl::empty();
        for (c, at) in t { tr.push(Rc::new(RefCell::new(XesEventImpl::new(c.to_string(), DateTime::<Utc>::UNIX_EPOCH + Duration::milliseconds(at))))); }
        log.push(Rc::new(RefCell::new(tr)));
    }
    let g = discover_graph_fuzzy(&log, 0.0, 0.0, 0.0, 0.0, 0.0, 0.9, 0.0).to_default_graph();
    let edges: Vec<String> = g.all_edges().iter().map(|e| format!("{}{}", g.node(e.from_node()).unwrap().data().unwrap(), g.node(e.to_node()).unwrap().data().unwrap())).collect();
    assert_eq!(edges, vec!["cb"]);
}
'''
