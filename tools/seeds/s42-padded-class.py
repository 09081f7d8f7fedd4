RUST = True
PROPERTY = 'C33'
NEEDS = 'edit distances; traces that differ by events of the first class of the log at their end'
BREAKS = 'the first class is written with the number that fills up shorter traces'
EDITS = [('features/clustering/traces/dbscan.rs', 'all_event_classes.len() + 1', 'all_event_classes.len()')]
DEMO = r'''
use ficus_backend::event_log::xes::{xes_event::XesEventImpl, xes_event_log::XesEventLogImpl, xes_trace::XesTraceImpl};
use ficus_backend::event_log::core::{event::event::Event, event_log::EventLog, trace::trace::Trace};
use ficus_backend::features::clustering::common::CommonVisualizationParams;
use ficus_backend::features::clustering::traces::dbscan::clusterize_log_by_traces_dbscan;
use ficus_backend::features::clustering::traces::traces_params::{TracesClusteringParams, TracesRepresentationSource};
use ficus_backend::utils::{colors::ColorsHolder, distance::distance::FicusDistance};
use std::{cell::RefCell, rc::Rc};
fn main() {
    let mut log = XesEventLogImpl::empty();
    for t in [vec!["a", "b"], vec!["a", "b"], vec!["a", "b", "a", "a"], vec!["a", "b", "a", "a"]] {
        let mut tr = XesTraceImpl::empty();
        for e in t { tr.push(Rc::new(RefCell::new(XesEventImpl::new_with_min_date(e.to_string())))); }
        log.push(Rc::new(RefCell::new(tr)));
    }
    let mut colors = ColorsHolder::empty();
    let mut p = TracesClusteringParams { vis_params: CommonVisualizationParams { log: &log, colors_holder: &mut colors, class_extractor: None },
        tolerance: 0.5, distance: FicusDistance::Levenshtein, repr_source: TracesRepresentationSource::Events };
    let (logs, d) = clusterize_log_by_traces_dbscan(&mut p, 2).ok().unwrap();
    assert_eq!(logs.len(), 2);
    assert_eq!(*d.labels(), vec![1, 1, 2, 2]);
}
'''
