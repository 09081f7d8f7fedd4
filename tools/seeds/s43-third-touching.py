RUST = True
PROPERTY = 'C33'
NEEDS = 'three instances of one cluster in a trace, one touching the next'
BREAKS = 'after two touching instances became one, a third that touches them stays apart'
EDITS = [('features/clustering/activities/merging.rs', 'prev_activity.length += length;', 'prev_activity.length += length;\n                    index += 1;')]
DEMO = r'''
use ficus_backend::event_log::xes::{xes_event::XesEventImpl, xes_event_log::XesEventLogImpl, xes_trace::XesTraceImpl};
use ficus_backend::event_log::core::{event::event::Event, event_log::EventLog, trace::trace::Trace};
use ficus_backend::features::analysis::patterns::{activity_instances::ActivityInTraceInfo, repeat_sets::{ActivityNode, SubArrayWithTraceIndex}, tandem_arrays::SubArrayInTraceInfo};
use ficus_backend::features::clustering::activities::{activities_params::*, dbscan::clusterize_activities_dbscan};
use ficus_backend::features::clustering::common::CommonVisualizationParams;
use ficus_backend::utils::{colors::ColorsHolder, distance::distance::FicusDistance};
use std::{cell::RefCell, collections::HashSet, rc::Rc};
fn main() {
    let mut log = XesEventLogImpl::empty();
    let mut tr = XesTraceImpl::empty();
    for e in ["a", "b", "b", "a", "a", "b"] { tr.push(Rc::new(RefCell::new(XesEventImpl::new_with_min_date(e.to_string())))); }
    log.push(Rc::new(RefCell::new(tr)));
    let node = |name: &str, start: usize| Rc::new(RefCell::new(ActivityNode { repeat_set: Some(SubArrayWithTraceIndex::new(SubArrayInTraceInfo::new(start, 2), 0)),
        event_classes: HashSet::new(), children: vec![], level: 0, name: name.to_string() }));
    let (x, y) = (node("x", 0), node("y", 2));
    let mut inst = vec![vec![(&x, 0), (&y, 2), (&x, 4)].into_iter().map(|(n, s)| ActivityInTraceInfo { node: n.clone(), start_pos: s, length: 2 }).collect::<Vec<_>>()];
    let mut colors = ColorsHolder::empty();
    {
        let vis = ActivitiesVisualizationParams { common_vis_params: CommonVisualizationParams { log: &log, colors_holder: &mut colors, class_extractor: None },
            traces_activities: &mut inst, activity_level: 0, activities_repr_source: ActivityRepresentationSource::EventClasses };
        let mut p = ActivitiesClusteringParams::new(vis, 0.5, FicusDistance::L1).unwrap();
        clusterize_activities_dbscan(&mut p, 2).ok().unwrap();
    }
    assert_eq!(inst[0].iter().map(|i| (i.start_pos, i.length)).collect::<Vec<_>>(), vec![(0, 6)]);
}
'''
