RUST = True
PROPERTY = 'C23'
NEEDS = 'two traces of the same length that differ in their last event only'
BREAKS = 'traces that differ only at the end are taken for one variant'
EDITS = [('features/mutations/split.rs', '        if index >= traces[0].trace.borrow().events().len() {', '        if index + 1 >= traces[0].trace.borrow().events().len().max(2) {')]
DEMO = r'''
use ficus_backend::event_log::simple::simple_event_log::SimpleEventLog;
use ficus_backend::features::mutations::split::get_traces_groups_indices;
fn main() {
    let log = SimpleEventLog::new(&vec![vec!["A", "B", "C"], vec!["A", "B", "D"], vec!["A", "B", "C"]]);
    assert_eq!(get_traces_groups_indices(&log), vec![vec![0, 2], vec![1]]);
}
'''
