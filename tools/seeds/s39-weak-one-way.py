RUST = True
PROPERTY = 'C32'
NEEDS = 'two opposite relations of which only one is weak'
BREAKS = 'opposite relations are only resolved when both are below the preserve threshold'
EDITS = [('features/discovery/fuzzy/fuzzy_miner.rs', 'if first_second_sig < preserve_threshold || second_first_sig < preserve_threshold {', 'if first_second_sig.max(second_first_sig) < preserve_threshold {')]
DEMO = r'''
use ficus_backend::event_log::simple::simple_event_log::SimpleEventLog;
use ficus_backend::features::discovery::fuzzy::fuzzy_miner::discover_graph_fuzzy;
fn main() {
    let mut raw = vec![vec!["a", "b"], vec!["a", "b"], vec!["b", "a"]];
    for _ in 0..9 { raw.push(vec!["b", "c"]); }
    let g = discover_graph_fuzzy(&SimpleEventLog::new(&raw), 0.0, 0.0, 0.8, 0.1, 1.0, 0.0, 0.0).to_default_graph();
    let mut edges: Vec<String> = g.all_edges().iter().map(|e| format!("{}{}", g.node(e.from_node()).unwrap().data().unwrap(), g.node(e.to_node()).unwrap().data().unwrap())).collect();
    edges.sort();
    assert_eq!(edges, vec!["ab", "bc"]);
}
'''
