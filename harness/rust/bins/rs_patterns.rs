// Loops, repeats and suffix trees of the backend.
#[path = "../../bins/common.rs"]
mod common;
use common::*;
use ficus_backend::event_log::core::event::event::Event;
use ficus_backend::event_log::core::event::event_hasher::{default_class_extractor_name, NameEventHasher, RegexEventHasher};
use ficus_backend::event_log::core::event_log::EventLog;
use ficus_backend::event_log::core::trace::trace::Trace;
use ficus_backend::event_log::xes::{xes_event::XesEventImpl, xes_event_log::XesEventLogImpl, xes_trace::XesTraceImpl};
use ficus_backend::features::analysis::patterns::contexts::*;
use ficus_backend::features::analysis::patterns::entry_points::{find_patterns, PatternsKind};
use ficus_backend::features::analysis::patterns::repeats::*;
use ficus_backend::features::analysis::patterns::tandem_arrays::*;
use ficus_backend::pipelines::context::{PipelineContext, PipelineInfrastructure};
use ficus_backend::pipelines::keys::context_keys::ContextKeys;
use ficus_backend::pipelines::pipeline_parts::PipelineParts;
use ficus_backend::pipelines::pipelines::{Pipeline, PipelinePart};
use ficus_backend::utils::suffix_tree::suffix_tree_patterns::SuffixTree;
use ficus_backend::utils::suffix_tree::suffix_tree_slice::*;
use ficus_backend::utils::user_data::user_data::{UserData, UserDataImpl};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::rc::Rc;

fn build(raw: &Vec<Vec<String>>) -> XesEventLogImpl {
    let mut log = XesEventLogImpl::empty();
    for t in raw {
        let mut tr = XesTraceImpl::empty();
        for e in t { tr.push(Rc::new(RefCell::new(XesEventImpl::new_with_min_date(e.clone())))); }
        log.push(Rc::new(RefCell::new(tr)));
    }
    log
}

fn subs(r: &Vec<Vec<SubArrayInTraceInfo>>) -> Value {
    json!(r.iter().map(|t| t.iter().map(|s| json!([s.start_index, s.length])).collect::<Vec<_>>()).collect::<Vec<_>>())
}

fn main() {
    let keys = ContextKeys::new();
    let parts = PipelineParts::new();
    run(|case| {
        let n = Names::of(case);
        let raw = n.log(&case["log"]);
        let mut steps = vec![];
        for s in case["steps"].as_array().unwrap() {
            let obs = guarded(|| {
                let op = s["op"].as_str().unwrap();
                let how = s["how"].as_str().unwrap();
                let strategy = if s["merged"].as_bool().unwrap() { PatternsDiscoveryStrategy::FromSingleMergedTrace } else { PatternsDiscoveryStrategy::FromAllTraces };
                let bound = s["bound"].as_u64().unwrap() as usize;
                let re = s.get("cls").map(|x| x.as_str().unwrap().to_string());
                let log = build(&raw);
                let hashed = match &re {
                    Some(r) => log.to_hashes_event_log(&RegexEventHasher::new(r).ok().unwrap()),
                    None => log.to_hashes_event_log(&NameEventHasher::new()),
                };
                if op == "words" {
                    // where a word occurs in the traces, as the suffix tree of all of them says
                    let word: Vec<u64> = s["word"].as_array().unwrap().iter().map(|x| default_class_extractor_name(&n.name(x))).collect();
                    let found = if s["merged"].as_bool().unwrap() {
                        let slice = MultipleWordsSuffixTreeSlice::new(hashed.iter().map(|t| t.as_slice()).collect());
                        let mut tree = SuffixTree::new(&slice);
                        tree.build_tree();
                        tree.find_patterns(&word)
                    } else {
                        let slice = SingleWordSuffixTreeSlice::new(hashed[0].as_slice());
                        let mut tree = SuffixTree::new(&slice);
                        tree.build_tree();
                        tree.find_patterns(&word)
                    };
                    return match found {
                        None => json!({"err": "", "none": true, "res": []}),
                        Some(v) => json!({"err": "", "none": false, "res": v.iter().map(|x| json!([x.0, x.1])).collect::<Vec<_>>()}),
                    };
                }
                let mut counts = json!([]);
                let res = match how {
                    "fn" => match op {
                        "tandem_max" => {
                            counts = json!(find_maximal_tandem_arrays_with_length(&hashed, bound).borrow().iter().map(|t| t.iter().map(|a| json!([a.dump().0, a.dump().1, a.dump().2])).collect::<Vec<_>>()).collect::<Vec<_>>());
                            find_maximal_tandem_arrays(&hashed, bound)
                        }
                        "tandem_prim" => {
                            counts = json!(find_primitive_tandem_arrays_with_length(&hashed, bound).borrow().iter().map(|t| t.iter().map(|a| json!([*a.get_sub_array_info().get_start_index(), *a.get_sub_array_info().get_length(), *a.get_repeat_count()])).collect::<Vec<_>>()).collect::<Vec<_>>());
                            find_primitive_tandem_arrays(&hashed, bound)
                        }
                        "maximal" => find_maximal_repeats(&hashed, &strategy),
                        "super" => find_super_maximal_repeats(&hashed, &strategy),
                        _ => find_near_super_maximal_repeats(&hashed, &strategy),
                    },
                    "ctx" => {
                        let kind = match op {
                            "tandem_max" => PatternsKind::MaximalTandemArrays(bound), "tandem_prim" => PatternsKind::PrimitiveTandemArrays(bound),
                            "maximal" => PatternsKind::MaximalRepeats, "super" => PatternsKind::SuperMaximalRepeats, _ => PatternsKind::NearSuperMaximalRepeats };
                        let hasher = re.as_ref().map(|r| RegexEventHasher::new(r).ok().unwrap());
                        find_patterns(&PatternsDiscoveryContext::new(Rc::new(RefCell::new(build(&raw))), kind, strategy,
                            |e: &XesEventImpl| match &hasher { Some(h) => h.hash_name(e.name()), None => default_class_extractor_name(e.name()) }))
                    }
                    _ => {
                        let name = match op { "tandem_max" => "FindMaximalTandemArrays", "tandem_prim" => "FindPrimitiveTandemArrays",
                            "maximal" => "FindMaximalRepeats", "super" => "FindSuperMaximalRepeats", _ => "FindNearSuperMaximalRepeats" };
                        let mut cfg = UserDataImpl::new();
                        cfg.put_concrete(keys.tandem_array_length().key(), bound as u32);
                        cfg.put_concrete(keys.patterns_discovery_strategy().key(), strategy);
                        if let Some(r) = &re { cfg.put_concrete(keys.event_class_regex().key(), r.clone()); }
                        let mut ctx = PipelineContext::new_with_logging(&parts);
                        ctx.put_concrete(keys.event_log().key(), build(&raw));
                        let mut pl = Pipeline::empty();
                        pl.push(Box::new((parts.find_part(name).expect("part"))(Box::new(cfg))));
                        if let Err(e) = pl.execute(&mut ctx, &PipelineInfrastructure::new(None), &keys) { panic!("part failed: {}", e) }
                        assert!(ctx.concrete(keys.hashes_event_log().key()).unwrap() == &hashed, "hashed log of the context");
                        assert!(ctx.concrete(keys.event_log().key()).unwrap().to_raw_vector() == raw, "log of the context");
                        ctx.concrete(keys.patterns().key()).unwrap().clone()
                    }
                };
                json!({"err": "", "res": subs(&res), "counts": counts})
            });
            steps.push(with(s, obs));
        }
        json!({"t": case["t"], "log": case["log"], "steps": steps})
    });
}
