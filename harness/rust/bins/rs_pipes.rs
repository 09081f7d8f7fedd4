// Pipelines of parts, also nested, on one context: order, messages, errors, what the context holds afterwards.
#[path = "../../bins/common.rs"]
mod common;
use common::*;
use ficus_backend::event_log::core::event::event::Event;
use ficus_backend::event_log::core::event_log::EventLog;
use ficus_backend::event_log::core::trace::trace::Trace;
use ficus_backend::event_log::xes::{xes_event::XesEventImpl, xes_event_log::XesEventLogImpl, xes_trace::XesTraceImpl};
use ficus_backend::features::analysis::patterns::activity_instances::{ActivityNarrowingKind, AdjustingMode, ActivityInTraceFilterKind};
use ficus_backend::features::analysis::patterns::contexts::PatternsDiscoveryStrategy;
use ficus_backend::pipelines::activities_parts::{ActivitiesLogsSourceDto, UndefActivityHandlingStrategyDto};
use ficus_backend::pipelines::context::{LogMessageHandler, PipelineContext, PipelineInfrastructure};
use ficus_backend::pipelines::errors::pipeline_errors::{PipelinePartExecutionError, RawPartExecutionError};
use ficus_backend::pipelines::keys::context_keys::ContextKeys;
use ficus_backend::pipelines::patterns_parts::PatternsKindDto;
use ficus_backend::pipelines::pipeline_parts::PipelineParts;
use ficus_backend::pipelines::pipelines::{Pipeline, PipelinePart};
use ficus_backend::utils::user_data::keys::Key;
use ficus_backend::utils::user_data::user_data::{UserData, UserDataImpl};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
use std::str::FromStr;
use std::sync::{Arc, Mutex};

fn build(raw: &Vec<Vec<String>>) -> XesEventLogImpl {
    let mut log = XesEventLogImpl::empty();
    for t in raw {
        let mut tr = XesTraceImpl::empty();
        for e in t { tr.push(Rc::new(RefCell::new(XesEventImpl::new_with_min_date(e.clone())))); }
        log.push(Rc::new(RefCell::new(tr)));
    }
    log
}

struct Handler { msgs: Arc<Mutex<Vec<String>>>, fail: usize, names: Vec<String> }
impl LogMessageHandler for Handler {
    fn handle(&self, message: String) -> Result<(), PipelinePartExecutionError> {
        let mut m = self.msgs.lock().unwrap();
        let words: Vec<&str> = message.split(|c: char| !c.is_alphanumeric()).collect();
        let found = self.names.iter().find(|n| words.contains(&n.as_str())).cloned();
        m.push(found.unwrap_or("note".to_string()));
        if self.fail == m.len() { return Err(PipelinePartExecutionError::Raw(RawPartExecutionError::new("handler failed".to_string()))); }
        Ok(())
    }
}

fn pipeline(parts: &PipelineParts, keys: &ContextKeys, n: &Names, nodes: &Value) -> Pipeline {
    let mut pl = Pipeline::empty();
    for node in nodes.as_array().unwrap() {
        let mut cfg = UserDataImpl::new();
        for k in node["cfg"].as_array().unwrap() {
            let s = |f: &str, d: &str| node.get(f).and_then(|x| x.as_str()).unwrap_or(d).to_string();
            let u = |f: &str, d: u64| node.get(f).and_then(|x| x.as_u64()).unwrap_or(d) as u32;
            match k.as_str().unwrap() {
                "event_name" => cfg.put_concrete(keys.event_name().key(), n.name(&node["c"])),
                "regex" => cfg.put_concrete(keys.regex().key(), s("re", ".")),
                "event_class_regex" => cfg.put_concrete(keys.event_class_regex().key(), s("cls", ".*")),
                "events_count" => cfg.put_concrete(keys.events_count().key(), u("n", 0)),
                "pipeline" => cfg.put_concrete(keys.pipeline().key(), pipeline(parts, keys, n, node.get("sub").unwrap_or(&json!([])))),
                "activity_level" => cfg.put_concrete(keys.activity_level().key(), 0u32),
                "narrow_activities" => cfg.put_concrete(keys.narrow_activities().key(), ActivityNarrowingKind::from_str("DontNarrow").ok().unwrap()),
                "min_activity_length" => cfg.put_concrete(keys.min_activity_length().key(), 0u32),
                "activity_filter_kind" => cfg.put_concrete(keys.activity_filter_kind().key(), ActivityInTraceFilterKind::from_str("NoFilter").ok().unwrap()),
                "undef_activity_handling_strategy" => cfg.put_concrete(keys.undef_activity_handling_strategy().key(), UndefActivityHandlingStrategyDto::InsertAllEvents),
                "event_classes_regexes" => cfg.put_concrete(keys.event_classes_regexes().key(), vec![".*".to_string()]),
                "patterns_kind" => cfg.put_concrete(keys.patterns_kind().key(), PatternsKindDto::from_str(&s("kind", "MaximalRepeats")).ok().unwrap()),
                "adjusting_mode" => cfg.put_concrete(keys.adjusting_mode().key(), AdjustingMode::from_str(&s("adj", "FromAllLog")).ok().unwrap()),
                "patterns_discovery_strategy" => cfg.put_concrete(keys.patterns_discovery_strategy().key(), PatternsDiscoveryStrategy::FromAllTraces),
                "execute_only_on_last_extraction" => cfg.put_concrete(keys.execute_only_on_last_extraction().key(), false),
                "activities_logs_source" => cfg.put_concrete(keys.activities_logs_source().key(), ActivitiesLogsSourceDto::from_str(&s("source", "TracesActivities")).ok().unwrap()),
                "tandem_array_length" => cfg.put_concrete(keys.tandem_array_length().key(), 5u32),
                "path" => cfg.put_concrete(keys.path().key(), s("path", "out.tmp")),
                "pnml_use_names_as_ids" => cfg.put_concrete(keys.pnml_use_names_as_ids().key(), false),
                "dependency_threshold" => cfg.put_concrete(keys.dependency_threshold().key(), 0.5),
                "positive_observations_threshold" => cfg.put_concrete(keys.positive_observations_threshold().key(), 1u32),
                "relative_to_best_threshold" => cfg.put_concrete(keys.relative_to_best_threshold().key(), 0.5),
                "and_threshold" => cfg.put_concrete(keys.and_threshold().key(), 0.5),
                "loop_length_two_threshold" => cfg.put_concrete(keys.loop_length_two_threshold().key(), 0.5),
                "unary_frequency_threshold" => cfg.put_concrete(keys.unary_frequency_threshold().key(), 0.5),
                "binary_significance_threshold" => cfg.put_concrete(keys.binary_significance_threshold().key(), 0.5),
                "preserve_threshold" => cfg.put_concrete(keys.preserve_threshold().key(), 0.5),
                "ratio_threshold" => cfg.put_concrete(keys.ratio_threshold().key(), 0.5),
                "utility_rate" => cfg.put_concrete(keys.utility_rate().key(), 0.5),
                "edge_cutoff_threshold" => cfg.put_concrete(keys.edge_cutoff_threshold().key(), 0.5),
                "node_cutoff_threshold" => cfg.put_concrete(keys.node_cutoff_threshold().key(), 0.5),
                "terminate_on_unreplayable_traces" => cfg.put_concrete(keys.terminate_on_unreplayable_traces().key(), false),
                x => panic!("cfg {}", x),
            }
        }
        let f = parts.find_part(node["op"].as_str().unwrap()).expect("part");
        pl.push(Box::new(f(Box::new(cfg))));
    }
    pl
}

macro_rules! labels { ($keys:expr, $($k:ident),*) => { vec![$((stringify!($k), $keys.$k().key().name().clone())),*] } }
fn all_keys(keys: &ContextKeys) -> Vec<(&'static str, String)> {
    labels!(keys, event_log, patterns, hashes_event_log, activities, trace_activities, petri_net, names_event_log, path, event_log_info, colors_event_log,
        graph, underlying_events_count, event_name, regex, event_class_regex, events_count, pipeline, activity_level, narrow_activities, min_activity_length,
        activity_filter_kind, undef_activity_handling_strategy, event_classes_regexes, patterns_kind, adjusting_mode, patterns_discovery_strategy,
        execute_only_on_last_extraction, activities_logs_source, tandem_array_length, pnml_use_names_as_ids, dependency_threshold, positive_observations_threshold,
        relative_to_best_threshold, and_threshold, loop_length_two_threshold, unary_frequency_threshold, binary_significance_threshold, preserve_threshold,
        ratio_threshold, utility_rate, edge_cutoff_threshold, node_cutoff_threshold, terminate_on_unreplayable_traces, petri_net_count_annotation,
        petri_net_frequency_annotation, petri_net_trace_frequency_annotation)
}

fn id(n: &Names, s: &str) -> i64 { if s == "UNDEFINED_ACTIVITY" { -5 } else { n.id(s) } }

fn main() {
    let keys = ContextKeys::new();
    let parts = PipelineParts::new();
    let labels = all_keys(&keys);
    run(|case| {
        let n = Names::of(case);
        let mut ctx = PipelineContext::new_with_logging(&parts);
        if case["haslog"].as_bool().unwrap() { ctx.put_concrete(keys.event_log().key(), build(&n.log(&case["log"]))); }
        for k in case["given"].as_array().unwrap() {
            match k.as_str().unwrap() {
                "path" => ctx.put_concrete(keys.path().key(), "no such file".to_string()),
                x => panic!("given {}", x),
            }
        }
        let mut colors: HashMap<(u8, u8, u8), usize> = HashMap::new();
        colors.insert((0, 0, 0), 0);
        let mut steps = vec![];
        for s in case["steps"].as_array().unwrap() {
            let mut obs = guarded(|| {
                for k in s["drop"].as_array().unwrap() {
                    match k.as_str().unwrap() {
                        "event_log" => ctx.remove_concrete(keys.event_log().key()),
                        "patterns" => ctx.remove_concrete(keys.patterns().key()),
                        "hashes_event_log" => ctx.remove_concrete(keys.hashes_event_log().key()),
                        "activities" => ctx.remove_concrete(keys.activities().key()),
                        "trace_activities" => ctx.remove_concrete(keys.trace_activities().key()),
                        "petri_net" => ctx.remove_concrete(keys.petri_net().key()),
                        "names_event_log" => ctx.remove_concrete(keys.names_event_log().key()),
                        "path" => ctx.remove_concrete(keys.path().key()),
                        x => panic!("drop {}", x),
                    }
                }
                let pl = pipeline(&parts, &keys, &n, &s["prog"]);
                let msgs = Arc::new(Mutex::new(vec![]));
                fn ops(v: &Value, out: &mut Vec<String>) { for x in v.as_array().unwrap() { out.push(x["op"].as_str().unwrap().to_string()); if let Some(s) = x.get("sub") { ops(s, out); } } }
                let mut names = vec![];
                ops(&s["prog"], &mut names);
                let h = Handler { msgs: msgs.clone(), fail: s["fail"].as_u64().unwrap() as usize, names };
                let r = pl.execute(&mut ctx, &PipelineInfrastructure::new(Some(Arc::new(Box::new(h)))), &keys);
                let err = match r {
                    Ok(_) => "ok".to_string(),
                    Err(PipelinePartExecutionError::MissingContext(m)) => { let t = m.to_string(); format!("missing:{}", labels.iter().find(|l| t == l.1).map(|l| l.0).unwrap_or("?")) }
                    Err(PipelinePartExecutionError::Raw(m)) => if m.to_string() == "handler failed" { "handler".to_string() } else { "raw".to_string() },
                };
                let mut has = vec![];
                macro_rules! has { ($($k:ident),*) => { $(if ctx.concrete(keys.$k().key()).is_some() { has.push(stringify!($k)); })* } }
                has!(event_log, patterns, hashes_event_log, activities, trace_activities, petri_net, names_event_log, event_log_info, colors_event_log, graph, underlying_events_count);
                let log = ctx.concrete(keys.event_log().key()).map(|l| n.ids(&l.to_raw_vector())).unwrap_or(json!([]));
                let nlog = ctx.concrete(keys.names_event_log().key()).map(|l| n.ids(l)).unwrap_or(json!([]));
                let hlog = ctx.concrete(keys.hashes_event_log().key()).map(|l| json!(groups_by_hash(l.clone()))).unwrap_or(json!([]));
                let info = ctx.concrete(keys.event_log_info().key()).map(|i| {
                    let mut cl: Vec<i64> = vec![];
                    for c in i.all_event_classes() { for _ in 0..i.event_count(c) { cl.push(n.id(c)); } }
                    cl.sort();
                    json!(cl)
                }).unwrap_or(json!([]));
                let col = ctx.concrete(keys.colors_event_log().key()).map(|l| json!(l.iter().map(|t| t.iter().map(|r| {
                    let c = (r.color().red(), r.color().green(), r.color().blue());
                    let k = colors.len();
                    let k = *colors.entry(c).or_insert(k);
                    json!([id(&n, r.name()), r.start_pos(), r.len(), k])
                }).collect::<Vec<_>>()).collect::<Vec<_>>())).unwrap_or(json!([]));
                json!({"err": "", "res": err, "msgs": *msgs.lock().unwrap(), "has": has, "log": log, "names": nlog, "hashes": hlog, "info": info, "colors": col})
            });
            let dead = obs["err"] != "";
            if dead { obs["res"] = json!("panic"); }
            steps.push(with(s, obs));
            if dead { break; }
        }
        json!({"t": case["t"], "given": case["given"], "haslog": case["haslog"], "log": n.ids(&n.log(&case["log"])), "steps": steps})
    });
}
