// Activities: hierarchy, instances, unattached events, abstraction and back, logs per activity; all through parts on one
// context, trees also given directly.
#[path = "../../bins/common.rs"]
mod common;
use chrono::{DateTime, Duration, Utc};
use common::*;
use ficus_backend::event_log::core::event::event::Event;
use ficus_backend::event_log::core::event::event_hasher::{EventHasher, NameEventHasher, RegexEventHasher};
use ficus_backend::event_log::core::event_log::EventLog;
use ficus_backend::event_log::core::trace::trace::Trace;
use ficus_backend::event_log::xes::{xes_event::XesEventImpl, xes_event_log::XesEventLogImpl, xes_trace::XesTraceImpl};
use ficus_backend::features::analysis::patterns::activity_instances::{
    count_underlying_events, create_log_from_unattached_events, create_logs_for_activities, create_vector_of_immediate_underlying_events, create_vector_of_underlying_events,
    ActivitiesLogSource, ActivityInTraceFilterKind, ActivityInTraceInfo, ActivityNarrowingKind, AdjustingMode,
};
use ficus_backend::features::analysis::patterns::contexts::PatternsDiscoveryStrategy;
use ficus_backend::features::analysis::patterns::repeat_sets::ActivityNode;
use ficus_backend::features::clustering::activities::activities_params::ActivityRepresentationSource;
use ficus_backend::features::clustering::common::CommonVisualizationParams;
use ficus_backend::features::clustering::traces::dbscan::clusterize_log_by_traces_dbscan;
use ficus_backend::features::clustering::traces::traces_params::{TracesClusteringParams, TracesRepresentationSource};
use ficus_backend::utils::colors::{Color, ColorsHolder};
use ficus_backend::utils::dataset::dataset::{FicusDataset, LabeledDataset};
use ficus_backend::utils::distance::distance::FicusDistance;
use ficus_backend::pipelines::activities_parts::{ActivitiesLogsSourceDto, UndefActivityHandlingStrategyDto};
use ficus_backend::pipelines::context::{LogMessageHandler, PipelineContext, PipelineInfrastructure};
use ficus_backend::pipelines::errors::pipeline_errors::PipelinePartExecutionError;
use ficus_backend::pipelines::keys::context_keys::ContextKeys;
use ficus_backend::pipelines::patterns_parts::PatternsKindDto;
use ficus_backend::pipelines::pipeline_parts::PipelineParts;
use ficus_backend::pipelines::pipelines::{Pipeline, PipelinePart};
use ficus_backend::utils::user_data::user_data::{UserData, UserDataImpl};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
use std::str::FromStr;
use std::sync::{Arc, Mutex};

type Node = Rc<RefCell<ActivityNode>>;
fn base() -> DateTime<Utc> { DateTime::<Utc>::UNIX_EPOCH }

struct World { names: Names, more: Vec<String>, hashes: Vec<u64>, nodes: Vec<Node> }
impl World {
    fn id(&mut self, s: &str) -> i64 {
        if s == "UNDEFINED_ACTIVITY" { return -3; }
        if let Some(p) = self.names.names.iter().position(|x| x == s) { return p as i64; }
        if let Some(p) = self.more.iter().position(|x| x == s) { return 1000 + p as i64; }
        self.more.push(s.to_string());
        999 + self.more.len() as i64
    }
    fn label(&mut self, h: u64) -> i64 {
        if let Some(p) = self.hashes.iter().position(|x| *x == h) { return p as i64; }
        self.hashes.push(h);
        self.hashes.len() as i64 - 1
    }
    fn labels(&mut self, l: &Vec<Vec<u64>>) -> Value { json!(l.iter().map(|t| t.iter().map(|h| self.label(*h)).collect::<Vec<_>>()).collect::<Vec<_>>()) }
    fn node(&mut self, n: &Node) -> usize {
        if let Some(p) = self.nodes.iter().position(|x| Rc::ptr_eq(x, n)) { return p + 1; }
        self.nodes.push(Rc::clone(n));
        let kids = n.borrow().children.clone();
        let at = self.nodes.len();
        for k in kids.iter() { self.node(k); }
        at
    }
    fn event(&mut self, e: &Rc<RefCell<XesEventImpl>>) -> Value {
        let under = create_vector_of_immediate_underlying_events::<XesEventLogImpl>(e);
        let c = self.id(&e.borrow().name().clone());
        if under.len() == 1 && Rc::ptr_eq(&under[0], e) {
            let s = (*e.borrow().timestamp() - base()).num_seconds();
            return json!([c, if s > 0 && s < 1000000 { s } else { 0 }, []]);
        }
        json!([c, 0, under.iter().map(|x| self.event(x)).collect::<Vec<_>>()])
    }
    fn events(&mut self, l: &XesEventLogImpl) -> Value {
        json!(l.traces().iter().map(|t| t.borrow().events().iter().map(|e| self.event(e)).collect::<Vec<_>>()).collect::<Vec<_>>())
    }
    fn inst(&mut self, l: &Vec<Vec<ActivityInTraceInfo>>) -> Value {
        json!(l.iter().map(|t| t.iter().map(|i| json!([self.node(&i.node), i.start_pos, i.length])).collect::<Vec<_>>()).collect::<Vec<_>>())
    }
    fn table(&mut self) -> Value {
        let mut all: Vec<String> = self.nodes.iter().map(|n| n.borrow().name.clone()).collect();
        all.sort();
        all.dedup();
        let nodes = self.nodes.clone();
        json!(nodes.iter().map(|n| {
            let b = n.borrow();
            let mut set: Vec<i64> = b.event_classes.iter().map(|h| self.label(*h)).collect();
            set.sort();
            let rep = match b.repeat_set { Some(r) => json!([r.trace_index, r.sub_array.start_index, r.sub_array.length]), None => json!([]) };
            json!({"set": set, "rank": all.iter().position(|x| *x == b.name).unwrap(), "level": b.level, "nc": self.id(&b.name), "uc": 0, "name": b.name,
                   "kids": b.children.iter().map(|c| self.node(c)).collect::<Vec<_>>(), "rep": rep})
        }).collect::<Vec<_>>())
    }
}

struct Notes { out: Arc<Mutex<Vec<String>>> }
impl LogMessageHandler for Notes {
    fn handle(&self, m: String) -> Result<(), PipelinePartExecutionError> { self.out.lock().unwrap().push(m); Ok(()) }
}

fn undef(s: &str) -> UndefActivityHandlingStrategyDto { UndefActivityHandlingStrategyDto::from_str(s).ok().unwrap() }
fn str<'a>(s: &'a Value, f: &str, d: &'a str) -> &'a str { s.get(f).and_then(|x| x.as_str()).unwrap_or(d) }
fn num(s: &Value, f: &str) -> u32 { s.get(f).and_then(|x| x.as_u64()).unwrap_or(0) as u32 }

fn config(keys: &ContextKeys, s: &Value) -> UserDataImpl {
    let mut c = UserDataImpl::new();
    c.put_concrete(keys.activity_level().key(), num(s, "level"));
    c.put_concrete(keys.narrow_activities().key(), ActivityNarrowingKind::from_str(str(s, "narrow", "DontNarrow")).ok().unwrap());
    c.put_concrete(keys.min_activity_length().key(), num(s, "min"));
    c.put_concrete(keys.activity_filter_kind().key(), ActivityInTraceFilterKind::from_str(str(s, "filter", "NoFilter")).ok().unwrap());
    c.put_concrete(keys.events_count().key(), num(s, "gap"));
    c.put_concrete(keys.undef_activity_handling_strategy().key(), undef(str(s, "undef", "InsertAllEvents")));
    c.put_concrete(keys.patterns_kind().key(), PatternsKindDto::from_str(str(s, "kind", "MaximalRepeats")).ok().unwrap());
    c.put_concrete(keys.patterns_discovery_strategy().key(), PatternsDiscoveryStrategy::from_str(str(s, "strat", "FromAllTraces")).ok().unwrap());
    c.put_concrete(keys.tandem_array_length().key(), num(s, "bound").max(1));
    c.put_concrete(keys.adjusting_mode().key(), AdjustingMode::from_str(str(s, "adj", "FromAllLog")).ok().unwrap());
    c.put_concrete(keys.execute_only_on_last_extraction().key(), s.get("only").and_then(|x| x.as_bool()).unwrap_or(false));
    c.put_concrete(keys.activities_logs_source().key(), ActivitiesLogsSourceDto::from_str(str(s, "source", "Log")).ok().unwrap());
    if let Some(x) = s.get("cls").and_then(|x| x.as_str()) { c.put_concrete(keys.event_class_regex().key(), x.to_string()); }
    if let Some(x) = s.get("levels").and_then(|x| x.as_array()) {
        c.put_concrete(keys.event_classes_regexes().key(), x.iter().map(|y| y.as_str().unwrap().to_string()).collect::<Vec<_>>());
    }
    c
}

/// what clustering needs; tolerances are odd numbers over a unit of the distance
fn clustering(keys: &ContextKeys, s: &Value) -> UserDataImpl {
    let mut c = UserDataImpl::new();
    c.put_concrete(keys.activity_level().key(), num(s, "level"));
    c.put_concrete(keys.tolerance().key(), tolerance(s));
    c.put_concrete(keys.distance().key(), FicusDistance::from_str(str(s, "dist", "L1")).ok().unwrap());
    c.put_concrete(keys.activities_repr_source().key(), ActivityRepresentationSource::from_str(str(s, "src", "EventClasses")).ok().unwrap());
    c.put_concrete(keys.traces_representation_source().key(), TracesRepresentationSource::from_str(str(s, "tsrc", "Events")).ok().unwrap());
    c.put_concrete(keys.min_events_in_clusters_count().key(), num(s, "mp"));
    c.put_concrete(keys.clusters_count().key(), num(s, "k"));
    c.put_concrete(keys.learning_iterations_count().key(), num(s, "n"));
    if let Some(x) = s.get("cls").and_then(|x| x.as_str()) { c.put_concrete(keys.event_class_regex().key(), x.to_string()); }
    c
}
fn tolerance(s: &Value) -> f64 { s["tol"].as_f64().unwrap() / match str(s, "dist", "L1") { "Cosine" => 97.0, "Levenshtein" => 2.0, _ => 12.0 } }

impl World {
    fn index(s: &str, prefix: &str) -> i64 { s.strip_prefix(prefix).and_then(|x| x.parse().ok()).unwrap_or(-99) }
    fn dataset(&mut self, d: &FicusDataset, traces: bool, lev: bool) -> Value {
        let f = if lev { 1.0 } else { 6.0 };
        json!({"rows": d.row_names().iter().map(|x| if traces { World::index(x, "Trace_") } else { self.id(x) }).collect::<Vec<_>>(),
               "cols": d.columns_names().iter().map(|x| if lev { World::index(x, "Symbol_") } else { self.id(x) }).collect::<Vec<_>>(),
               "vals": d.values().iter().map(|r| r.iter().map(|x| (x * f).round() as i64).collect::<Vec<_>>()).collect::<Vec<_>>(),
               "exact": d.values().iter().all(|r| r.iter().all(|x| (x * f - (x * f).round()).abs() < 1e-9))})
    }
    fn labeled(&mut self, d: &LabeledDataset, traces: bool, lev: bool) -> Value {
        let mut o = self.dataset(d.dataset(), traces, lev);
        let mut seen: Vec<Color> = vec![];
        o["labels"] = json!(d.labels());
        o["colors"] = json!(d.colors().iter().map(|c| match seen.iter().position(|x| x == c) { Some(p) => p, None => { seen.push(*c); seen.len() - 1 } }).collect::<Vec<_>>());
        o
    }
}

fn tried(parts: &PipelineParts, keys: &ContextKeys, ctx: &mut PipelineContext, op: &str, cfg: UserDataImpl, notes: &Arc<Mutex<Vec<String>>>) -> bool {
    let mut pl = Pipeline::empty();
    pl.push(Box::new(parts.find_part(op).expect("part")(Box::new(cfg))));
    pl.execute(ctx, &PipelineInfrastructure::new(Some(Arc::new(Box::new(Notes { out: notes.clone() })))), keys).is_ok()
}
fn sizes(notes: &Arc<Mutex<Vec<String>>>) -> Vec<usize> {
    let mut v: Vec<usize> = notes.lock().unwrap().iter().filter(|x| x.starts_with("Number of underlying")).map(|x| x.rsplit(' ').next().unwrap().parse().unwrap()).collect();
    v.sort();
    v
}

fn exec(parts: &PipelineParts, keys: &ContextKeys, ctx: &mut PipelineContext, op: &str, cfg: UserDataImpl, notes: &Arc<Mutex<Vec<String>>>) {
    let mut pl = Pipeline::empty();
    pl.push(Box::new(parts.find_part(op).expect("part")(Box::new(cfg))));
    let r = pl.execute(ctx, &PipelineInfrastructure::new(Some(Arc::new(Box::new(Notes { out: notes.clone() })))), keys);
    if let Err(e) = r { panic!("part failed: {}", e); }
}

fn find(parts: &PipelineParts, keys: &ContextKeys, ctx: &mut PipelineContext, s: &Value, notes: &Arc<Mutex<Vec<String>>>) {
    exec(parts, keys, ctx, &format!("Find{}", str(s, "kind", "MaximalRepeats")), config(keys, s), notes);
}

fn hashed(log: &XesEventLogImpl, s: &Value) -> Vec<Vec<u64>> {
    match s.get("cls").and_then(|x| x.as_str()).filter(|_| s.get("bad").is_none()) {
        Some(r) => log.to_hashes_event_log(&RegexEventHasher::new(&r.to_string()).ok().unwrap()),
        None => log.to_hashes_event_log(&NameEventHasher::new()),
    }
}

fn content(w: &mut World, inst: &Vec<Vec<ActivityInTraceInfo>>) -> Value {
    json!(inst.iter().map(|t| t.iter().map(|i| { let n = i.node.borrow(); json!([w.id(&n.name), n.level, i.start_pos, i.length]) }).collect::<Vec<_>>()).collect::<Vec<_>>())
}

fn plain(s: &Value) -> Value { let mut p = s.clone(); p.as_object_mut().unwrap().remove("levels"); p }

fn main() {
    let keys = ContextKeys::new();
    let parts = PipelineParts::new();
    run(|case| {
        let mut w = World { names: Names::of(case), more: vec![], hashes: vec![], nodes: vec![] };
        let mut ctx = PipelineContext::new_with_logging(&parts);
        let mut log = XesEventLogImpl::empty();
        let mut k = 0;
        for t in w.names.log(&case["log"]) {
            let mut tr = XesTraceImpl::empty();
            for e in t { k += 1; tr.push(Rc::new(RefCell::new(XesEventImpl::new(e, base() + Duration::seconds(k))))); }
            log.push(Rc::new(RefCell::new(tr)));
        }
        for i in 0..w.names.names.len() {
            let h = NameEventHasher::new().hash(&XesEventImpl::new_with_min_date(w.names.names[i].clone()));
            w.label(h);
        }
        let first = w.events(&log);
        ctx.put_concrete(keys.event_log().key(), log);
        ctx.put_concrete(keys.colors_holder().key(), ColorsHolder::empty());
        let mut steps = vec![];
        for s in case["steps"].as_array().unwrap() {
            let mut keep: Vec<Node> = vec![];
            let obs = guarded(|| {
                let notes = Arc::new(Mutex::new(vec![]));
                let mut extra = json!({});
                let op = s["op"].as_str().unwrap();
                match op {
                    "given" => {
                        let h: Vec<u64> = w.hashes.clone();
                        let nodes: Vec<Node> = s["nodes"].as_array().unwrap().iter().map(|n| Rc::new(RefCell::new(ActivityNode {
                            repeat_set: None, event_classes: n["set"].as_array().unwrap().iter().map(|c| h[c.as_u64().unwrap() as usize]).collect(),
                            children: vec![], level: num(n, "level") as usize, name: str(n, "name", "").to_string() }))).collect();
                        for (i, n) in s["nodes"].as_array().unwrap().iter().enumerate() {
                            for c in n["kids"].as_array().unwrap() { nodes[i].borrow_mut().children.push(nodes[c.as_u64().unwrap() as usize - 1].clone()); }
                        }
                        let roots: Vec<Node> = s["roots"].as_array().unwrap().iter().map(|c| nodes[c.as_u64().unwrap() as usize - 1].clone()).collect();
                        ctx.put_concrete(keys.activities().key(), roots);
                        exec(&parts, &keys, &mut ctx, "GetHashesEventLog", UserDataImpl::new(), &notes);
                    }
                    "find" => find(&parts, &keys, &mut ctx, s, &notes),
                    "activities" => exec(&parts, &keys, &mut ctx, "DiscoverActivities", config(&keys, s), &notes),
                    "instances" => exec(&parts, &keys, &mut ctx, "DiscoverActivitiesInstances", config(&keys, s), &notes),
                    "fill" => exec(&parts, &keys, &mut ctx, "DiscoverActivitiesInUnattachedSubTraces", config(&keys, s), &notes),
                    "abstract" => exec(&parts, &keys, &mut ctx, "CreateLogFromActivities", config(&keys, s), &notes),
                    "expand" => exec(&parts, &keys, &mut ctx, "SubstituteUnderlyingEvents", UserDataImpl::new(), &notes),
                    "clear" => exec(&parts, &keys, &mut ctx, "ClearActivities", UserDataImpl::new(), &notes),
                    "forget" => ctx.remove_concrete(keys.trace_activities().key()),
                    "count" => {
                        exec(&parts, &keys, &mut ctx, "GetUnderlyingEventsCount", UserDataImpl::new(), &notes);
                        extra["count"] = json!(ctx.concrete(keys.underlying_events_count().key()).unwrap());
                    }
                    "unattached" => {
                        let l = create_log_from_unattached_events(ctx.concrete(keys.event_log().key()).unwrap(), ctx.concrete(keys.trace_activities().key()).unwrap());
                        extra["rest"] = w.events(&l);
                    }
                    "logs" => {
                        let log = ctx.concrete(keys.event_log().key()).unwrap();
                        let m = if str(s, "source", "Log") == "Log" { create_logs_for_activities(&ActivitiesLogSource::Log(log)) }
                            else { create_logs_for_activities(&ActivitiesLogSource::TracesActivities(log, ctx.concrete(keys.trace_activities().key()).unwrap(), num(s, "level") as usize)) };
                        extra["logs"] = json!(m.iter().map(|(n, l)| json!([w.id(n), w.events(&l.borrow())])).collect::<Vec<_>>());
                        let mut sub = Pipeline::empty();
                        sub.push(Box::new(parts.find_part("GetUnderlyingEventsCount").unwrap()(Box::new(UserDataImpl::new()))));
                        let mut c = config(&keys, s);
                        c.put_concrete(keys.pipeline().key(), sub);
                        exec(&parts, &keys, &mut ctx, "ExecuteWithEachActivityLog", c, &notes);
                        let mut sizes: Vec<usize> = notes.lock().unwrap().iter().filter(|x| x.starts_with("Number of underlying")).map(|x| x.rsplit(' ').next().unwrap().parse().unwrap()).collect();
                        sizes.sort();
                        extra["sizes"] = json!(sizes);
                    }
                    "several" => {
                        // the same by hand, on a context of its own
                        let mut other = PipelineContext::new_with_logging(&parts);
                        let log = ctx.concrete(keys.event_log().key()).unwrap().clone();
                        if let Some(i) = ctx.concrete(keys.trace_activities().key()) { other.put_concrete(keys.trace_activities().key(), i.clone()); }
                        let mut acts: Vec<Node> = ctx.concrete(keys.activities().key()).map(|a| a.clone()).unwrap_or(vec![]);
                        other.put_concrete(keys.event_log().key(), log.clone());
                        let lv: Vec<String> = s["levels"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
                        for (i, r) in lv.iter().rev().enumerate() {
                            let mut p = plain(s);
                            p["cls"] = json!(r);
                            p["level"] = json!(num(s, "level") + i as u32);
                            let mut temp = PipelineContext::new_with_logging(&parts);
                            let l = match (str(s, "adj", "FromAllLog"), other.concrete(keys.trace_activities().key())) {
                                ("FromUnattachedSubTraces", Some(a)) => create_log_from_unattached_events(&log, a),
                                _ => log.clone(),
                            };
                            temp.put_concrete(keys.event_log().key(), l);
                            find(&parts, &keys, &mut temp, &p, &notes);
                            exec(&parts, &keys, &mut temp, "DiscoverActivities", config(&keys, &p), &notes);
                            acts.extend(temp.concrete(keys.activities().key()).unwrap().iter().cloned());
                            other.put_concrete(keys.activities().key(), acts.clone());
                            exec(&parts, &keys, &mut other, "DiscoverActivitiesInUnattachedSubTraces", config(&keys, &p), &notes);
                            acts = other.concrete(keys.activities().key()).unwrap().clone();
                        }
                        exec(&parts, &keys, &mut ctx, "DiscoverActivitiesForSeveralLevels", config(&keys, s), &notes);
                        extra["one"] = content(&mut w, ctx.concrete(keys.trace_activities().key()).unwrap());
                        extra["two"] = content(&mut w, other.concrete(keys.trace_activities().key()).unwrap());
                    }
                    "until" => {
                        let mut two: Vec<usize> = vec![];
                        let mut other = PipelineContext::new_with_logging(&parts);
                        other.put_concrete(keys.event_log().key(), ctx.concrete(keys.event_log().key()).unwrap().clone());
                        loop {
                            let size = |c: &PipelineContext| c.concrete(keys.event_log().key()).unwrap().traces().iter().map(|t| t.borrow().events().len()).sum::<usize>();
                            let before = size(&other);
                            find(&parts, &keys, &mut other, s, &notes);
                            exec(&parts, &keys, &mut other, "DiscoverActivities", config(&keys, s), &notes);
                            exec(&parts, &keys, &mut other, "DiscoverActivitiesInstances", config(&keys, s), &notes);
                            let found = other.concrete(keys.trace_activities().key()).unwrap();
                            if found.iter().all(|t| t.is_empty()) { break; }
                            let only = s["only"].as_bool().unwrap();
                            let last = only && found.iter().all(|t| t.iter().all(|a| a.length == 1));
                            if s["pipe"].as_bool().unwrap() && (!only || last) {
                                two.push(count_underlying_events(other.concrete(keys.event_log().key()).unwrap()));
                            }
                            let stop = last && s["pipe"].as_bool().unwrap();
                            exec(&parts, &keys, &mut other, "CreateLogFromActivities", config(&keys, s), &notes);
                            if size(&other) == before || stop { break; }
                        }
                        let mut c = config(&keys, s);
                        if s["pipe"].as_bool().unwrap() {
                            let mut sub = Pipeline::empty();
                            sub.push(Box::new(parts.find_part("GetUnderlyingEventsCount").unwrap()(Box::new(UserDataImpl::new()))));
                            c.put_concrete(keys.pipeline().key(), sub);
                        }
                        let notes = Arc::new(Mutex::new(vec![]));
                        exec(&parts, &keys, &mut ctx, "DiscoverActivitiesUntilNoMore", c, &notes);
                        let ran: Vec<usize> = notes.lock().unwrap().iter().filter(|x| x.starts_with("Number of underlying")).map(|x| x.rsplit(' ').next().unwrap().parse().unwrap()).collect();
                        extra["ran"] = json!(ran);
                        extra["due"] = json!(two);
                        extra["one"] = w.events(ctx.concrete(keys.event_log().key()).unwrap());
                        extra["two"] = w.events(other.concrete(keys.event_log().key()).unwrap());
                    }
                    "dataset" => {
                        let ok = tried(&parts, &keys, &mut ctx, "CreateTracesActivitiesDataset", clustering(&keys, s), &notes);
                        extra["ok"] = json!(ok);
                        if ok { extra["ds"] = w.dataset(ctx.concrete(keys.traces_activities_dataset().key()).unwrap(), false, false); }
                    }
                    "dbscan" | "kmeans" | "grid" => {
                        let part = match op { "dbscan" => "Dbscan", "kmeans" => "KMeans", _ => "KMeansGridSearch" };
                        let ok = tried(&parts, &keys, &mut ctx, &format!("ClusterizeActivitiesFromTraces{}", part), clustering(&keys, s), &notes);
                        extra["ok"] = json!(ok);
                        if ok { extra["ds"] = w.labeled(ctx.concrete(keys.labeled_traces_activities_dataset().key()).unwrap(), false, false); }
                    }
                    "traces" => {
                        let lev = str(s, "dist", "") == "Levenshtein";
                        if str(s, "how", "fn") == "fn" {
                            let mut colors = ColorsHolder::empty();
                            let mut p = TracesClusteringParams {
                                vis_params: CommonVisualizationParams { log: ctx.concrete(keys.event_log().key()).unwrap(), colors_holder: &mut colors,
                                                                        class_extractor: s.get("cls").and_then(|x| x.as_str()).map(|x| x.to_string()) },
                                tolerance: tolerance(s), distance: FicusDistance::from_str(str(s, "dist", "L1")).ok().unwrap(),
                                repr_source: TracesRepresentationSource::from_str(str(s, "tsrc", "Events")).ok().unwrap() };
                            let r = clusterize_log_by_traces_dbscan(&mut p, num(s, "mp") as usize);
                            extra["ok"] = json!(r.is_ok());
                            if let Ok((logs, d)) = r {
                                extra["logs"] = json!(logs.iter().map(|l| w.events(l)).collect::<Vec<_>>());
                                extra["sizes"] = json!([]);
                                extra["ds"] = w.labeled(&d, true, lev);
                            }
                        } else {
                            let mut c = clustering(&keys, s);
                            let mut sub = Pipeline::empty();
                            sub.push(Box::new(parts.find_part("GetUnderlyingEventsCount").unwrap()(Box::new(UserDataImpl::new()))));
                            let mut f = UserDataImpl::new();
                            f.put_concrete(keys.event_name().key(), w.names.names[0].clone());
                            sub.push(Box::new(parts.find_part("FilterEventsByName").unwrap()(Box::new(f))));
                            c.put_concrete(keys.pipeline().key(), sub);
                            let ok = tried(&parts, &keys, &mut ctx, "ClusterizeLogTraces", c, &notes);
                            extra["ok"] = json!(ok);
                            if ok {
                                extra["sizes"] = json!(sizes(&notes));
                                extra["logs"] = json!([]);
                                extra["ds"] = w.labeled(ctx.concrete(keys.labeled_log_traces_dataset().key()).unwrap(), true, lev);
                            }
                        }
                    }
                    x => panic!("op {}", x),
                }
                let log = ctx.concrete(keys.event_log().key()).unwrap();
                for t in log.traces() { for e in t.borrow().events() { create_vector_of_underlying_events::<XesEventLogImpl>(e); } }
                extra["err"] = json!("");
                extra["log"] = w.events(log);
                let h = hashed(log, s);
                extra["hl"] = w.labels(&h);
                extra["chl"] = ctx.concrete(keys.hashes_event_log().key()).map(|l| w.labels(l)).unwrap_or(json!([]));
                extra["pats"] = ctx.concrete(keys.patterns().key()).map(|l| json!(l.iter().map(|t| t.iter().map(|p| json!([p.start_index, p.length])).collect::<Vec<_>>()).collect::<Vec<_>>())).unwrap_or(json!([]));
                extra["hasacts"] = json!(ctx.concrete(keys.activities().key()).is_some());
                if let Some(a) = ctx.concrete(keys.activities().key()) { keep = a.clone(); }
                extra["L"] = json!(keep.iter().map(|n| w.node(n)).collect::<Vec<_>>());
                extra["hasinst"] = json!(ctx.concrete(keys.trace_activities().key()).is_some());
                extra["inst"] = ctx.concrete(keys.trace_activities().key()).map(|i| w.inst(i)).unwrap_or(json!([]));
                extra
            });
            let dead = obs["err"] != "";
            steps.push(with(s, obs));
            if dead { break; }
        }
        let table = w.table();
        json!({"t": case["t"], "log": first, "names": w.names.names, "more": w.more, "N": table, "steps": steps})
    });
}
