// Event logs of the backend: edits through pipeline parts or functions, and everything derived from the log after each edit.
#[path = "../../bins/common.rs"]
mod common;
use common::*;
use ficus_backend::event_log::core::event::event::Event;
use ficus_backend::event_log::core::event::event_hasher::{NameEventHasher, RegexEventHasher};
use ficus_backend::event_log::core::event_log::EventLog;
use ficus_backend::event_log::core::trace::trace::{Trace, TraceEventsPositions, TraceInfo};
use ficus_backend::event_log::simple::simple_event_log::SimpleEventLog;
use ficus_backend::event_log::xes::xes_event_log::XesEventLogImpl;
use ficus_backend::features::analysis::directly_follows_graph::construct_dfg;
use ficus_backend::features::analysis::entropy::dfg_entropy::*;
use ficus_backend::features::analysis::entropy::pos_entropy::*;
use ficus_backend::features::analysis::entropy::pos_entropy_fast::*;
use ficus_backend::features::analysis::event_log_info::*;
use ficus_backend::features::mutations::filtering::*;
use ficus_backend::features::mutations::mutations::*;
use ficus_backend::features::mutations::split::*;
use ficus_backend::pipelines::context::{PipelineContext, PipelineInfrastructure};
use ficus_backend::pipelines::keys::context_keys::ContextKeys;
use ficus_backend::pipelines::pipeline_parts::PipelineParts;
use ficus_backend::pipelines::pipelines::{Pipeline, PipelinePart};
use ficus_backend::utils::graph::graph::DefaultGraph;
use ficus_backend::utils::user_data::user_data::{UserData, UserDataImpl};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

fn build<L: EventLog>(raw: &Vec<Vec<String>>) -> L {
    let mut log = L::empty();
    for t in raw {
        let mut tr = L::TTrace::empty();
        for e in t {
            tr.push(Rc::new(RefCell::new(L::TEvent::new_with_min_date(e.clone()))));
        }
        log.push(Rc::new(RefCell::new(tr)));
    }
    log
}

fn fx(x: f64) -> i64 {
    if x.is_finite() { (x * 100000.0).round() as i64 } else { -77777777 }
}
fn fx4(x: f64) -> i64 {
    if x.is_finite() { (x * 10000.0).round() as i64 } else { -77777777 }
}

fn info_json(i: &EventLogInfo, n: &Names, classes: &Vec<String>) -> Value {
    let mut cs = vec![];
    for c in i.all_event_classes() {
        cs.push(json!([n.id(c), i.event_count(c)]));
    }
    let d = i.dfg_info();
    let mut ext: Vec<String> = classes.clone();
    for x in ["FAKE_START", "FAKE_END", "ARTIFICIAL_START", "ARTIFICIAL_END"] { ext.push(x.to_string()); }
    let (mut prs, mut fol, mut pre, mut single, mut rel) = (vec![], vec![], vec![], vec![], vec![]);
    for a in &ext {
        for b in &ext {
            let k = d.get_directly_follows_count(a, b);
            if k > 0 { prs.push(json!([n.id(a), n.id(b), k])); }
            if d.is_in_directly_follows_relation(a, b) { rel.push(json!([n.id(a), n.id(b)])); }
        }
        if let Some(f) = d.get_followed_events(a) { for (b, k) in f { fol.push(json!([n.id(a), n.id(b), k])); } }
        if let Some(f) = d.get_precedes_events(a) { for (b, k) in f { pre.push(json!([n.id(b), n.id(a), k])); } }
        if d.is_event_with_single_follower(a) { single.push(n.id(a)); }
    }
    json!({"events": i.events_count(), "traces": i.traces_count(), "nclasses": i.event_classes_count(), "counts": cs, "pairs": prs, "rel": rel,
           "fol": fol, "pre": pre, "single": single,
           "start": i.start_event_classes().iter().map(|x| n.id(x)).collect::<Vec<_>>(),
           "end": i.end_event_classes().iter().map(|x| n.id(x)).collect::<Vec<_>>()})
}

fn graph_json(g: &DefaultGraph, n: &Names) -> Value {
    let name = |id: &u64| g.node(id).and_then(|x| x.data().map(|d| n.id(d))).unwrap_or(-98);
    json!({"nodes": g.all_nodes().iter().map(|x| x.data().map(|d| n.id(d)).unwrap_or(-98)).collect::<Vec<_>>(),
           "edges": g.all_edges().iter().map(|e| json!([name(e.from_node()), name(e.to_node()),
                e.data().map(|d| d.parse::<i64>().unwrap_or(-97)).unwrap_or(-98)])).collect::<Vec<_>>()})
}

fn entropies(m: HashMap<String, f64>, n: &Names, four: bool) -> Value {
    json!(m.iter().map(|(k, v)| json!([n.id(k), if four { fx4(*v) } else { fx(*v) }])).collect::<Vec<_>>())
}

fn observe<L: EventLog>(log: &L, n: &Names, step: &Value, opt: &str) -> Value {
    let raw = log.to_raw_vector();
    let mut o = json!({"err": "", "log": n.ids(&raw)});
    let mut classes: Vec<String> = n.names.clone();
    classes.dedup();
    let (mut infos, mut poss, mut vecs) = (vec![], vec![], vec![]);
    for t in log.traces() {
        vecs.push(t.borrow().to_names_vec());
        let mut tr = t.borrow_mut();
        let i = tr.get_or_create_trace_info();
        infos.push(json!({"n": i.events_count(), "cs": i.events_counts().iter().map(|(k, v)| json!([n.id(k), v])).collect::<Vec<_>>()}));
        let p = tr.get_or_create_events_positions();
        let mut ps = vec![];
        for c in classes.iter().map(|x| x.as_str()).chain(["ARTIFICIAL_START", "ARTIFICIAL_END"]) {
            if let Some(v) = p.event_positions(&c.to_string()) { ps.push(json!([n.id(c), v])); }
        }
        poss.push(json!(ps));
    }
    o["vecs"] = n.ids(&vecs);
    o["infos"] = json!(infos);
    o["poss"] = json!(poss);
    o["groups"] = json!(get_traces_groups_indices(log));
    o["split"] = json!(split_by_traces(log).iter().map(|g| g.iter().map(|t|
        t.borrow().to_names_vec().iter().map(|x| n.id(x)).collect::<Vec<_>>()).collect::<Vec<_>>()).collect::<Vec<_>>());
    o["hashes"] = json!(groups_by_hash(log.to_hashes_event_log(&NameEventHasher::new())));
    let ign = n.set(&step["ign"]);
    let dto = match (step["fake"].as_bool().unwrap(), step["ign"].as_array().unwrap().is_empty()) {
        (true, true) => EventLogInfoCreationDto::default_fake_events(log),
        (true, false) => EventLogInfoCreationDto::default_fake_ignored(log, Some(&ign)),
        (false, true) => EventLogInfoCreationDto::default(log),
        (false, false) => EventLogInfoCreationDto::default_ignore(log, &ign),
    };
    let info = EventLogInfo::create_from(dto);
    o["info"] = info_json(&info, n, &classes);
    let plain = EventLogInfo::create_from(EventLogInfoCreationDto::default(log));
    o["dfg"] = graph_json(&construct_dfg(&plain), n);
    if opt.contains('e') {
        let some = if ign.is_empty() { None } else { Some(ign.clone()) };
        o["neigh"] = entropies(calculate_default_dfg_entropy(log, some.as_ref()), n, false);
        o["lap"] = entropies(calculate_laplace_dfg_entropy(log, some.as_ref()), n, false);
        o["pos"] = entropies(calculate_pos_entropies(log, &some), n, true);
        o["fast"] = entropies(calculate_pos_entropies_fast(log, some.as_ref()), n, true);
    }
    o
}

fn edit<L: EventLog>(log: &mut L, n: &Names, s: &Value) {
    match s["op"].as_str().unwrap() {
        "look" => {}
        "name" => filter_log_by_name(log, &n.name(&s["c"])),
        "names" => filter_log_by_names(log, &n.set(&s["set"])),
        "regex" => filter_log_by_regex(log, &fancy_regex::Regex::new(s["re"].as_str().unwrap()).ok().unwrap()),
        "rename" => { let set = n.set(&s["set"]); rename_events(log, &n.name(&s["c"]), |e| set.contains(e.name())) }
        "art" => add_artificial_start_end_activities(log, s["s"].as_bool().unwrap(), s["e"].as_bool().unwrap()),
        "short" => { let k = s["n"].as_u64().unwrap() as usize; log.filter_traces(&|t, _| t.events().len() < k) }
        "variants" => {
            let keep: HashSet<usize> = get_traces_groups_indices(log).into_iter().map(|g| g[0]).collect();
            log.filter_traces(&|_, i| !keep.contains(i));
        }
        "push" => {
            let t = Rc::clone(&log.traces()[s["at"].as_u64().unwrap() as usize]);
            t.borrow_mut().push(Rc::new(RefCell::new(L::TEvent::new_with_min_date(n.name(&s["c"])))));
        }
        "insert" => {
            let t = Rc::clone(&log.traces()[s["at"].as_u64().unwrap() as usize]);
            t.borrow_mut().events_mut().insert(0, Rc::new(RefCell::new(L::TEvent::new_with_min_date(n.name(&s["c"])))));
        }
        "add" => {
            let raw: Vec<String> = s["tr"].as_array().unwrap().iter().map(|x| n.name(x)).collect();
            let l: L = build(&vec![raw]);
            let t = Rc::clone(&l.traces()[0]);
            log.push(t);
        }
        "clone" => {
            // a copy that is edited must leave the log as it was
            let mut copy = log.clone();
            copy.mutate_events(|e| e.set_name("gone".to_string()));
            copy.filter_traces(&|_, i| *i == 0);
            let kept = log.clone();
            let before = log.to_raw_vector();
            log.filter_traces(&|_, _| true);
            assert!(kept.to_raw_vector() == before, "the copy changed with the log");
            for t in kept.traces() { log.push(Rc::clone(t)); }
        }
        x => panic!("unknown op {}", x),
    }
}

fn part(parts: &PipelineParts, name: &str, config: UserDataImpl, ctx: &mut PipelineContext, keys: &ContextKeys) {
    let p = (parts.find_part(name).expect("part"))(Box::new(config));
    let mut pl = Pipeline::empty();
    pl.push(Box::new(p));
    if let Err(e) = pl.execute(ctx, &PipelineInfrastructure::new(None), keys) { panic!("part failed: {}", e) }
}

fn main() {
    let keys = ContextKeys::new();
    let parts = PipelineParts::new();
    run(|case| {
        let n = Names::of(case);
        let raw = n.log(&case["log"]);
        let kind = case["kind"].as_str().unwrap();
        let opt = case["opt"].as_str().unwrap();
        let mut steps = vec![];
        let first = guarded(|| json!({"err": "", "log": n.ids(&raw)}));
        let mut simple: SimpleEventLog = if kind == "simple" {
            SimpleEventLog::new(&raw.iter().map(|t| t.iter().map(|x| x.as_str()).collect()).collect())
        } else { build(&vec![]) };
        let mut xes: XesEventLogImpl = build(&raw);
        let mut ctx = PipelineContext::new_with_logging(&parts);
        ctx.put_concrete(keys.event_log().key(), build::<XesEventLogImpl>(&raw));
        for s in case["steps"].as_array().unwrap() {
            let obs = match kind {
                "simple" => guarded(|| { edit(&mut simple, &n, s); observe(&simple, &n, s, opt) }),
                "xes" => guarded(|| { edit(&mut xes, &n, s); observe(&xes, &n, s, opt) }),
                _ => guarded(|| {
                    let mut cfg = UserDataImpl::new();
                    match s["op"].as_str().unwrap() {
                        "name" => { cfg.put_concrete(keys.event_name().key(), n.name(&s["c"])); part(&parts, "FilterEventsByName", cfg, &mut ctx, &keys) }
                        "regex" => { cfg.put_concrete(keys.regex().key(), s["re"].as_str().unwrap().to_string()); part(&parts, "FilterEventsByRegex", cfg, &mut ctx, &keys) }
                        "short" => { cfg.put_concrete(keys.events_count().key(), s["n"].as_u64().unwrap() as u32); part(&parts, "FilterTracesByEventsCount", cfg, &mut ctx, &keys) }
                        "variants" => part(&parts, "FilterLogByVariants", cfg, &mut ctx, &keys),
                        "art" => part(&parts, match (s["s"].as_bool().unwrap(), s["e"].as_bool().unwrap()) {
                            (true, true) => "AddArtificialStartEndEvents", (true, false) => "AddArtificialStartEvents", _ => "AddArtificialEndEvents" },
                            cfg, &mut ctx, &keys),
                        "look" => {
                            part(&parts, "GetNamesEventLog", UserDataImpl::new(), &mut ctx, &keys);
                            part(&parts, "UseNamesEventLog", UserDataImpl::new(), &mut ctx, &keys);
                        }
                        _ => edit(ctx.concrete_mut(keys.event_log().key()).unwrap(), &n, s),
                    }
                    part(&parts, "GetEventLogInfo", UserDataImpl::new(), &mut ctx, &keys);
                    part(&parts, "DiscoverDirectlyFollowsGraph", UserDataImpl::new(), &mut ctx, &keys);
                    part(&parts, "GetNamesEventLog", UserDataImpl::new(), &mut ctx, &keys);
                    let mut hc = UserDataImpl::new();
                    if let Some(r) = s.get("cls") { hc.put_concrete(keys.event_class_regex().key(), r.as_str().unwrap().to_string()); }
                    part(&parts, "GetHashesEventLog", hc, &mut ctx, &keys);
                    let mut o = observe(ctx.concrete(keys.event_log().key()).unwrap(), &n, s, opt);
                    let mut classes = n.names.clone();
                    classes.dedup();
                    o["pinfo"] = info_json(ctx.concrete(keys.event_log_info().key()).unwrap(), &n, &classes);
                    o["pdfg"] = graph_json(ctx.concrete(keys.graph().key()).unwrap(), &n);
                    o["pnames"] = n.ids(ctx.concrete(keys.names_event_log().key()).unwrap());
                    o["phashes"] = json!(groups_by_hash(ctx.concrete(keys.hashes_event_log().key()).unwrap().clone()));
                    o
                }),
            };
            let dead = obs["err"].as_str().unwrap() != "";
            steps.push(with(s, obs));
            if dead { break; }
        }
        json!({"t": case["t"], "kind": kind, "log": first["log"], "ent": opt.contains('e'), "steps": steps})
    });
}
