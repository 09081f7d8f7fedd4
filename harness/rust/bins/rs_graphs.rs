// Graphs built, cut and merged; graphs discovered by the fuzzy miner, as a function and as a part.
#[path = "../../bins/common.rs"]
mod common;
use chrono::{DateTime, Duration, Utc};
use common::*;
use ficus_backend::event_log::core::event::event::Event;
use ficus_backend::event_log::core::event_log::EventLog;
use ficus_backend::event_log::core::trace::trace::Trace;
use ficus_backend::event_log::xes::{xes_event::XesEventImpl, xes_event_log::XesEventLogImpl, xes_trace::XesTraceImpl};
use ficus_backend::features::discovery::fuzzy::fuzzy_miner::discover_graph_fuzzy;
use ficus_backend::pipelines::context::{PipelineContext, PipelineInfrastructure};
use ficus_backend::pipelines::keys::context_keys::ContextKeys;
use ficus_backend::pipelines::pipeline_parts::PipelineParts;
use ficus_backend::pipelines::pipelines::{Pipeline, PipelinePart};
use ficus_backend::utils::graph::graph::{DefaultGraph, Graph};
use ficus_backend::utils::user_data::user_data::{UserData, UserDataImpl};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

fn build(v: &Value, n: &Names) -> XesEventLogImpl {
    let base = DateTime::<Utc>::UNIX_EPOCH;
    let mut log = XesEventLogImpl::empty();
    for t in v.as_array().unwrap() {
        let mut tr = XesTraceImpl::empty();
        for e in t.as_array().unwrap() {
            let stamp = base + Duration::milliseconds(e[1].as_i64().unwrap());
            tr.push(Rc::new(RefCell::new(XesEventImpl::new(n.name(&e[0]), stamp))));
        }
        log.push(Rc::new(RefCell::new(tr)));
    }
    log
}

struct Ids { ids: Vec<u64> }
impl Ids {
    fn new_one(&mut self, id: u64) -> usize { self.ids.push(id); self.ids.len() }
    fn at(&mut self, id: &u64) -> usize {
        match self.ids.iter().position(|x| x == id) { Some(p) => p + 1, None => self.new_one(*id) }
    }
    fn id(&self, v: &Value) -> u64 {
        let i = v.as_u64().unwrap() as usize;
        if i >= 1 && i <= self.ids.len() { self.ids[i - 1] } else { u64::MAX }
    }
}

fn number(s: &str) -> i64 { s.parse::<f64>().map(|x| if x.fract() == 0.0 { x as i64 } else { -98 }).unwrap_or(-99) }

fn state(g: &Graph<String, i64>, ids: &mut Ids) -> Value {
    let mut ns: Vec<u64> = g.all_nodes().iter().map(|x| *x.id()).collect();
    ns.sort();
    let nodes: Vec<Value> = ns.iter().map(|x| json!([ids.at(x), g.node(x).unwrap().data().map(|d| bag(d)).unwrap_or(json!([]))])).collect();
    let all = g.all_edges();
    let edges: Vec<Value> = all.iter().map(|e| json!([ids.at(e.from_node()), ids.at(e.to_node()), e.data().map(|d| **d).unwrap_or(-1)])).collect();
    let distinct: HashSet<u64> = all.iter().map(|e| *e.id()).collect();
    let mut around = vec![];
    for i in 0..ids.ids.len() {
        let x = ids.ids[i];
        let f = |v: Vec<&u64>, ids: &mut Ids| v.iter().map(|y| ids.at(y)).collect::<Vec<_>>();
        around.push(json!({"out": f(g.outgoing_nodes(&x), ids), "in": f(g.incoming_edges(&x), ids), "near": f(g.all_connected_nodes(&x), ids),
                           "linked": (0..ids.ids.len()).filter(|j| g.are_nodes_connected(&x, &ids.ids[*j])).map(|j| j + 1).collect::<Vec<_>>(),
                           "there": g.node(&x).is_some()}));
    }
    json!({"err": "", "nodes": nodes, "edges": edges, "distinct": distinct.len() == all.len(), "around": around})
}
fn bag(d: &str) -> Value { json!(d.split(',').filter(|x| *x != "").map(|x| x.parse::<i64>().unwrap_or(-99)).collect::<Vec<_>>()) }

fn ops(case: &Value) -> Value {
    let mut g: Graph<String, i64> = Graph::empty();
    let mut ids = Ids { ids: vec![] };
    let mut steps = vec![];
    for s in case["steps"].as_array().unwrap() {
        let obs = guarded(|| {
            let mut ret = false;
            match s["op"].as_str().unwrap() {
                "add" => {
                    let d = ids.ids.len() + 1;
                    let id = g.add_node(if s["w"].as_i64().unwrap() < 0 { None } else { Some(d.to_string()) });
                    ids.new_one(id);
                }
                "connect" => {
                    let w = s["w"].as_i64().unwrap();
                    g.connect_nodes(&ids.id(&s["a"]), &ids.id(&s["b"]), if w < 0 { None } else { Some(w) });
                }
                "cut" => ret = g.disconnect_nodes(&ids.id(&s["a"]), &ids.id(&s["b"])),
                "merge" => {
                    let c: HashSet<u64> = s["c"].as_array().unwrap().iter().map(|x| ids.id(x)).collect();
                    g.merge_nodes_into_one(
                        &c,
                        |ds| Some(ds.iter().filter_map(|x| x.map(|y| y.clone())).collect::<Vec<_>>().join(",")),
                        |es| Some(es.iter().map(|x| x.map(|y| *y).unwrap_or(0)).sum()),
                    );
                }
                "default" => {}
                _ => panic!("driver: op"),
            }
            let mut o = state(&g, &mut ids);
            o["ret"] = json!(ret);
            if s["op"] == "default" {
                let old = std::mem::replace(&mut g, Graph::empty());
                let d = old.to_default_graph();
                let mut ns: Vec<u64> = d.all_nodes().iter().map(|x| *x.id()).collect();
                ns.sort();
                o["nodes"] = json!(ns.iter().map(|x| json!([ids.at(x), d.node(x).unwrap().data().map(|y| bag(y)).unwrap_or(json!([]))])).collect::<Vec<_>>());
                o["edges"] = json!(d.all_edges().iter().map(|e| json!([ids.at(e.from_node()), ids.at(e.to_node()), e.data().map(|x| number(x)).unwrap_or(-1)])).collect::<Vec<_>>());
            }
            o
        });
        let dead = obs["err"] != "";
        steps.push(with(s, obs));
        if dead { break; }
    }
    json!({"t": case["t"], "kind": "ops", "log": [], "steps": steps})
}

/// blocks [is a cluster, classes]; edges between block numbers
fn blocks(g: &DefaultGraph, n: &Names) -> Value {
    let mut ns: Vec<u64> = g.all_nodes().iter().map(|x| *x.id()).collect();
    ns.sort();
    let at: HashMap<u64, usize> = ns.iter().enumerate().map(|(i, x)| (*x, i + 1)).collect();
    let bs: Vec<Value> = ns.iter().map(|x| {
        let d = g.node(x).unwrap().data().cloned().unwrap_or_default();
        if d.starts_with("Cluster[") && d.ends_with("]") {
            json!([true, d["Cluster[".len()..d.len() - 1].split(',').map(|c| n.id(c)).collect::<Vec<_>>()])
        } else { json!([false, [n.id(&d)]]) }
    }).collect();
    json!({"blocks": bs, "edges": g.all_edges().iter().map(|e| json!([at.get(e.from_node()).cloned().unwrap_or(0), at.get(e.to_node()).cloned().unwrap_or(0), e.data().map(|x| number(x)).unwrap_or(-1)])).collect::<Vec<_>>()})
}

fn main() {
    let keys = ContextKeys::new();
    let parts = PipelineParts::new();
    run(|case| {
        if case["kind"] == "ops" { return ops(case); }
        let n = Names::of(case);
        let mut ctx = PipelineContext::new_with_logging(&parts);
        ctx.put_concrete(keys.event_log().key(), build(&case["log"], &n));
        let steps: Vec<Value> = case["steps"].as_array().unwrap().iter().map(|s| {
            let obs = guarded(|| {
                let q = &s["q"];
                let f = |k: &str, d: f64| q[k].as_f64().unwrap() / d;
                let v = [f("un", 1.0), f("bi", 1.0), f("pres", 127.0), f("ratio", 127.0), f("rate", 4.0), f("edge", 64.0), f("node", 1.0)];
                let mut o = if s["how"] == "part" {
                    let mut cfg = UserDataImpl::new();
                    cfg.put_concrete(keys.unary_frequency_threshold().key(), v[0]);
                    cfg.put_concrete(keys.binary_significance_threshold().key(), v[1]);
                    cfg.put_concrete(keys.preserve_threshold().key(), v[2]);
                    cfg.put_concrete(keys.ratio_threshold().key(), v[3]);
                    cfg.put_concrete(keys.utility_rate().key(), v[4]);
                    cfg.put_concrete(keys.edge_cutoff_threshold().key(), v[5]);
                    cfg.put_concrete(keys.node_cutoff_threshold().key(), v[6]);
                    let mut pl = Pipeline::empty();
                    pl.push(Box::new((parts.find_part("DiscoverFuzzyGraph").expect("part"))(Box::new(cfg))));
                    if let Err(e) = pl.execute(&mut ctx, &PipelineInfrastructure::new(None), &keys) { panic!("part failed: {}", e) }
                    blocks(ctx.concrete(keys.graph().key()).unwrap(), &n)
                } else {
                    let log = build(&case["log"], &n);
                    blocks(&discover_graph_fuzzy(&log, v[0], v[1], v[2], v[3], v[4], v[5], v[6]).to_default_graph(), &n)
                };
                let log: &XesEventLogImpl = ctx.concrete(keys.event_log().key()).unwrap();
                o["log"] = json!(log.traces().iter().map(|t| t.borrow().events().iter().map(|e| {
                    json!([n.id(e.borrow().name()), (*e.borrow().timestamp() - DateTime::<Utc>::UNIX_EPOCH).num_milliseconds()])
                }).collect::<Vec<_>>()).collect::<Vec<_>>());
                o["err"] = json!("");
                o
            });
            with(s, obs)
        }).collect();
        json!({"t": case["t"], "kind": "fuzzy", "log": case["log"], "steps": steps})
    });
}
