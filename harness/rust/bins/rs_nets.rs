// Discovered and given Petri nets: structure, initial marking, replay and annotations.
#[path = "../../bins/common.rs"]
mod common;
use common::*;
use ficus_backend::event_log::core::event::event::Event;
use ficus_backend::event_log::core::event_log::EventLog;
use ficus_backend::event_log::core::trace::trace::Trace;
use ficus_backend::event_log::xes::{xes_event::XesEventImpl, xes_event_log::XesEventLogImpl, xes_trace::XesTraceImpl};
use ficus_backend::features::analysis::event_log_info::*;
use ficus_backend::features::discovery::alpha::alpha::*;
use ficus_backend::features::discovery::alpha::providers::alpha_plus_provider::AlphaPlusRelationsProviderImpl;
use ficus_backend::features::discovery::alpha::providers::alpha_provider::DefaultAlphaRelationsProvider;
use ficus_backend::features::discovery::heuristic::heuristic_miner::discover_petri_net_heuristic;
use ficus_backend::features::discovery::petri_net::annotations::*;
use ficus_backend::features::discovery::petri_net::marking::*;
use ficus_backend::features::discovery::petri_net::petri_net::DefaultPetriNet;
use ficus_backend::features::discovery::petri_net::place::Place;
use ficus_backend::features::discovery::petri_net::replay::replay_petri_net;
use ficus_backend::features::discovery::petri_net::transition::Transition;
use ficus_backend::pipelines::context::{PipelineContext, PipelineInfrastructure};
use ficus_backend::pipelines::keys::context_keys::ContextKeys;
use ficus_backend::pipelines::pipeline_parts::PipelineParts;
use ficus_backend::pipelines::pipelines::{Pipeline, PipelinePart};
use ficus_backend::utils::user_data::user_data::{UserData, UserDataImpl};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

fn build(raw: &Vec<Vec<String>>) -> XesEventLogImpl {
    let mut log = XesEventLogImpl::empty();
    for t in raw {
        let mut tr = XesTraceImpl::empty();
        for e in t { tr.push(Rc::new(RefCell::new(XesEventImpl::new_with_min_date(e.clone())))); }
        log.push(Rc::new(RefCell::new(tr)));
    }
    log
}

fn label(n: &Names, s: &str) -> String { format!("c{}", n.id(s) + 1) }

fn order(net: &DefaultPetriNet) -> (HashMap<u64, usize>, Vec<u64>) {
    let mut ps: Vec<u64> = net.all_places().iter().map(|p| p.id()).collect();
    ps.sort();
    let mut ts: Vec<u64> = net.all_transitions().iter().map(|t| t.id()).collect();
    ts.sort();
    (ps.into_iter().enumerate().map(|(i, p)| (p, i + 1)).collect(), ts)
}

fn marking(m: Option<&Marking>, idx: &HashMap<u64, usize>) -> Value {
    let mut v = vec![0; idx.len()];
    if let Some(m) = m { for s in m.active_places() { v[idx[&s.place_id()] - 1] += s.tokens_count(); } }
    json!(v)
}

fn net_json(net: &DefaultPetriNet, n: &Names) -> Value {
    let (idx, ts) = order(net);
    let trans: Vec<Value> = ts.iter().map(|id| {
        let t = net.transition(id);
        json!({"label": if *t.is_silent() { "".to_string() } else { label(n, t.name()) },
               "data": if *t.is_silent() { "".to_string() } else { t.data().map(|d| label(n, d)).unwrap_or_default() },
               "pre": t.incoming_arcs().iter().map(|a| json!({"p": idx[&a.place_id()], "w": a.tokens_count()})).collect::<Vec<_>>(),
               "post": t.outgoing_arcs().iter().map(|a| json!({"p": idx[&a.place_id()], "w": a.tokens_count()})).collect::<Vec<_>>()})
    }).collect();
    json!({"n": idx.len(), "trans": trans, "hasim": net.initial_marking().is_some(), "hasfm": net.final_marking().is_some(),
           "im": marking(net.initial_marking(), &idx), "fm": marking(net.final_marking(), &idx)})
}

fn given(v: &Value, n: &Names) -> DefaultPetriNet {
    let mut net = DefaultPetriNet::empty();
    let ps: Vec<u64> = (0..v["n"].as_u64().unwrap()).map(|i| net.add_place(Place::with_name(format!("p{}", i)))).collect();
    for t in v["trans"].as_array().unwrap() {
        let l = t["label"].as_i64().unwrap();
        let name = if l < 0 { format!("silent{}", l) } else { n.names[l as usize].clone() };
        let id = net.add_transition(Transition::empty(name.clone(), l < 0, Some(name)));
        for p in t["pre"].as_array().unwrap() { net.connect_place_to_transition(&ps[p.as_u64().unwrap() as usize], &id, None); }
        for p in t["post"].as_array().unwrap() { net.connect_transition_to_place(&id, &ps[p.as_u64().unwrap() as usize], None); }
    }
    if let Some(im) = v.get("im") {
        net.set_initial_marking(Marking::new(im.as_array().unwrap().iter().map(|m| SingleMarking::new(ps[m[0].as_u64().unwrap() as usize], m[1].as_u64().unwrap() as usize)).collect()));
    }
    net
}

fn ann_json<T>(net: &DefaultPetriNet, a: Option<HashMap<u64, T>>, f: impl Fn(&T) -> i64) -> Value {
    match a {
        None => json!({"some": false, "arcs": [], "size": 0}),
        Some(m) => {
            let (_, ts) = order(net);
            let get = |id: u64| m.get(&id).map(|x| f(x)).unwrap_or(-1);
            json!({"some": true, "size": m.len(), "arcs": ts.iter().map(|t| {
                let t = net.transition(t);
                json!({"pre": t.incoming_arcs().iter().map(|a| get(a.id())).collect::<Vec<_>>(), "post": t.outgoing_arcs().iter().map(|a| get(a.id())).collect::<Vec<_>>()})
            }).collect::<Vec<_>>()})
        }
    }
}

fn main() {
    let keys = ContextKeys::new();
    let parts = PipelineParts::new();
    run(|case| {
        let n = Names::of(case);
        let raw = n.log(&case["log"]);
        let mut ctx = PipelineContext::new_with_logging(&parts);
        ctx.put_concrete(keys.event_log().key(), build(&raw));
        let mut steps = vec![];
        for s in case["steps"].as_array().unwrap() {
            let obs = guarded(|| {
                let op = s["op"].as_str().unwrap();
                let part = s["how"].as_str().unwrap() == "part";
                let log = build(&raw);
                let p = |i: usize| s["p"][i].as_f64().unwrap() / 64.0;
                let term = s.get("term").map(|x| x.as_bool().unwrap()).unwrap_or(false);
                let mut exec = |name: &str, cfg: UserDataImpl| -> String {
                    let mut pl = Pipeline::empty();
                    pl.push(Box::new((parts.find_part(name).expect("part"))(Box::new(cfg))));
                    match pl.execute(&mut ctx, &PipelineInfrastructure::new(None), &keys) { Ok(_) => "".to_string(), Err(e) => e.to_string() }
                };
                let must = |e: String| if e != "" { panic!("part failed: {}", e) };
                let fx = |x: &f64| (x * 1000000.0).round() as i64;
                match op {
                    "alpha" | "plus" | "plusplus" | "heur" if part => {
                        let mut cfg = UserDataImpl::new();
                        if op == "heur" {
                            cfg.put_concrete(keys.dependency_threshold().key(), p(0));
                            cfg.put_concrete(keys.positive_observations_threshold().key(), s["p"][1].as_u64().unwrap() as u32);
                            cfg.put_concrete(keys.relative_to_best_threshold().key(), p(2));
                            cfg.put_concrete(keys.and_threshold().key(), p(3));
                            cfg.put_concrete(keys.loop_length_two_threshold().key(), p(4));
                        }
                        must(exec(match op { "alpha" => "DiscoverPetriNetAlpha", "plus" => "DiscoverPetriNetAlphaPlus", "plusplus" => "DiscoverPetriNetAlphaPlusPlus", _ => "DiscoverPetriNetHeuristic" }, cfg));
                    }
                    "alpha" => {
                        let info = EventLogInfo::create_from(EventLogInfoCreationDto::default(&log));
                        let net = discover_petri_net_alpha(&DefaultAlphaRelationsProvider::new(&info));
                        ctx.put_concrete(keys.petri_net().key(), net);
                    }
                    "plus" | "plusplus" => {
                        let loops = find_transitions_one_length_loop(&log);
                        let info = EventLogInfo::create_from(EventLogInfoCreationDto::default_ignore(&log, &loops));
                        let provider = AlphaPlusRelationsProviderImpl::new(&info, &log, &loops);
                        let net = discover_petri_net_alpha_plus(&log, &provider, op == "plusplus");
                        ctx.put_concrete(keys.petri_net().key(), net);
                    }
                    "heur" => {
                        let net = discover_petri_net_heuristic(&log, p(0), s["p"][1].as_u64().unwrap() as usize, p(2), p(3), p(4));
                        ctx.put_concrete(keys.petri_net().key(), net);
                    }
                    "given" => ctx.put_concrete(keys.petri_net().key(), given(&s["net"], &n)),
                    "ensure" if part => must(exec("EnsureInitialMarking", UserDataImpl::new())),
                    "ensure" => ensure_initial_marking(&log, ctx.concrete_mut(keys.petri_net().key()).unwrap()),
                    "replay" => {
                        let net = ctx.concrete(keys.petri_net().key()).unwrap();
                        let (_, ts) = order(net);
                        let res = match replay_petri_net(&log, net) {
                            None => json!({"some": false, "traces": []}),
                            Some(v) => json!({"some": true, "traces": v.iter().map(|r| match r {
                                None => json!({"some": false, "fired": []}),
                                Some(st) => json!({"some": true, "fired": st.fired_transitions().iter().map(|t| ts.iter().position(|x| x == t).unwrap() + 1).collect::<Vec<_>>()}),
                            }).collect::<Vec<_>>()}),
                        };
                        return json!({"err": "", "res": res, "net": net_json(net, &n)});
                    }
                    "count" | "freq" | "tracefreq" => {
                        let res = if part {
                            let mut cfg = UserDataImpl::new();
                            cfg.put_concrete(keys.terminate_on_unreplayable_traces().key(), term);
                            let e = exec(match op { "count" => "AnnotatePetriNetWithCount", "freq" => "AnnotatePetriNetWithFrequency", _ => "AnnotatePetriNetWithTraceFrequency" }, cfg);
                            let net = ctx.concrete(keys.petri_net().key()).unwrap();
                            if e != "" { ann_json::<usize>(net, None, |_| 0) } else { match op {
                                "count" => ann_json(net, ctx.concrete(keys.petri_net_count_annotation().key()).cloned(), |x: &usize| *x as i64),
                                "freq" => ann_json(net, ctx.concrete(keys.petri_net_frequency_annotation().key()).cloned(), fx),
                                _ => ann_json(net, ctx.concrete(keys.petri_net_trace_frequency_annotation().key()).cloned(), fx),
                            } }
                        } else {
                            let net = ctx.concrete(keys.petri_net().key()).unwrap();
                            match op {
                                "count" => ann_json(net, annotate_with_counts(&log, net, term), |x: &usize| *x as i64),
                                "freq" => ann_json(net, annotate_with_frequencies(&log, net, term), fx),
                                _ => ann_json(net, annotate_with_trace_frequency(&log, net, term), fx),
                            }
                        };
                        let net = ctx.concrete(keys.petri_net().key()).unwrap();
                        return json!({"err": "", "res": res, "net": net_json(net, &n)});
                    }
                    _ => panic!("op"),
                }
                assert!(ctx.concrete(keys.event_log().key()).unwrap().to_raw_vector() == raw, "log of the context");
                json!({"err": "", "net": net_json(ctx.concrete(keys.petri_net().key()).unwrap(), &n)})
            });
            let failed = obs["err"] != "";
            steps.push(with(s, obs));
            if failed { break; }
        }
        let l: Vec<Vec<String>> = raw.iter().map(|t| t.iter().map(|e| label(&n, e)).collect()).collect();
        json!({"t": case["t"], "log": l, "steps": steps})
    });
}
