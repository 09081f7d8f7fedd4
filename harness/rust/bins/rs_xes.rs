// Logs read from and written to XES documents, nets written as PNML.
#[path = "../../bins/common.rs"]
mod common;
use common::*;
use ficus_backend::event_log::core::event::event::{Event, EventPayloadValue};
use ficus_backend::event_log::core::event::lifecycle::{standard_lifecycle::XesStandardLifecycle, xes_lifecycle::Lifecycle};
use ficus_backend::event_log::core::event_log::EventLog;
use ficus_backend::event_log::core::trace::trace::Trace;
use ficus_backend::event_log::xes::reader::file_xes_log_reader::read_event_log;
use ficus_backend::event_log::xes::writer::xes_event_log_writer::{serialize_event_log, write_log};
use ficus_backend::event_log::xes::xes_event_log::XesEventLogImpl;
use ficus_backend::features::discovery::petri_net::petri_net::DefaultPetriNet;
use ficus_backend::features::discovery::petri_net::place::Place;
use ficus_backend::features::discovery::petri_net::pnml_serialization::{serialize_to_pnml, serialize_to_pnml_file};
use ficus_backend::features::discovery::petri_net::transition::Transition;
use ficus_backend::pipelines::context::{PipelineContext, PipelineInfrastructure};
use ficus_backend::pipelines::keys::context_keys::ContextKeys;
use ficus_backend::pipelines::pipeline_parts::PipelineParts;
use ficus_backend::pipelines::pipelines::{Pipeline, PipelinePart};
use ficus_backend::utils::user_data::user_data::{UserData, UserDataImpl};
use serde_json::{json, Value};
use std::rc::Rc;
use std::str::FromStr;
use std::sync::{mpsc, Arc, Mutex};

fn date(d: &chrono::DateTime<chrono::Utc>) -> String { format!("{}.{:09}", d.timestamp(), d.timestamp_subsec_nanos()) }

fn val(v: &EventPayloadValue) -> Value {
    match v {
        EventPayloadValue::Date(d) => json!(["d", date(d)]),
        EventPayloadValue::String(s) => json!(["s", s.as_ref().as_ref()]),
        EventPayloadValue::Boolean(b) => json!(["b", b.to_string()]),
        EventPayloadValue::Int32(i) => json!(["i", i.to_string()]),
        EventPayloadValue::Int64(i) => json!(["i", i.to_string()]),
        EventPayloadValue::Uint32(i) => json!(["i", i.to_string()]),
        EventPayloadValue::Uint64(i) => json!(["i", i.to_string()]),
        EventPayloadValue::Float32(x) => json!(["f", (*x as f64).to_bits().to_string()]),
        EventPayloadValue::Float64(x) => json!(["f", x.to_bits().to_string()]),
        EventPayloadValue::Guid(g) => json!(["g", g.to_string()]),
        EventPayloadValue::Timestamp(x) => json!(["t", x.to_string()]),
        EventPayloadValue::Lifecycle(l) => json!(["s", l.to_string()]),
    }
}

fn show(l: &XesEventLogImpl) -> Value {
    let mut globs: Vec<Value> = vec![];
    for (k, d) in l.globals_map() { globs.push(json!([k, d.iter().map(|(a, b)| json!([a, val(b)])).collect::<Vec<_>>()])); }
    json!({
        "exts": l.extensions().iter().map(|e| json!([e.name, e.prefix, e.uri])).collect::<Vec<_>>(),
        "cls": l.classifiers().iter().map(|c| json!([c.name, c.keys])).collect::<Vec<_>>(),
        "props": l.properties_map().iter().map(|p| json!([p.name, val(&p.value)])).collect::<Vec<_>>(),
        "globs": globs,
        "traces": l.traces().iter().map(|t| t.borrow().events().iter().map(|e| {
            let e = e.borrow();
            json!({"name": ["s", e.name()], "time": ["d", date(e.timestamp())],
                   "data": e.payload_map().map(|m| m.iter().map(|(a, b)| json!([a, val(b)])).collect::<Vec<_>>()).unwrap_or_default()})
        }).collect::<Vec<_>>()).collect::<Vec<_>>()
    })
}

fn value(ty: &str, text: &str, form: i64) -> EventPayloadValue {
    let s = || EventPayloadValue::String(Rc::new(Box::new(text.to_string())));
    match ty {
        "d" => EventPayloadValue::Date(chrono::DateTime::parse_from_rfc3339(text).unwrap().with_timezone(&chrono::Utc)),
        "s" => match (form, XesStandardLifecycle::from_str(text)) { (1, Ok(l)) => EventPayloadValue::Lifecycle(Lifecycle::XesStandardLifecycle(l)), _ => s() },
        "b" => EventPayloadValue::Boolean(text == "true"),
        "i" => match form {
            1 => text.parse::<i32>().map(EventPayloadValue::Int32).unwrap_or_else(|_| EventPayloadValue::Int64(text.parse().unwrap())),
            2 => text.parse::<u32>().map(EventPayloadValue::Uint32).unwrap_or_else(|_| EventPayloadValue::Int64(text.parse().unwrap())),
            3 => text.parse::<u64>().map(EventPayloadValue::Uint64).unwrap_or_else(|_| EventPayloadValue::Int64(text.parse().unwrap())),
            _ => EventPayloadValue::Int64(text.parse().unwrap()),
        },
        "f" => { let x: f64 = text.parse().unwrap(); if form == 1 && (x as f32) as f64 == x { EventPayloadValue::Float32(x as f32) } else { EventPayloadValue::Float64(x) } }
        _ => EventPayloadValue::Guid(uuid::Uuid::parse_str(text).unwrap()),
    }
}

fn net(v: &Value) -> (DefaultPetriNet, Vec<u64>, Vec<u64>) {
    let mut n = DefaultPetriNet::empty();
    let ps: Vec<u64> = v["places"].as_array().unwrap().iter().map(|p| n.add_place(Place::with_name(p.as_str().unwrap().to_string()))).collect();
    let mut ts = vec![];
    for t in v["trans"].as_array().unwrap() {
        let d = t["data"].as_str().unwrap();
        let id = n.add_transition(Transition::empty(t["name"].as_str().unwrap().to_string(), false, if d == "" { None } else { Some(d.to_string()) }));
        for p in t["pre"].as_array().unwrap() { n.connect_place_to_transition(&ps[p.as_u64().unwrap() as usize - 1], &id, None); }
        for p in t["post"].as_array().unwrap() { n.connect_transition_to_place(&id, &ps[p.as_u64().unwrap() as usize - 1], None); }
        ts.push(id);
    }
    (n, ps, ts)
}

fn all(case: &Value, out: &Mutex<Vec<Value>>) {
    let keys = ContextKeys::new();
    let parts = PipelineParts::new();
    let mut log: Option<XesEventLogImpl> = None;
    let exec = |ctx: &mut PipelineContext, name: &str, cfg: UserDataImpl| -> String {
        let mut pl = Pipeline::empty();
        pl.push(Box::new((parts.find_part(name).expect("part"))(Box::new(cfg))));
        match pl.execute(ctx, &PipelineInfrastructure::new(None), &keys) { Ok(_) => "".to_string(), Err(e) => e.to_string() }
    };
    for s in case["steps"].as_array().unwrap() {
        let obs = guarded(|| {
            let part = s["how"].as_str().unwrap_or("") == "part";
            match s["op"].as_str().unwrap() {
                op @ ("read" | "reread" | "nothing") => {
                    if op == "read" { std::fs::write("in.xes", s["text"].as_str().unwrap()).unwrap(); }
                    let p = match op { "read" => "in.xes", "reread" => "out.xes", _ => "there/is/none.xes" };
                    let got = if part {
                        let mut ctx = PipelineContext::new_with_logging(&parts);
                        ctx.put_concrete(keys.path().key(), p.to_string());
                        let e = exec(&mut ctx, "ReadLogFromXes", UserDataImpl::new());
                        if e == "" { ctx.concrete(keys.event_log().key()).map(|l| l.clone()) } else { None }
                    } else { read_event_log(p) };
                    let o = match &got { Some(l) => json!({"err": "", "some": true, "log": show(l)}), None => json!({"err": "", "some": false}) };
                    if got.is_some() { log = got; }
                    o
                }
                "set" => {
                    let l = log.as_ref().unwrap();
                    let tr = l.traces()[s["i"].as_u64().unwrap() as usize - 1].borrow();
                    let mut e = tr.events()[s["j"].as_u64().unwrap() as usize - 1].borrow_mut();
                    let v = value(s["v"][0].as_str().unwrap(), s["text"].as_str().unwrap(), s["form"].as_i64().unwrap());
                    match (s["key"].as_i64().unwrap(), v) {
                        (1, EventPayloadValue::String(n)) => e.set_name(n.as_ref().as_ref().clone()),
                        (2, EventPayloadValue::Date(d)) => e.set_timestamp(d),
                        (_, v) => e.add_or_update_payload(s["name"].as_str().unwrap().to_string(), v),
                    }
                    drop(e);
                    drop(tr);
                    json!({"err": "", "log": show(l)})
                }
                "write" => {
                    let l = log.as_ref().unwrap();
                    let _ = std::fs::remove_file("out.xes");
                    if part {
                        let mut ctx = PipelineContext::new_with_logging(&parts);
                        ctx.put_concrete(keys.event_log().key(), l.clone());
                        let mut cfg = UserDataImpl::new();
                        cfg.put_concrete(keys.path().key(), "out.xes".to_string());
                        let e = exec(&mut ctx, "WriteLogToXes", cfg);
                        if e != "" { return json!({"err": e}); }
                    } else {
                        if let Err(e) = write_log(l, "out.xes") { return json!({"err": e.to_string()}); }
                        if serialize_event_log(l).map_err(|e| e.to_string()) != Ok(std::fs::read_to_string("out.xes").unwrap()) { return json!({"err": "two texts"}); }
                    }
                    json!({"err": "", "text": std::fs::read_to_string("out.xes").unwrap(), "log": show(l)})
                }
                _ => {
                    let (n, ps, ts) = net(&s["net"]);
                    let names = s["names"].as_bool().unwrap();
                    let text = if part {
                        let mut ctx = PipelineContext::new_with_logging(&parts);
                        ctx.put_concrete(keys.petri_net().key(), n);
                        let mut cfg = UserDataImpl::new();
                        cfg.put_concrete(keys.path().key(), "net.pnml".to_string());
                        cfg.put_concrete(keys.pnml_use_names_as_ids().key(), names);
                        let e = exec(&mut ctx, "SerializePetriNet", cfg);
                        if e != "" { return json!({"err": e}); }
                        std::fs::read_to_string("net.pnml").unwrap()
                    } else if names {
                        serialize_to_pnml(&n, names).unwrap()
                    } else {
                        serialize_to_pnml_file(&n, "net.pnml", names).unwrap();
                        std::fs::read_to_string("net.pnml").unwrap()
                    };
                    json!({"err": "", "text": text, "ps": ps.iter().map(|x| x.to_string()).collect::<Vec<_>>(), "ts": ts.iter().map(|x| x.to_string()).collect::<Vec<_>>()})
                }
            }
        });
        let stop = obs["err"].as_str().unwrap() != "" || obs["some"] == json!(false);
        out.lock().unwrap().push(with(s, obs));
        if stop { return; }
    }
}

fn main() {
    let hangs = std::cell::Cell::new(0);
    run(|case| {
        if hangs.get() >= 4 { return json!({"t": case["t"], "steps": []}); }
        let out = Arc::new(Mutex::new(vec![]));
        let (tx, rx) = mpsc::channel();
        let (c, o) = (case.clone(), out.clone());
        std::thread::spawn(move || { all(&c, &o); let _ = tx.send(()); });
        let done = rx.recv_timeout(std::time::Duration::from_secs(8)).is_ok();
        let mut steps = out.lock().unwrap().clone();
        if !done {
            hangs.set(hangs.get() + 1);
            let k = steps.len();
            steps.push(with(&case["steps"][k], json!({"err": "no answer"})));
        }
        json!({"t": case["t"], "steps": steps})
    });
}
