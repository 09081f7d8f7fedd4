PROPERTY = 'C31'
RUST = True
NEEDS = 'defaults for events and an event that says otherwise'
BREAKS = 'values of an event do not replace the defaults'
EDITS = [('event_log/xes/reader/xes_log_trace_reader.rs', '''                if payload.contains_key(key) {
                    *payload.get_mut(key).unwrap() = payload_value;
                } else {
                    payload.insert(key.to_owned(), payload_value);
                }
''', '''                payload.entry(key.to_owned()).or_insert(payload_value);
''')]
DEMO = r'''
use ficus_backend::event_log::core::event::event::{Event, EventPayloadValue};
use ficus_backend::event_log::core::{event_log::EventLog, trace::trace::Trace};
use ficus_backend::event_log::xes::reader::file_xes_log_reader::read_event_log;
fn main() {
    let d = std::env::temp_dir().join(format!("s38-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    let p = d.join("x.xes");
    let p = p.to_str().unwrap();
    std::fs::write(p, "<log><global scope=\"event\"><int key=\"n\" value=\"1\"/></global><trace><event><string key=\"concept:name\" value=\"A\"/>\
        <date key=\"time:timestamp\" value=\"2020-01-01T00:00:00+00:00\"/><int key=\"n\" value=\"2\"/></event></trace></log>").unwrap();
    let a = read_event_log(p).unwrap();
    std::fs::remove_dir_all(&d).unwrap();
    let t = a.traces()[0].borrow();
    let e = t.events()[0].borrow();
    std::process::exit(if e.payload_map().unwrap()["n"] == EventPayloadValue::Int64(2) { 0 } else { 1 });
}
'''
