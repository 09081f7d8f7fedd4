PROPERTY = 'C31'
RUST = True
NEEDS = 'a date among the values of an event, with a time finer than milliseconds'
BREAKS = 'written dates are cut to milliseconds'
EDITS = [('event_log/core/event/event.rs', 'EventPayloadValue::Date(date) => date.to_rfc3339(),', 'EventPayloadValue::Date(date) => date.to_rfc3339_opts(chrono::SecondsFormat::Millis, false),')]
DEMO = r'''
use ficus_backend::event_log::core::event::event::{Event, EventPayloadValue};
use ficus_backend::event_log::core::{event_log::EventLog, trace::trace::Trace};
use ficus_backend::event_log::xes::{reader::file_xes_log_reader::read_event_log, writer::xes_event_log_writer::write_log};
fn main() {
    let d = std::env::temp_dir().join(format!("s37-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    let p = d.join("x.xes");
    let p = p.to_str().unwrap();
    std::fs::write(p, "<log><trace><event><string key=\"concept:name\" value=\"A\"/><date key=\"time:timestamp\" value=\"2020-01-01T00:00:00+00:00\"/>\
        <date key=\"due\" value=\"2020-01-02T03:04:05.123456+00:00\"/></event></trace></log>").unwrap();
    let a = read_event_log(p).unwrap();
    write_log(&a, p).unwrap();
    let b = read_event_log(p).unwrap();
    let due = |l: &ficus_backend::event_log::xes::xes_event_log::XesEventLogImpl| -> EventPayloadValue {
        let t = l.traces()[0].borrow();
        let e = t.events()[0].borrow();
        e.payload_map().unwrap()["due"].clone()
    };
    let same = due(&a) == due(&b);
    std::fs::remove_dir_all(&d).unwrap();
    std::process::exit(if same { 0 } else { 1 });
}
'''
