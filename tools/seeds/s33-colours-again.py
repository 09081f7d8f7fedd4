RUST = True
PROPERTY = 'C28'
NEEDS = 'two drawings in one context, of which one is made in another (nested or later) pipeline'
BREAKS = 'every pipeline starts with fresh colours: the same event class is drawn in another colour than before'
EDITS = [('pipelines/pipelines.rs', '        if let None = context.concrete(keys.colors_holder().key()) {', '        if !self.parts.is_empty() || context.concrete(keys.colors_holder().key()).is_none() {')]
DEMO = r'''
use ficus_backend::event_log::core::event::event::Event;
use ficus_backend::event_log::core::event_log::EventLog;
use ficus_backend::event_log::core::trace::trace::Trace;
use ficus_backend::event_log::xes::{xes_event::XesEventImpl, xes_event_log::XesEventLogImpl, xes_trace::XesTraceImpl};
use ficus_backend::pipelines::context::{PipelineContext, PipelineInfrastructure};
use ficus_backend::pipelines::keys::context_keys::ContextKeys;
use ficus_backend::pipelines::pipeline_parts::PipelineParts;
use ficus_backend::pipelines::pipelines::{Pipeline, PipelinePart};
use ficus_backend::utils::user_data::keys::Key;
use ficus_backend::utils::user_data::user_data::{UserData, UserDataImpl};
use std::cell::RefCell;
use std::rc::Rc;
fn main() {
    let keys = ContextKeys::new();
    let parts = PipelineParts::new();
    let mut trace = XesTraceImpl::empty();
    for i in 0..4 { trace.push(Rc::new(RefCell::new(XesEventImpl::new_with_min_date(format!("class {}", i))))); }
    let mut log = XesEventLogImpl::empty();
    log.push(Rc::new(RefCell::new(trace)));
    let mut ctx = PipelineContext::new_with_logging(&parts);
    ctx.put_concrete(keys.event_log().key(), log);
    let mut draw = || {
        let mut p = Pipeline::empty();
        p.push(Box::new(parts.find_part("TracesDiversityDiagram").unwrap()(Box::new(UserDataImpl::new()))));
        p.execute(&mut ctx, &PipelineInfrastructure::new(None), &keys).ok().unwrap();
        ctx.concrete(keys.colors_event_log().key()).unwrap()[0].iter().map(|r| { let c = r.color(); (c.red(), c.green(), c.blue()) }).collect::<Vec<_>>()
    };
    assert_eq!(draw(), draw());
}
'''
