RUST = True
PROPERTY = 'C28'
NEEDS = 'a nested pipeline whose part fails, with a surrounding pipeline that goes on'
BREAKS = 'a failure inside a nested pipeline is swallowed unless it is a missing context value: the parts after it run as if it had succeeded'
EDITS = [('pipelines/util_parts.rs', '            pipeline.execute(context, infra, keys)?;\n\n            Ok(())', '''            match pipeline.execute(context, infra, keys) {
                Err(PipelinePartExecutionError::MissingContext(error)) => Err(PipelinePartExecutionError::MissingContext(error)),
                _ => Ok(()),
            }''')]
DEMO = r'''
use ficus_backend::event_log::core::event_log::EventLog;
use ficus_backend::event_log::xes::xes_event_log::XesEventLogImpl;
use ficus_backend::pipelines::context::{PipelineContext, PipelineInfrastructure};
use ficus_backend::pipelines::keys::context_keys::ContextKeys;
use ficus_backend::pipelines::pipeline_parts::PipelineParts;
use ficus_backend::pipelines::pipelines::{Pipeline, PipelinePart};
use ficus_backend::utils::user_data::user_data::{UserData, UserDataImpl};
fn main() {
    let keys = ContextKeys::new();
    let parts = PipelineParts::new();
    let bad_regex = "[".to_string();
    let mut bad = UserDataImpl::new();
    bad.put_concrete(keys.regex().key(), bad_regex);
    let mut inner = Pipeline::empty();
    inner.push(Box::new(parts.find_part("FilterEventsByRegex").unwrap()(Box::new(bad))));
    let mut cfg = UserDataImpl::new();
    cfg.put_concrete(keys.pipeline().key(), inner);
    let mut outer = Pipeline::empty();
    outer.push(Box::new(parts.find_part("ExecuteFrontendPipeline").unwrap()(Box::new(cfg))));
    let mut ctx = PipelineContext::new_with_logging(&parts);
    ctx.put_concrete(keys.event_log().key(), XesEventLogImpl::empty());
    assert!(outer.execute(&mut ctx, &PipelineInfrastructure::new(None), &keys).is_err());
}
'''
