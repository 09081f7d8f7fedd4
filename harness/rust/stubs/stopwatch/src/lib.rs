pub struct Stopwatch;
impl Stopwatch { pub fn start_new() -> Self { Stopwatch } pub fn elapsed_ms(&self) -> i64 { 0 } pub fn stop(&mut self) {} }
