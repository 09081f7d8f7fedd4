// Shared by the drivers: one JSON case per line in, one JSON history per line out.
#![allow(dead_code, unused_imports)]
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::{BufRead, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

thread_local! { pub static LAST: RefCell<String> = RefCell::new(String::new()); }

pub fn guarded<F: FnOnce() -> Value>(f: F) -> Value {
    LAST.with(|l| l.borrow_mut().clear());
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => v,
        Err(_) => json!({"err": LAST.with(|l| l.borrow().clone())}),
    }
}

pub fn run<F: Fn(&Value) -> Value>(f: F) {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { "panic".to_string() };
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST.with(|l| *l.borrow_mut() = format!("panic: {} at {}", m, at));
    }));
    let a: Vec<String> = std::env::args().collect();
    let inp = std::io::BufReader::new(std::fs::File::open(&a[1]).unwrap());
    let mut out = BufWriter::new(std::fs::File::create(&a[2]).unwrap());
    for line in inp.lines() {
        let line = line.unwrap();
        let case: Value = serde_json::from_str(&line).unwrap();
        let h = f(&case);
        writeln!(out, "{}", h).unwrap();
        out.flush().unwrap();
    }
}

/// names <-> numbers of the event classes
pub struct Names { pub names: Vec<String> }
impl Names {
    pub fn of(case: &Value) -> Names {
        Names { names: case["names"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect() }
    }
    pub fn name(&self, v: &Value) -> String { self.names[v.as_i64().unwrap() as usize].clone() }
    pub fn id(&self, s: &str) -> i64 {
        match s {
            "FAKE_START" => return -1,
            "FAKE_END" => return -2,
            "ARTIFICIAL_START" => return -3,
            "ARTIFICIAL_END" => return -4,
            _ => {}
        }
        self.names.iter().position(|x| x == s).map(|x| x as i64).unwrap_or(-99)
    }
    pub fn set(&self, v: &Value) -> std::collections::HashSet<String> {
        v.as_array().unwrap().iter().map(|x| self.name(x)).collect()
    }
    pub fn log(&self, v: &Value) -> Vec<Vec<String>> {
        v.as_array().unwrap().iter().map(|t| t.as_array().unwrap().iter().map(|e| self.name(e)).collect()).collect()
    }
    pub fn ids(&self, l: &Vec<Vec<String>>) -> Value {
        json!(l.iter().map(|t| t.iter().map(|e| self.id(e)).collect::<Vec<i64>>()).collect::<Vec<_>>())
    }
}

pub fn with(step: &Value, obs: Value) -> Value {
    let mut s = step.clone();
    s["obs"] = obs;
    s
}

pub fn groups_by_hash(l: Vec<Vec<u64>>) -> Vec<Vec<i64>> {
    let mut seen: Vec<u64> = vec![];
    l.iter().map(|t| t.iter().map(|h| match seen.iter().position(|x| x == h) {
        Some(p) => p as i64,
        None => { seen.push(*h); (seen.len() - 1) as i64 }
    }).collect()).collect()
}
