// Serves requests `{"op": ..., ...}` line by line; a panic of the backend is reported, not fatal.
#![allow(dead_code)]
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::Mutex;

static PANIC: Mutex<String> = Mutex::new(String::new());

pub fn serve(handler: impl Fn(&str, &Value) -> Value) {
    std::panic::set_hook(Box::new(|info| {
        let place = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let payload = info.payload();
        let message = payload.downcast_ref::<&str>().map(|s| s.to_string()).or(payload.downcast_ref::<String>().cloned());
        *PANIC.lock().unwrap() = format!("{} at {}", message.unwrap_or_default(), place);
    }));
    let stdin = std::io::stdin();
    let mut out = std::io::stdout().lock();
    let mut line = String::new();
    let mut input = stdin.lock();
    loop {
        line.clear();
        if input.read_line(&mut line).unwrap_or(0) == 0 {
            return;
        }
        let request: Value = serde_json::from_str(&line).unwrap();
        let op = request["op"].as_str().unwrap().to_owned();
        if op == "last_panic" {
            let message = std::mem::take(&mut *PANIC.lock().unwrap());
            serde_json::to_writer(&mut out, &json!({ "ok": message })).unwrap();
            out.write_all(b"\n").unwrap();
            out.flush().unwrap();
            continue;
        }
        let response = match catch_unwind(AssertUnwindSafe(|| handler(&op, &request))) {
            Ok(value) => json!({ "ok": value }),
            Err(_) => json!({ "panic": PANIC.lock().unwrap().clone() }),
        };
        serde_json::to_writer(&mut out, &response).unwrap();
        out.write_all(b"\n").unwrap();
        out.flush().unwrap();
    }
}

pub fn us(v: &Value) -> usize {
    v.as_u64().unwrap() as usize
}

pub fn st(v: &Value) -> String {
    v.as_str().unwrap().to_owned()
}

pub fn strings(v: &Value) -> Vec<String> {
    v.as_array().unwrap().iter().map(st).collect()
}

pub fn names_log(v: &Value) -> Vec<Vec<String>> {
    v.as_array().unwrap().iter().map(strings).collect()
}

pub fn hashes_log(v: &Value) -> Vec<Vec<u64>> {
    v.as_array().unwrap().iter().map(|t| t.as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect()).collect()
}

pub fn rc<T>(value: T) -> Rc<RefCell<T>> {
    Rc::new(RefCell::new(value))
}
