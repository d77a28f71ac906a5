// Event logs as JSON: built, serialized, read back, converted to and from bxes.
#![allow(dead_code)]
use crate::common::{rc, st, strings};
use bxes::models::{BxesEventLog, BxesValue};
use chrono::{DateTime, TimeZone, Utc};
use ficus_backend::event_log::bxes::bxes_to_xes_converter::read_bxes_into_xes_log;
use ficus_backend::event_log::bxes::xes_to_bxes_converter::write_event_log_to_bxes;
use ficus_backend::event_log::core::event::event::{Event, EventPayloadValue as V};
use ficus_backend::event_log::core::event::lifecycle::braf_lifecycle::XesBrafLifecycle;
use ficus_backend::event_log::core::event::lifecycle::standard_lifecycle::XesStandardLifecycle;
use ficus_backend::event_log::core::event::lifecycle::xes_lifecycle::Lifecycle;
use ficus_backend::event_log::core::event_log::EventLog;
use ficus_backend::event_log::core::trace::trace::Trace;
use ficus_backend::event_log::xes::reader::file_xes_log_reader::read_event_log;
use ficus_backend::event_log::xes::shared::{XesClassifier, XesEventLogExtension, XesProperty};
use ficus_backend::event_log::xes::writer::xes_event_log_writer::{serialize_event_log, write_log};
use ficus_backend::event_log::xes::xes_event::XesEventImpl;
use ficus_backend::event_log::xes::xes_event_log::XesEventLogImpl;
use ficus_backend::event_log::xes::xes_trace::XesTraceImpl;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::rc::Rc;
use std::str::FromStr;

pub fn date(v: &Value) -> DateTime<Utc> {
    match v.as_str() {
        Some("min") => DateTime::<Utc>::MIN_UTC,
        Some(_) => DateTime::<Utc>::MAX_UTC,
        None => Utc.timestamp_opt(v[0].as_i64().unwrap(), v[1].as_u64().unwrap() as u32).unwrap(),
    }
}

pub fn date_json(d: &DateTime<Utc>) -> Value {
    if *d == DateTime::<Utc>::MIN_UTC {
        json!("min")
    } else if *d == DateTime::<Utc>::MAX_UTC {
        json!("max")
    } else {
        json!([d.timestamp(), d.timestamp_subsec_nanos()])
    }
}

pub fn value(v: &Value) -> V {
    let x = &v[1];
    match v[0].as_str().unwrap() {
        "date" => V::Date(date(x)),
        "string" => V::String(Rc::new(Box::new(st(x)))),
        "bool" => V::Boolean(x.as_bool().unwrap()),
        "i32" => V::Int32(x.as_i64().unwrap() as i32),
        "i64" => V::Int64(x.as_i64().unwrap()),
        "u32" => V::Uint32(x.as_u64().unwrap() as u32),
        "u64" => V::Uint64(x.as_u64().unwrap()),
        "f32" => V::Float32(st(x).parse().unwrap()),
        "f64" => V::Float64(st(x).parse().unwrap()),
        "guid" => V::Guid(uuid::Uuid::parse_str(&st(x)).unwrap()),
        "standard" => V::Lifecycle(Lifecycle::XesStandardLifecycle(XesStandardLifecycle::from_str(&st(x)).unwrap())),
        "braf" => V::Lifecycle(Lifecycle::BrafLifecycle(XesBrafLifecycle::from_str(&st(x)).unwrap())),
        other => panic!("unknown kind of value {other}"),
    }
}

pub fn value_json(v: &V) -> Value {
    match v {
        V::Date(x) => json!(["date", date_json(x)]),
        V::String(x) => json!(["string", x.as_ref().as_ref()]),
        V::Boolean(x) => json!(["bool", x]),
        V::Int32(x) => json!(["i32", x]),
        V::Int64(x) => json!(["i64", x]),
        V::Uint32(x) => json!(["u32", x]),
        V::Uint64(x) => json!(["u64", x]),
        V::Float32(x) => json!(["f32", format!("{x}")]),
        V::Float64(x) => json!(["f64", format!("{x}")]),
        V::Guid(x) => json!(["guid", x.to_string()]),
        V::Timestamp(x) => json!(["timestamp", x]),
        V::Lifecycle(Lifecycle::XesStandardLifecycle(x)) => json!(["standard", x.to_string()]),
        V::Lifecycle(Lifecycle::BrafLifecycle(x)) => json!(["braf", x.to_string()]),
    }
}

fn pairs(v: &Value) -> Vec<(String, V)> {
    v.as_array().unwrap().iter().map(|kv| (st(&kv[0]), value(&kv[1]))).collect()
}

pub fn build(v: &Value) -> XesEventLogImpl {
    let mut log = XesEventLogImpl::empty();
    for e in v["extensions"].as_array().unwrap() {
        log.extensions_mut().push(XesEventLogExtension { name: st(&e[0]), prefix: st(&e[1]), uri: st(&e[2]) });
    }
    for c in v["classifiers"].as_array().unwrap() {
        log.classifiers_mut().push(XesClassifier { name: st(&c[0]), keys: strings(&c[1]) });
    }
    for (name, value) in pairs(&v["properties"]) {
        log.properties_mut().push(XesProperty { name, value });
    }
    for g in v["globals"].as_array().unwrap() {
        log.globals_mut().insert(st(&g[0]), pairs(&g[1]).into_iter().collect());
    }
    for t in v["traces"].as_array().unwrap() {
        let mut trace = XesTraceImpl::empty();
        for e in t.as_array().unwrap() {
            let payload: Option<HashMap<String, V>> = if e[2].is_null() { None } else { Some(pairs(&e[2]).into_iter().collect()) };
            trace.push(rc(XesEventImpl::new_all_fields(Rc::new(Box::new(st(&e[0]))), date(&e[1]), payload)));
        }
        log.push(rc(trace));
    }
    log
}

pub fn dump(log: &XesEventLogImpl) -> Value {
    let payload = |p: Vec<(&String, &V)>| -> Vec<Value> { p.iter().map(|(k, v)| json!([k, value_json(v)])).collect() };
    json!({
        "extensions": log.extensions().iter().map(|e| json!([e.name, e.prefix, e.uri])).collect::<Vec<_>>(),
        "classifiers": log.classifiers().iter().map(|c| json!([c.name, c.keys])).collect::<Vec<_>>(),
        "properties": log.properties_map().iter().map(|p| json!([p.name, value_json(&p.value)])).collect::<Vec<_>>(),
        "globals": log.ordered_globals().into_iter().map(|(s, d)| json!([s, payload(d)])).collect::<Vec<_>>(),
        "traces": log.traces().iter().map(|t| {
            let t = t.borrow();
            t.events().iter().map(|e| {
                let e = e.borrow();
                json!([e.name(), date_json(e.timestamp()), payload(e.ordered_payload())])
            }).collect::<Vec<_>>()
        }).collect::<Vec<_>>(),
    })
}

pub fn handle(op: &str, r: &Value) -> Option<Value> {
    let path = r["path"].as_str().unwrap_or("");
    Some(match op {
        "serialize" => match serialize_event_log(&build(&r["log"])) {
            Ok(text) => json!({ "text": text }),
            Err(err) => json!({"error": err.to_string()}),
        },
        "write_xes" => match write_log(&build(&r["log"]), path) {
            Ok(()) => json!({}),
            Err(err) => json!({"error": err.to_string()}),
        },
        "read_xes" => match read_event_log(path) {
            Some(log) => json!({ "log": dump(&log) }),
            None => json!({"error": "none"}),
        },
        "write_bxes" => match write_event_log_to_bxes(&build(&r["log"]), path) {
            Ok(()) => json!({}),
            Err(err) => json!({"error": err.to_string()}),
        },
        "read_bxes" => match read_bxes_into_xes_log(path) {
            Ok(log) => json!({ "log": dump(&log) }),
            Err(err) => json!({"error": err.to_string()}),
        },
        "bxes_model" => match bxes::read::single_file_bxes_reader::read_bxes(path) {
            Ok(log) => json!({ "model": log }),
            Err(err) => json!({"error": err.to_string()}),
        },
        "put_bxes_model" => {
            let log: BxesEventLog = serde_json::from_value(r["model"].clone()).expect("model");
            bxes::writer::single_file_bxes_writer::write_bxes(path, &log).expect("write");
            json!({})
        }
        "clone_log" => json!({ "log": dump(&build(&r["log"]).clone()) }),
        "lifecycle" => {
            let s = r["text"].as_str().unwrap();
            json!({
                "standard": XesStandardLifecycle::from_str(s).ok().map(|x| (x.to_string(), x as i32)),
                "braf": XesBrafLifecycle::from_str(s).ok().map(|x| (x.to_string(), x as i32)),
            })
        }
        _ => return None,
    })
}
