// Histories of operations on logs, with everything that is measured after each of them; interval trees, graphs, user data.
#![allow(dead_code)]
use crate::common::{names_log, rc, st, strings, us};
use crate::logs::date_json;
use chrono::{TimeZone, Utc};
use fancy_regex::Regex;
use ficus_backend::event_log::core::event::event::Event;
use ficus_backend::event_log::core::event::event_hasher::{EventHasher, NameEventHasher, RegexEventHasher};
use ficus_backend::event_log::core::event_log::EventLog;
use ficus_backend::event_log::core::trace::trace::{Trace, TraceEventsPositions, TraceInfo};
use ficus_backend::event_log::simple::simple_event_log::SimpleEventLog;
use ficus_backend::event_log::xes::xes_event_log::XesEventLogImpl;
use ficus_backend::features::analysis::entropy::dfg_entropy::{calculate_default_dfg_entropy, calculate_laplace_dfg_entropy};
use ficus_backend::features::analysis::entropy::pos_entropy::{calculate_pos_entropies, calculate_pos_entropy_for_event};
use ficus_backend::features::analysis::entropy::pos_entropy_fast::{calculate_pos_entropies_fast, calculate_pos_entropy_for_event_fast};
use ficus_backend::features::analysis::event_log_info::{count_events, EventLogInfo, EventLogInfoCreationDto};
use ficus_backend::features::mutations::filtering::{filter_log_by_name, filter_log_by_names, filter_log_by_regex};
use ficus_backend::features::mutations::mutations::{add_artificial_start_end_activities, rename_events};
use ficus_backend::features::mutations::split::{get_traces_groups_indices, split_by_traces};
use ficus_backend::utils::graph::graph::Graph;
use ficus_backend::utils::interval_tree::interval::Interval;
use ficus_backend::utils::interval_tree::interval_tree::IntervalTree;
use ficus_backend::utils::user_data::keys::DefaultKey;
use ficus_backend::utils::user_data::user_data::{UserData, UserDataImpl};
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet};

fn set_of(v: &Value) -> HashSet<String> {
    v.as_array().unwrap().iter().map(st).collect()
}

fn fill<TLog: EventLog>(names: Vec<Vec<String>>) -> TLog {
    let mut log = TLog::empty();
    for (i, t) in names.into_iter().enumerate() {
        let mut trace = TLog::TTrace::empty();
        for (j, n) in t.into_iter().enumerate() {
            trace.push(rc(TLog::TEvent::new(n, Utc.timestamp_opt((i * 100 + j) as i64, 0).unwrap())));
        }
        log.push(rc(trace));
    }
    log
}

fn apply<TLog: EventLog>(log: &mut TLog, op: &Value) {
    let event = |name: &Value| rc(TLog::TEvent::new(st(name), Utc.timestamp_opt(7, 0).unwrap()));
    match op[0].as_str().unwrap() {
        "name" => filter_log_by_name(log, &st(&op[1])),
        "names" => filter_log_by_names(log, &set_of(&op[1])),
        "regex" => filter_log_by_regex(log, &Regex::new(&st(&op[1])).unwrap()),
        "traces" => log.filter_traces(&|t: &TLog::TTrace, i: &usize| op[1].as_array().unwrap().iter().any(|x| us(x) == *i) || t.events().len() == us(&op[2])),
        "rename" => rename_events(log, &st(&op[1]), |e| op[2].as_array().unwrap().iter().any(|x| x.as_str().unwrap() == e.name())),
        "ends" => add_artificial_start_end_activities(log, op[1] == true, op[2] == true),
        "push" => {
            if let Some(t) = log.traces().get(us(&op[1])) {
                t.borrow_mut().push(event(&op[2]));
            }
        }
        "insert" => {
            if let Some(t) = log.traces().get(us(&op[1])) {
                t.borrow_mut().events_mut().insert(0, event(&op[2]));
            }
        }
        "add" => {
            let mut trace = TLog::TTrace::empty();
            for n in op[1].as_array().unwrap() {
                trace.push(event(n));
            }
            log.push(rc(trace));
        }
        "clone" => *log = log.clone(),
        "aside" => apply(&mut log.clone(), &op[1]),
        other => panic!("unknown operation {other}"),
    }
}

fn snapshot<TLog: EventLog>(log: &TLog, classes: &[String], ignored: Option<&HashSet<String>>) -> Value {
    let hashes = log.to_hashes_event_log(&NameEventHasher::new());
    let mut known: Vec<u64> = vec![];
    let hashes: Vec<Vec<usize>> = hashes
        .iter()
        .map(|t| {
            t.iter()
                .map(|h| {
                    known.iter().position(|k| k == h).unwrap_or_else(|| {
                        known.push(*h);
                        known.len() - 1
                    })
                })
                .collect()
        })
        .collect();
    let traces: Vec<Value> = log
        .traces()
        .iter()
        .map(|t| {
            let mut t = t.borrow_mut();
            let names = t.to_names_vec();
            let counts = t.get_or_create_trace_info().events_counts().clone();
            let count = t.get_or_create_trace_info().events_count();
            let positions = t.get_or_create_events_positions();
            let positions: Vec<Option<Vec<usize>>> = classes.iter().map(|c| positions.event_positions(c).cloned()).collect();
            let dates: Vec<Value> = t.events().iter().map(|e| date_json(e.borrow().timestamp())).collect();
            json!({ "names": names, "counts": counts, "count": count, "positions": positions, "dates": dates })
        })
        .collect();
    let owned = ignored.cloned();
    let one: Vec<Value> = classes
        .iter()
        .map(|c| {
            if log.traces().is_empty() || ignored.map(|s| s.contains(c)).unwrap_or(false) {
                return json!(null);
            }
            json!([calculate_pos_entropy_for_event(log, c, ignored), calculate_pos_entropy_for_event_fast(log, c, ignored)])
        })
        .collect();
    let info = EventLogInfo::create_from(EventLogInfoCreationDto::default(log));
    json!({
        "raw": log.to_raw_vector(), "hashes": hashes, "traces": traces, "total": count_events(log),
        "slow": calculate_pos_entropies(log, &owned), "fast": calculate_pos_entropies_fast(log, ignored), "one": one,
        "dfg": calculate_default_dfg_entropy(log, ignored), "laplace": calculate_laplace_dfg_entropy(log, ignored),
        "groups": get_traces_groups_indices(log),
        "split": split_by_traces(log).iter().map(|g| g.iter().map(|t| t.borrow().to_names_vec()).collect::<Vec<_>>()).collect::<Vec<_>>(),
        "info": [info.traces_count(), info.events_count(), info.event_classes_count()],
    })
}

fn history<TLog: EventLog>(r: &Value) -> Value {
    let classes = strings(&r["classes"]);
    let ignored = if r["ignored"].is_null() { None } else { Some(set_of(&r["ignored"])) };
    let mut log: TLog = fill(names_log(&r["log"]));
    let mut out = vec![];
    for op in r["ops"].as_array().unwrap() {
        if op[0] == "measure" {
            out.push(snapshot(&log, &classes, ignored.as_ref()));
        } else {
            apply(&mut log, op);
        }
    }
    json!(out)
}

fn text<'a>(items: impl Iterator<Item = Option<&'a String>>) -> String {
    let mut items: Vec<String> = items.map(|x| x.cloned().unwrap_or("-".to_owned())).collect();
    items.sort();
    items.join("+")
}

pub fn handle(op: &str, r: &Value) -> Option<Value> {
    Some(match op {
        "history" => match r["kind"].as_str().unwrap() {
            "simple" => history::<SimpleEventLog>(r),
            _ => history::<XesEventLogImpl>(r),
        },
        "simple" => {
            let names = names_log(&r["log"]);
            let log = SimpleEventLog::new(&names.iter().map(|t| t.iter().map(|s| s.as_str()).collect()).collect());
            json!(log.to_raw_vector())
        }
        "hasher" => match RegexEventHasher::new(&st(&r["regex"])) {
            Err(_) => json!(null),
            Ok(hasher) => {
                let names = strings(&r["names"]);
                let log: XesEventLogImpl = fill(vec![names.clone()]);
                let of_events: Vec<u64> = log.traces()[0].borrow().events().iter().map(|e| hasher.hash(&*e.borrow())).collect();
                json!(names.iter().zip(of_events).map(|(n, h)| json!([hasher.transform(n), hasher.hash_name(n).to_string(), h.to_string()])).collect::<Vec<_>>())
            }
        },
        "intervals" => {
            let number = |v: &Value| v.as_i64().unwrap() as i32;
            let intervals: Vec<Interval<i32, usize>> =
                r["intervals"].as_array().unwrap().iter().enumerate().map(|(i, v)| Interval::new_with_data(number(&v[0]), number(&v[1]), Some(i))).collect();
            let mut tree = IntervalTree::new(&intervals, |l: &i32, r: &i32| *l..(*r + 1));
            let dump = |found: Vec<Interval<i32, usize>>| -> Value { json!(found.iter().map(|i| json!([i.left, i.right, i.data])).collect::<Vec<_>>()) };
            let points: Vec<Value> = r["points"].as_array().unwrap().iter().map(|p| dump(tree.search_overlaps_for_point(number(p)))).collect();
            let ranges: Vec<Value> = r["ranges"]
                .as_array()
                .unwrap()
                .iter()
                .map(|p| json!([dump(tree.search_overlaps_for_interval(number(&p[0]), number(&p[1]))), dump(tree.search_envelopes(number(&p[0]), number(&p[1])))]))
                .collect();
            json!({ "points": points, "ranges": ranges })
        }
        "graph" => {
            let mut g: Graph<String, String> = Graph::empty();
            let mut ids: Vec<u64> = vec![];
            let mut out = vec![];
            for op in r["ops"].as_array().unwrap() {
                let result = match op[0].as_str().unwrap() {
                    "node" => {
                        ids.push(g.add_node(op[1].as_str().map(|s| s.to_owned())));
                        json!(null)
                    }
                    "connect" => {
                        g.connect_nodes(&ids[us(&op[1])], &ids[us(&op[2])], op[3].as_str().map(|s| s.to_owned()));
                        json!(null)
                    }
                    "disconnect" => json!(g.disconnect_nodes(&ids[us(&op[1])], &ids[us(&op[2])])),
                    _ => {
                        let before: HashSet<u64> = g.all_nodes().iter().map(|n| *n.id()).collect();
                        g.merge_nodes_into_one(
                            &op[1].as_array().unwrap().iter().map(|i| ids[us(i)]).collect(),
                            |data| Some(text(data.into_iter())),
                            |data| Some(text(data.iter().cloned())),
                        );
                        ids.extend(g.all_nodes().iter().map(|n| *n.id()).filter(|n| !before.contains(n)));
                        json!(null)
                    }
                };
                let index = |id: &u64| ids.iter().position(|i| i == id);
                let all = |v: Vec<&u64>| v.into_iter().map(index).collect::<Vec<_>>();
                out.push(json!({
                    "result": result,
                    "nodes": g.all_nodes().iter().map(|n| json!([index(n.id()), n.data(), g.node(n.id()).is_some()])).collect::<Vec<_>>(),
                    "edges": g.all_edges().iter().map(|e| json!([index(e.from_node()), index(e.to_node()), e.data()])).collect::<Vec<_>>(),
                    "around": ids.iter().map(|i| json!([all(g.all_connected_nodes(i)), all(g.outgoing_nodes(i)), all(g.incoming_edges(i))])).collect::<Vec<_>>(),
                    "connected": ids.iter().map(|i| ids.iter().map(|j| g.are_nodes_connected(i, j)).collect::<Vec<_>>()).collect::<Vec<_>>(),
                }));
            }
            let ordered: HashMap<String, usize> = HashMap::new();
            drop(ordered);
            let edges = g.all_edges().len();
            let g = g.to_default_graph();
            json!({ "steps": out, "default": [g.all_nodes().len(), g.all_edges().len() == edges] })
        }
        "user_data" => {
            let keys = [DefaultKey::<String>::new("k".to_owned()), DefaultKey::<String>::new("k".to_owned())];
            let mut holders = vec![UserDataImpl::new()];
            let mut out = vec![];
            for op in r["ops"].as_array().unwrap() {
                let h = us(&op[1]);
                match op[0].as_str().unwrap() {
                    "put" => holders[h].put_concrete(&keys[us(&op[2])], st(&op[3])),
                    "put_any" => holders[h].put_any(&keys[us(&op[2])], st(&op[3])),
                    "remove" => holders[h].remove_concrete(&keys[us(&op[2])]),
                    "remove_any" => holders[h].remove_any::<String>(&keys[us(&op[2])]),
                    "change" => {
                        if let Some(value) = holders[h].concrete_mut(&keys[us(&op[2])]) {
                            value.push_str(&st(&op[3]));
                        }
                    }
                    _ => {
                        let copy = holders[h].clone();
                        holders.push(copy);
                    }
                }
                out.push(json!(holders
                    .iter()
                    .map(|u| json!([u.len(), keys.iter().map(|k| json!([u.concrete(k), u.get::<String>(k), u.any(k).is_some()])).collect::<Vec<_>>()]))
                    .collect::<Vec<_>>()));
            }
            json!(out)
        }
        _ => return None,
    })
}
