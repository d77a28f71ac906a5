// Discovery, Petri nets and graphs as JSON.
#![allow(dead_code)]
use crate::common::{st, us};
use crate::logs::build;
use ficus_backend::event_log::xes::xes_event_log::XesEventLogImpl;
use ficus_backend::features::analysis::directly_follows_graph::construct_dfg;
use ficus_backend::features::analysis::event_log_info::{count_events, EventLogInfo, EventLogInfoCreationDto};
use ficus_backend::features::discovery::alpha::alpha::{discover_petri_net_alpha, discover_petri_net_alpha_plus, find_transitions_one_length_loop};
use ficus_backend::features::discovery::alpha::alpha_plus_plus_nfc::alpha_plus_plus_nfc::discover_petri_net_alpha_plus_plus_nfc;
use ficus_backend::features::discovery::alpha::providers::alpha_plus_provider::AlphaPlusRelationsProviderImpl;
use ficus_backend::features::discovery::alpha::providers::alpha_provider::DefaultAlphaRelationsProvider;
use ficus_backend::features::discovery::fuzzy::fuzzy_miner::discover_graph_fuzzy;
use ficus_backend::features::discovery::heuristic::heuristic_miner::discover_petri_net_heuristic;
use ficus_backend::features::discovery::petri_net::annotations::{annotate_with_counts, annotate_with_frequencies, annotate_with_trace_frequency};
use ficus_backend::features::discovery::petri_net::marking::{ensure_initial_marking, Marking, SingleMarking};
use ficus_backend::features::discovery::petri_net::petri_net::DefaultPetriNet;
use ficus_backend::features::discovery::petri_net::place::Place;
use ficus_backend::features::discovery::petri_net::pnml_serialization::{serialize_to_pnml, serialize_to_pnml_file};
use ficus_backend::features::discovery::petri_net::replay::replay_petri_net;
use ficus_backend::features::discovery::petri_net::transition::Transition;
use ficus_backend::utils::graph::graph::Graph;
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet};
use std::fmt::Display;

fn log_of(r: &Value) -> XesEventLogImpl {
    let mut log = json!({"extensions": [], "classifiers": [], "properties": [], "globals": [], "traces": []});
    log["traces"] = Value::Array(
        r["log"].as_array().unwrap().iter().enumerate().map(|(i, t)| {
            Value::Array(t.as_array().unwrap().iter().enumerate().map(|(j, e)| {
                let millis = match r["times"].is_array() { true => us(&r["times"][i][j]), false => j * 1000 };
                json!([e, [millis / 1000, millis % 1000 * 1000000], null])
            }).collect())
        }).collect(),
    );
    build(&log)
}

fn marking_json(m: Option<&Marking>) -> Value {
    json!(m.map(|m| m.active_places().iter().map(|s| json!([s.place_id(), s.tokens_count()])).collect::<Vec<_>>()))
}

fn net_json(net: &DefaultPetriNet) -> Value {
    let arcs = |arcs: &Vec<ficus_backend::features::discovery::petri_net::arc::Arc<()>>| arcs.iter().map(|a| json!([a.id(), a.place_id(), a.tokens_count()])).collect::<Vec<_>>();
    json!({
        "places": net.all_places().iter().map(|p| json!([p.id(), p.name()])).collect::<Vec<_>>(),
        "transitions": net.all_transitions().iter().map(|t| json!([t.id(), t.name(), t.is_silent(), t.data(), arcs(t.incoming_arcs()), arcs(t.outgoing_arcs())])).collect::<Vec<_>>(),
        "initial": marking_json(net.initial_marking()),
        "final": marking_json(net.final_marking()),
    })
}

// {"places": [name], "transitions": [[name, silent, [place], [place]]], "initial": [[place, tokens]] | null}
fn net_of(v: &Value) -> (DefaultPetriNet, Vec<u64>, Vec<u64>) {
    let mut net = DefaultPetriNet::empty();
    let places: Vec<u64> = v["places"].as_array().unwrap().iter().map(|n| net.add_place(Place::with_name(st(n)))).collect();
    let mut transitions = vec![];
    for t in v["transitions"].as_array().unwrap() {
        let id = net.add_transition(Transition::empty(st(&t[0]), t[1].as_bool().unwrap(), if t[4].is_null() { Some(st(&t[0])) } else { None }));
        for p in t[2].as_array().unwrap() {
            net.connect_place_to_transition(&places[us(p)], &id, None);
        }
        for p in t[3].as_array().unwrap() {
            net.connect_transition_to_place(&id, &places[us(p)], None);
        }
        transitions.push(id);
    }
    for (key, initial) in [("initial", true), ("final", false)] {
        if let Some(m) = v[key].as_array() {
            let m = Marking::new(m.iter().map(|s| SingleMarking::new(places[us(&s[0])], us(&s[1]))).collect());
            if initial {
                net.set_initial_marking(m);
            } else {
                net.set_final_marking(m);
            }
        }
    }
    (net, places, transitions)
}

fn graph_json<N: ToString, E: ToString + Display>(g: &Graph<N, E>) -> Value {
    json!({
        "nodes": g.all_nodes().iter().map(|n| json!([n.id(), n.data().map(|d| d.to_string())])).collect::<Vec<_>>(),
        "edges": g.all_edges().iter().map(|e| json!([e.from_node(), e.to_node(), e.data().map(|d| d.to_string())])).collect::<Vec<_>>(),
    })
}

fn set_of(v: &Value) -> HashSet<String> {
    v.as_array().unwrap().iter().map(st).collect()
}

fn info_json(info: &EventLogInfo, names: &[String]) -> Value {
    let maps = |m: Option<&HashMap<String, usize>>| m.cloned();
    let dfg = info.dfg_info();
    json!({
        "traces": info.traces_count(), "events": info.events_count(), "classes_count": info.event_classes_count(),
        "classes": info.all_event_classes(), "start": info.start_event_classes(), "end": info.end_event_classes(),
        "counts": names.iter().map(|n| info.event_count(n)).collect::<Vec<_>>(),
        "follows": names.iter().map(|a| names.iter().map(|b| dfg.get_directly_follows_count(a, b)).collect::<Vec<_>>()).collect::<Vec<_>>(),
        "related": names.iter().map(|a| names.iter().map(|b| dfg.is_in_directly_follows_relation(a, b)).collect::<Vec<_>>()).collect::<Vec<_>>(),
        "followed": names.iter().map(|n| maps(dfg.get_followed_events(n))).collect::<Vec<_>>(),
        "precedes": names.iter().map(|n| maps(dfg.get_precedes_events(n))).collect::<Vec<_>>(),
        "single": names.iter().map(|n| dfg.is_event_with_single_follower(n)).collect::<Vec<_>>(),
    })
}

fn discover(log: &XesEventLogImpl, r: &Value) -> DefaultPetriNet {
    let f = |i: usize| r["params"][i].as_f64().unwrap();
    match r["algorithm"].as_str().unwrap() {
        "alpha" => {
            let info = EventLogInfo::create_from(EventLogInfoCreationDto::default(log));
            discover_petri_net_alpha(&DefaultAlphaRelationsProvider::new(&info))
        }
        "alpha+" | "alpha++" => {
            let loops = find_transitions_one_length_loop(log);
            let info = EventLogInfo::create_from(EventLogInfoCreationDto::default_ignore(log, &loops));
            discover_petri_net_alpha_plus(log, &AlphaPlusRelationsProviderImpl::new(&info, log, &loops), r["algorithm"] == "alpha++")
        }
        "nfc" => discover_petri_net_alpha_plus_plus_nfc(log),
        "heuristic" => discover_petri_net_heuristic(log, f(0), us(&r["params"][1]), f(2), f(3), f(4)),
        other => panic!("unknown algorithm {other}"),
    }
}

pub fn handle(op: &str, r: &Value) -> Option<Value> {
    Some(match op {
        "info" => {
            let log = log_of(r);
            let names: Vec<String> = r["names"].as_array().unwrap().iter().map(st).collect();
            let ignored = if r["ignored"].is_null() { None } else { Some(set_of(&r["ignored"])) };
            let dto = match (r["fake"].as_bool().unwrap(), ignored.as_ref()) {
                (false, None) => EventLogInfoCreationDto::default(&log),
                (false, Some(s)) => EventLogInfoCreationDto::default_ignore(&log, s),
                (true, None) if r["other"] == true => EventLogInfoCreationDto::default_fake_events(&log),
                (true, s) => EventLogInfoCreationDto::default_fake_ignored(&log, s),
            };
            let mut value = info_json(&EventLogInfo::create_from(dto), &names);
            value["total"] = json!(count_events(&log));
            value
        }
        "net" => {
            let log = log_of(r);
            json!(net_json(&discover(&log, r)))
        }
        "dfg" => graph_json(&construct_dfg(&EventLogInfo::create_from(EventLogInfoCreationDto::default(&log_of(r))))),
        "fuzzy" => {
            let f = |i: usize| r["params"][i].as_f64().unwrap();
            let g = discover_graph_fuzzy(&log_of(r), f(0), f(1), f(2), f(3), f(4), f(5), f(6));
            if r["default"] == true { graph_json(&g.to_default_graph()) } else { graph_json(&g) }
        }
        "put_net" => net_json(&net_of(&r["net"]).0),
        "ensure" => {
            let (mut net, _, _) = net_of(&r["net"]);
            ensure_initial_marking(&log_of(r), &mut net);
            net_json(&net)
        }
        "replay" => {
            let (net, _, transitions) = net_of(&r["net"]);
            let log = log_of(r);
            let index: HashMap<u64, usize> = transitions.iter().enumerate().map(|(i, t)| (*t, i)).collect();
            let stop = r["stop"].as_bool().unwrap();
            let mut arcs: HashMap<u64, Value> = HashMap::new();
            for t in net.all_transitions() {
                for (k, arc) in t.incoming_arcs().iter().enumerate() {
                    arcs.insert(arc.id(), json!([index[&t.id()], "in", k]));
                }
                for (k, arc) in t.outgoing_arcs().iter().enumerate() {
                    arcs.insert(arc.id(), json!([index[&t.id()], "out", k]));
                }
            }
            json!({
                "states": replay_petri_net(&log, &net).map(|states| states.iter().map(|s| s.as_ref().map(|s| s.fired_transitions().iter().map(|t| index[t]).collect::<Vec<_>>())).collect::<Vec<_>>()),
                "counts": annotate_with_counts(&log, &net, stop).map(|m| m.iter().map(|(k, v)| json!([arcs[k], v])).collect::<Vec<_>>()),
                "frequencies": annotate_with_frequencies(&log, &net, stop).map(|m| m.iter().map(|(k, v)| json!([arcs[k], v])).collect::<Vec<_>>()),
                "trace_frequencies": annotate_with_trace_frequency(&log, &net, stop).map(|m| m.iter().map(|(k, v)| json!([arcs[k], v])).collect::<Vec<_>>()),
            })
        }
        "pnml" => {
            let (net, _, _) = net_of(&r["net"]);
            let names = r["names"].as_bool().unwrap();
            let text = match r["path"].as_str() {
                Some(path) => serialize_to_pnml_file(&net, path, names).map(|_| std::fs::read_to_string(path).unwrap()),
                None => serialize_to_pnml(&net, names),
            };
            match text {
                Ok(text) => json!({"text": text, "net": net_json(&net)}),
                Err(err) => json!({"error": err.to_string()}),
            }
        }
        _ => return None,
    })
}
