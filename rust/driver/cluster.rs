// Clustering of traces and activities, called directly.
#![allow(dead_code)]
use crate::common::{names_log, rc, st, strings, us};
use chrono::{TimeZone, Utc};
use ficus_backend::event_log::core::event::event::Event;
use ficus_backend::event_log::core::event_log::EventLog;
use ficus_backend::event_log::core::trace::trace::Trace;
use ficus_backend::event_log::xes::xes_event::XesEventImpl;
use ficus_backend::event_log::xes::xes_event_log::XesEventLogImpl;
use ficus_backend::event_log::xes::xes_trace::XesTraceImpl;
use ficus_backend::features::analysis::patterns::activity_instances::{
    create_new_log_from_activities_instances, ActivityInTraceInfo, UndefActivityHandlingStrategy,
};
use ficus_backend::features::analysis::patterns::repeat_sets::{ActivityNode, SubArrayWithTraceIndex};
use ficus_backend::features::analysis::patterns::tandem_arrays::SubArrayInTraceInfo;
use ficus_backend::features::clustering::activities::activities_common::create_dataset;
use ficus_backend::features::clustering::activities::activities_params::{
    ActivitiesClusteringParams, ActivitiesVisualizationParams, ActivityRepresentationSource,
};
use ficus_backend::features::clustering::activities::dbscan::clusterize_activities_dbscan;
use ficus_backend::features::clustering::activities::k_means::{clusterize_activities_k_means, clusterize_activities_k_means_grid_search};
use ficus_backend::features::clustering::common::{transform_to_ficus_dataset, CommonVisualizationParams};
use ficus_backend::features::clustering::traces::dbscan::clusterize_log_by_traces_dbscan;
use ficus_backend::features::clustering::traces::traces_params::{TracesClusteringParams, TracesRepresentationSource};
use ficus_backend::utils::colors::{Color, ColorsHolder};
use ficus_backend::utils::dataset::dataset::{FicusDataset, LabeledDataset};
use ficus_backend::utils::distance::distance::{DistanceWrapper, FicusDistance};
use linfa_nn::distance::Distance;
use ndarray::Array2;
use serde_json::{json, Value};
use std::str::FromStr;
use std::{cell::RefCell, rc::Rc};

fn event(name: &str) -> Rc<RefCell<XesEventImpl>> {
    rc(XesEventImpl::new_all_fields(Rc::new(Box::new(name.to_owned())), Utc.timestamp_opt(0, 0).unwrap(), None))
}

fn leaf(name: &str, level: usize) -> Rc<RefCell<ActivityNode>> {
    rc(ActivityNode { repeat_set: None, event_classes: Default::default(), children: vec![], level, name: name.to_owned() })
}

fn instance(v: &Value, node: Rc<RefCell<ActivityNode>>) -> ActivityInTraceInfo {
    ActivityInTraceInfo { node, start_pos: us(&v[1]), length: us(&v[2]) }
}

/// a log of plain events, folded by one level of activities after the other
fn log(r: &Value) -> XesEventLogImpl {
    let mut log = XesEventLogImpl::empty();
    for names in names_log(&r["log"]) {
        let mut trace = XesTraceImpl::empty();
        for name in names {
            trace.push(event(&name));
        }
        log.push(rc(trace));
    }
    for level in r["levels"].as_array().unwrap() {
        let instances: Vec<Vec<ActivityInTraceInfo>> =
            level.as_array().unwrap().iter().map(|t| t.as_array().unwrap().iter().map(|a| instance(a, leaf(&st(&a[0]), 0))).collect()).collect();
        log = create_new_log_from_activities_instances(&log, &instances, &UndefActivityHandlingStrategy::InsertAllEvents, &|a: &ActivityInTraceInfo| {
            event(&a.node.borrow().name)
        });
    }
    log
}

fn color(c: &Color) -> Value {
    json!([c.red(), c.green(), c.blue()])
}

fn dataset(d: &FicusDataset) -> Value {
    let values: Vec<Vec<Value>> = d.values().iter().map(|r| r.iter().map(|x| json!(x)).collect()).collect();
    json!({ "columns": d.columns_names(), "rows": d.row_names(), "values": values })
}

fn labeled(d: &LabeledDataset) -> Value {
    json!({ "dataset": dataset(d.dataset()), "labels": d.labels(), "colors": d.colors().iter().map(color).collect::<Vec<_>>() })
}

fn names(log: &XesEventLogImpl) -> Value {
    json!(log
        .traces()
        .iter()
        .map(|t| t.borrow().events().iter().map(|e| e.borrow().name().clone()).collect::<Vec<String>>())
        .collect::<Vec<_>>())
}

fn distance_of(r: &Value) -> FicusDistance {
    FicusDistance::from_str(r["distance"].as_str().unwrap()).ok().expect("distance")
}

pub fn handle(op: &str, r: &Value) -> Option<Value> {
    Some(match op {
        "distance" => {
            let numbers = |v: &Value| -> Vec<f64> { v.as_array().unwrap().iter().map(|x| x.as_f64().unwrap()).collect() };
            let distance = DistanceWrapper::new(distance_of(r));
            let pairs: Vec<Value> = r["pairs"]
                .as_array()
                .unwrap()
                .iter()
                .map(|p| {
                    let (a, b) = (numbers(&p[0]), numbers(&p[1]));
                    let a = Array2::from_shape_vec((1, a.len()), a).unwrap();
                    let b = Array2::from_shape_vec((1, b.len()), b).unwrap();
                    let d = distance.distance(a.row(0), b.row(0));
                    let through = distance.rdist_to_dist(distance.rdistance(a.row(0), b.row(0)));
                    json!([d, through, distance.dist_to_rdist(d) == distance.rdistance(a.row(0), b.row(0))])
                })
                .collect();
            json!(pairs)
        }
        "parse" => {
            let text = r["text"].as_str().unwrap();
            json!([
                FicusDistance::from_str(text).is_ok(),
                TracesRepresentationSource::from_str(text).is_ok(),
                ActivityRepresentationSource::from_str(text).is_ok()
            ])
        }
        "cluster_traces" => {
            let log = log(r);
            let before = names(&log);
            let mut colors = ColorsHolder::empty();
            let mut params = TracesClusteringParams {
                vis_params: CommonVisualizationParams { log: &log, colors_holder: &mut colors, class_extractor: r["extractor"].as_str().map(|s| s.to_owned()) },
                tolerance: r["tolerance"].as_f64().unwrap(),
                distance: distance_of(r),
                repr_source: TracesRepresentationSource::from_str(r["repr"].as_str().unwrap()).ok().expect("repr"),
            };
            match clusterize_log_by_traces_dbscan(&mut params, us(&r["min_points"])) {
                Ok((logs, set)) => json!({
                    "labeled": labeled(&set), "logs": logs.iter().map(names).collect::<Vec<_>>(), "same": before == names(&log),
                    "held": set.labels().iter().map(|l| color(&colors.get_or_create(&format!("CLUSTER_{l}")))).collect::<Vec<_>>(),
                }),
                Err(error) => json!({ "error": error.to_string() }),
            }
        }
        "cluster_activities" => {
            let log = log(r);
            let mut colors = ColorsHolder::empty();
            let nodes: Vec<Rc<RefCell<ActivityNode>>> = r["nodes"]
                .as_array()
                .unwrap()
                .iter()
                .map(|n| {
                    rc(ActivityNode {
                        repeat_set: n["repeat"].as_array().map(|x| {
                            SubArrayWithTraceIndex::new(SubArrayInTraceInfo { start_index: us(&x[0]), length: us(&x[1]) }, us(&x[2]))
                        }),
                        event_classes: n["classes"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect(),
                        children: vec![],
                        level: us(&n["level"]),
                        name: st(&n["name"]),
                    })
                })
                .collect();
            let mut activities: Vec<Vec<ActivityInTraceInfo>> = r["activities"]
                .as_array()
                .unwrap()
                .iter()
                .map(|t| t.as_array().unwrap().iter().map(|a| instance(a, nodes[us(&a[0])].clone())).collect())
                .collect();
            let vis_params = ActivitiesVisualizationParams {
                common_vis_params: CommonVisualizationParams {
                    log: &log,
                    colors_holder: &mut colors,
                    class_extractor: r["extractor"].as_str().map(|s| s.to_owned()),
                },
                traces_activities: &mut activities,
                activity_level: us(&r["level"]),
                activities_repr_source: ActivityRepresentationSource::from_str(r["repr"].as_str().unwrap()).ok().expect("repr"),
            };
            let method = r["method"].as_str().unwrap();
            let mut result = if method == "dataset" {
                match create_dataset(&vis_params) {
                    Ok((set, processed, classes)) => {
                        let rows = processed.iter().map(|x| x.0.borrow().name.to_owned()).collect();
                        json!({ "dataset": dataset(&transform_to_ficus_dataset(&set, rows, classes)) })
                    }
                    Err(error) => json!({ "error": error.to_string() }),
                }
            } else {
                match ActivitiesClusteringParams::new(vis_params, r["tolerance"].as_f64().unwrap(), distance_of(r)) {
                    None => json!({ "none": true }),
                    Some(mut params) => {
                        let got = match method {
                            "dbscan" => clusterize_activities_dbscan(&mut params, us(&r["min_points"])),
                            "kmeans" => clusterize_activities_k_means(&mut params, us(&r["clusters"]), us(&r["iterations"])),
                            _ => clusterize_activities_k_means_grid_search(&mut params, us(&r["iterations"])),
                        };
                        match got {
                            Ok(set) => labeled(&set),
                            Err(error) => json!({ "error": error.to_string() }),
                        }
                    }
                }
            };
            result["activities"] = json!(activities
                .iter()
                .map(|t| t
                    .iter()
                    .map(|a| {
                        let node = a.node.borrow();
                        let mut classes: Vec<u64> = node.event_classes.iter().cloned().collect();
                        classes.sort();
                        let known = nodes.iter().position(|n| Rc::ptr_eq(n, &a.node));
                        json!([node.name, node.level, classes, a.start_pos, a.length, known, color(&colors.get_or_create(&node.name))])
                    })
                    .collect::<Vec<_>>())
                .collect::<Vec<_>>());
            result
        }
        _ => return None,
    })
}
