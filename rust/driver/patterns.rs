// Patterns, repeat sets, hierarchies and suffix trees, called directly.
#![allow(dead_code)]
use crate::common::*;
use ficus_backend::event_log::core::event::event::Event;
use ficus_backend::event_log::core::event::event_hasher::{EventHasher, NameEventHasher, RegexEventHasher};
use ficus_backend::event_log::simple::simple_event_log::{SimpleEvent, SimpleEventLog};
use ficus_backend::features::analysis::patterns::{
    activity_instances::{ActivityInTraceFilterKind, ActivityNarrowingKind},
    contexts::{ActivitiesDiscoveryContext, PatternsDiscoveryContext, PatternsDiscoveryStrategy},
    entry_points::{build_repeat_set_tree, find_patterns, find_repeats, PatternsKind},
    repeat_sets::ActivityNode,
    tandem_arrays::{find_maximal_tandem_arrays_with_length, find_primitive_tandem_arrays_with_length},
};
use ficus_backend::utils::suffix_tree::{
    suffix_tree_patterns::SuffixTree,
    suffix_tree_slice::{MultipleWordsSuffixTreeSlice, SingleWordSuffixTreeSlice, SuffixTreeSlice},
};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

fn kind(r: &Value) -> PatternsKind {
    let limit = r["limit"].as_u64().unwrap_or(0) as usize;
    match r["kind"].as_str().unwrap() {
        "primitive" => PatternsKind::PrimitiveTandemArrays(limit),
        "tandem" => PatternsKind::MaximalTandemArrays(limit),
        "maximal" => PatternsKind::MaximalRepeats,
        "super" => PatternsKind::SuperMaximalRepeats,
        _ => PatternsKind::NearSuperMaximalRepeats,
    }
}

fn strategy(r: &Value) -> PatternsDiscoveryStrategy {
    if r["merged"].as_bool().unwrap_or(false) {
        PatternsDiscoveryStrategy::FromSingleMergedTrace
    } else {
        PatternsDiscoveryStrategy::FromAllTraces
    }
}

fn log(r: &Value) -> Rc<RefCell<SimpleEventLog>> {
    let names = names_log(&r["log"]);
    let raw: Vec<Vec<&str>> = names.iter().map(|t| t.iter().map(|s| s.as_str()).collect()).collect();
    rc(SimpleEventLog::new(&raw))
}

fn extractor(r: &Value) -> Box<dyn Fn(&SimpleEvent) -> u64> {
    match r["regex"].as_str() {
        Some(regex) => {
            let hasher = RegexEventHasher::new(&regex.to_owned()).ok().unwrap();
            Box::new(move |e: &SimpleEvent| hasher.hash(e))
        }
        None => {
            let hasher = NameEventHasher::new();
            Box::new(move |e: &SimpleEvent| hasher.hash(e))
        }
    }
}

fn node(n: &Rc<RefCell<ActivityNode>>, names: &HashMap<u64, String>) -> Value {
    let n = n.borrow();
    let mut classes: Vec<String> = n.event_classes.iter().map(|h| names.get(h).cloned().unwrap_or(format!("?{}", h))).collect();
    classes.sort();
    let children: Vec<Value> = n.children.iter().map(|c| node(c, names)).collect();
    json!({"classes": classes, "name": n.name, "level": n.level, "set": n.repeat_set.map(|r| r.dump()), "children": children})
}

pub fn handle(op: &str, r: &Value) -> Option<Value> {
    Some(match op {
        "tandem" => {
            let log = hashes_log(&r["log"]);
            let limit = us(&r["limit"]);
            let dump = |x: &Vec<Vec<_>>| -> Value { json!(x.iter().map(|t: &Vec<ficus_backend::features::analysis::patterns::tandem_arrays::TandemArrayInfo>| t.iter().map(|a| a.dump()).collect::<Vec<_>>()).collect::<Vec<_>>()) };
            let maximal = find_maximal_tandem_arrays_with_length(&log, limit);
            let primitive = find_primitive_tandem_arrays_with_length(&log, limit);
            let result = json!([dump(&maximal.borrow()), dump(&primitive.borrow())]);
            result
        }
        "patterns" => {
            let context = PatternsDiscoveryContext::new(log(r), kind(r), strategy(r), extractor(r));
            let found = find_patterns(&context);
            let sets = find_repeats(&context);
            json!([found.iter().map(|t| t.iter().map(|a| a.dump()).collect::<Vec<_>>()).collect::<Vec<_>>(), sets.iter().map(|s| s.dump()).collect::<Vec<_>>()])
        }
        "tree" => {
            let raw = names_log(&r["log"]);
            let ex = extractor(r);
            let mut classes: HashMap<u64, String> = HashMap::new();
            for t in &raw {
                for n in t {
                    let h = ex(&SimpleEvent::new_with_min_date(n.clone()));
                    let class = match r["regex"].as_str() {
                        Some(regex) => RegexEventHasher::new(&regex.to_owned()).ok().unwrap().transform(n).to_owned(),
                        None => n.clone(),
                    };
                    classes.insert(h, class);
                }
            }
            let patterns_context = PatternsDiscoveryContext::new(log(r), kind(r), strategy(r), ex);
            let names = raw.clone();
            // "name_regex": absent - plain names; null - names in brackets; text - classes in brackets
            let name_regex = r.get("name_regex").map(|v| v.as_str().map(|t| RegexEventHasher::new(&t.to_owned()).ok().unwrap()));
            let context = ActivitiesDiscoveryContext::new(
                patterns_context,
                us(&r["level"]),
                0,
                ActivityNarrowingKind::DontNarrow,
                ActivityInTraceFilterKind::NoFilter,
                |s: &ficus_backend::features::analysis::patterns::repeat_sets::SubArrayWithTraceIndex| {
                    let (start, length, index) = s.dump();
                    let block = &names[index][start..start + length];
                    match name_regex.as_ref() {
                        // as the remote pipelines name activities
                        Some(regex) => {
                            let class = |n: &String| match regex {
                                Some(regex) => regex.transform(n).to_owned(),
                                None => n.clone(),
                            };
                            block.iter().map(|n| format!("({})", class(n))).collect::<Vec<_>>().join("::")
                        }
                        None => block.join("|"),
                    }
                },
            );
            let tree = build_repeat_set_tree(&context);
            json!(tree.iter().map(|n| node(n, &classes)).collect::<Vec<_>>())
        }
        "suffix" => {
            let words = hashes_log(&r["log"]);
            let run = |slice: &dyn SuffixTreeSlice<u64>| -> Value {
                let mut tree = SuffixTree::new(slice);
                tree.build_tree();
                let found: Vec<Value> = hashes_log(&r["patterns"]).iter().map(|p| json!(tree.find_patterns(p.as_slice()))).collect();
                json!(found)
            };
            if words.len() == 1 {
                run(&SingleWordSuffixTreeSlice::new(words[0].as_slice()))
            } else {
                run(&MultipleWordsSuffixTreeSlice::new(words.iter().map(|w| w.as_slice()).collect()))
            }
        }
        _ => return None,
    })
}
