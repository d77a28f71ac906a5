// The gRPC service of the backend, called directly: messages in and out as JSON.
#![allow(dead_code)]
use ficus_backend::ficus_proto::grpc_backend_service_server::GrpcBackendService;
use ficus_backend::ficus_proto::{GrpcGetContextValueRequest, GrpcGuid, GrpcPipelineExecutionRequest};
use ficus_backend::grpc::backend_service::FicusService;
use ficus_backend::pipelines::keys::context_keys::ContextKeys;
use futures::StreamExt;
use serde_json::{json, Value};
use std::sync::Arc;

pub struct Service {
    runtime: tokio::runtime::Runtime,
    service: FicusService,
}

impl Service {
    pub fn new() -> Self {
        let runtime = tokio::runtime::Builder::new_multi_thread().worker_threads(1).enable_all().build().unwrap();
        Self { runtime, service: FicusService::new(Arc::new(Box::new(ContextKeys::new()))) }
    }

    pub fn handle(&self, op: &str, r: &Value) -> Option<Value> {
        match op {
            "execute" => {
                let script: Vec<u32> = r["random"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as u32).collect()).unwrap_or_default();
                rand::set_script(script);
                let request: GrpcPipelineExecutionRequest = serde_json::from_value(r["request"].clone()).expect("request");
                let take = r["take"].as_u64().unwrap_or(u64::MAX) as usize;
                let results: Vec<Value> = self.runtime.block_on(async {
                    let mut out = vec![];
                    match self.service.execute_pipeline(tonic::Request::new(request)).await {
                        Ok(response) => {
                            let mut stream = response.into_inner();
                            while out.len() < take {
                                match stream.next().await {
                                    Some(Ok(message)) => out.push(json!({ "ok": message })),
                                    Some(Err(status)) => out.push(json!({"status": status.to_string()})),
                                    None => break,
                                }
                            }
                        }
                        Err(status) => out.push(json!({"status": status.to_string()})),
                    }
                    out
                });
                Some(json!(results))
            }
            "get" => {
                let request: GrpcGetContextValueRequest = serde_json::from_value(r["request"].clone()).expect("request");
                Some(match self.runtime.block_on(self.service.get_context_value(tonic::Request::new(request))) {
                    Ok(response) => json!({"ok": response.into_inner()}),
                    Err(status) => json!({"status": status.to_string()}),
                })
            }
            "drop" => {
                let request: GrpcGuid = serde_json::from_value(r["request"].clone()).expect("request");
                Some(match self.runtime.block_on(self.service.drop_execution_result(tonic::Request::new(request))) {
                    Ok(_) => json!({"ok": null}),
                    Err(status) => json!({"status": status.to_string()}),
                })
            }
            "schedule" => Some(json!(self.runtime.block_on(self.schedule(r)))),
            _ => None,
        }
    }

    // several clients at once: the schedule says which client does what, in this order
    async fn schedule(&self, r: &Value) -> Vec<Value> {
        let requests = r["requests"].as_array().unwrap();
        let mut streams = vec![];
        let mut guids = vec![String::from("none"); requests.len()];
        for _ in requests {
            streams.push(None);
        }
        let mut out = vec![];
        for step in r["schedule"].as_array().unwrap() {
            let client = step[1].as_u64().unwrap() as usize;
            match step[0].as_str().unwrap() {
                "start" => {
                    let request: GrpcPipelineExecutionRequest = serde_json::from_value(requests[client].clone()).expect("request");
                    streams[client] = self.service.execute_pipeline(tonic::Request::new(request)).await.ok().map(|s| s.into_inner());
                    out.push(json!({ "started": streams[client].is_some() }));
                }
                "next" => {
                    let stream = streams[client].as_mut().unwrap();
                    let limit = step[2].as_u64().unwrap();
                    let mut got = vec![];
                    while (got.len() as u64) < limit {
                        match tokio::time::timeout(std::time::Duration::from_secs(30), stream.next()).await {
                            Ok(Some(Ok(message))) => {
                                let message = json!({ "ok": message });
                                let guid = message["ok"]["result"]["FinalResult"]["execution_result"]["Success"]["guid"].as_str();
                                if let Some(guid) = guid {
                                    guids[client] = guid.to_owned();
                                }
                                got.push(message);
                            }
                            Ok(Some(Err(status))) => got.push(json!({ "status": status.to_string() })),
                            Ok(None) => break,
                            Err(_) => {
                                got.push(json!({ "silent": true }));
                                break;
                            }
                        }
                    }
                    out.push(json!(got));
                }
                "close" => {
                    streams[client] = None;
                    out.push(json!(null));
                }
                "get" => {
                    let request = json!({"execution_id": {"guid": guids[client]}, "key": {"name": step[2]}});
                    out.push(self.handle_async("get", &request).await);
                }
                _ => out.push(self.handle_async("drop", &json!({ "guid": guids[client] })).await),
            }
        }
        out
    }

    async fn handle_async(&self, op: &str, request: &Value) -> Value {
        if op == "get" {
            let request: GrpcGetContextValueRequest = serde_json::from_value(request.clone()).expect("request");
            match self.service.get_context_value(tonic::Request::new(request)).await {
                Ok(response) => json!({"ok": response.into_inner()}),
                Err(status) => json!({"status": status.to_string()}),
            }
        } else {
            let request: GrpcGuid = serde_json::from_value(request.clone()).expect("request");
            match self.service.drop_execution_result(tonic::Request::new(request)).await {
                Ok(_) => json!({"ok": null}),
                Err(status) => json!({"status": status.to_string()}),
            }
        }
    }
}
