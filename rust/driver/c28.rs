mod common;
mod logs;
mod nets;
mod service;

fn main() {
    let service = service::Service::new();
    common::serve(|op, r| nets::handle(op, r).or_else(|| service.handle(op, r)).expect("unknown op"));
}
