mod common;
mod logs;
mod service;

fn main() {
    let service = service::Service::new();
    common::serve(|op, r| logs::handle(op, r).or_else(|| service.handle(op, r)).expect("unknown op"));
}
