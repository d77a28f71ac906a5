mod common;
mod patterns;
mod service;

fn main() {
    let service = service::Service::new();
    common::serve(|op, r| service.handle(op, r).or_else(|| patterns::handle(op, r)).expect("unknown op"));
}
