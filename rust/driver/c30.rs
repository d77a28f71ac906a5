mod common;
mod logs;
mod measures;
mod nets;

fn main() {
    common::serve(|op, r| measures::handle(op, r).or_else(|| nets::handle(op, r)).expect("unknown op"));
}
