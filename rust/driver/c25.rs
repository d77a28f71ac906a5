mod common;
mod patterns;

fn main() {
    common::serve(|op, r| patterns::handle(op, r).expect("unknown op"));
}
