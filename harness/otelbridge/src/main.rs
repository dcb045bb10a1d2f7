#[path = "../../common/common.rs"]
mod common;
mod bridge;

fn main() {
    common::main_with(&[("C33", bridge::c33)]);
}
