#[path = "../../common/common.rs"]
mod common;
mod prom;

fn main() {
    common::main_with(&[("C26", prom::c26)]);
}
