#[path = "../../common/common.rs"]
mod common;
mod asyncrt;
mod carriers;
mod env;
mod headers;
mod http;
mod jaeger;
mod jsonform;
mod memory;
mod printed;
mod otlp;
mod transform;
mod zipkin;

fn main() {
    if let Ok(s) = std::env::var("STDOUT_CHILD") {
        let n: Vec<u64> = s.split(' ').map(|x| x.parse().unwrap()).collect();
        return printed::child(n[0], n[1] as usize);
    }
    common::main_with(&[
        ("C12", headers::c12),
        ("C31", carriers::c31),
        ("C36", asyncrt::c36),
        ("C37", jaeger::c37),
        ("C38", http::c38),
        ("C39", jsonform::c39),
        ("C40", memory::c40),
        ("C41", printed::c41),
        ("C23", transform::c23),
        ("C24", otlp::c24),
        ("C25", otlp::c25),
        ("C29", env::c29),
        ("C30", zipkin::c30),
    ]);
}
