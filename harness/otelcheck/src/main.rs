#[path = "../../common/common.rs"]
mod common;
mod baggage;
mod batch;
mod context;
mod derive;
mod handles;
mod logs;
mod meters;
mod metrics;
mod propagate;
mod providers;
mod readers;
mod resource;
mod sampling;
mod trace;
mod values;

fn main() {
    common::main_with(&[
        ("C01", context::c01),
        ("C02", baggage::c02),
        ("C03", baggage::c03),
        ("C04", derive::c04),
        ("C05", trace::c05),
        ("C06", trace::c06),
        ("C07", trace::c07),
        ("C08", trace::c08),
        ("C09", logs::c09),
        ("C10", propagate::c10),
        ("C11", propagate::c11),
        ("C13", sampling::c13),
        ("C14", batch::c14),
        ("C15", providers::c15),
        ("C16", metrics::c16),
        ("C17", metrics::c17),
        ("C18", metrics::c18),
        ("C19", metrics::c19),
        ("C20", metrics::c20),
        ("C21", metrics::c21),
        ("C22", resource::c22),
        ("C27", values::c27),
        ("C28", metrics::c28),
        ("C32", readers::c32),
        ("C34", handles::c34),
        ("C35", meters::c35),
    ]);
}
