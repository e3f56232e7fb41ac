mod certify;
mod crashdb;
mod env;
mod flow;
mod propose;
mod vote;

fn main() {
    vlib::run_main(&[("C04", vote::c04), ("C05", certify::c05), ("C06", flow::c06), ("C07", propose::c07)])
}
