mod dag;
mod recover;
mod schedule;
mod util;

fn main() {
    vlib::run_main(&[("C01", dag::c01), ("C03", recover::c03), ("C02", schedule::c02)])
}
