//! Every schedule of small concurrent programs over the sources in ../gen (see ws/mkws.py).
// what the sources name as `crate::...`
pub use tn_types::*;

#[allow(dead_code)]
#[path = "../gen/error_latch.rs"]
mod error_latch;
#[allow(dead_code)]
#[path = "../gen/gas_accumulator.rs"]
mod gas_acc;
#[allow(dead_code)]
#[path = "../gen/helpers.rs"]
mod helpers_gen;
#[allow(dead_code)]
#[path = "../gen/notifier.rs"]
mod notify;
#[allow(dead_code)]
#[path = "../gen/notify_read.rs"]
mod notify_read;

mod account;
mod explore;
mod ports;
mod reads;
mod shutdown;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).is_some_and(|a| a == "child-ports") {
        return ports::child(&args[2]);
    }
    vlib::run_main(&[("T06", t06), ("T08", ports::t08), ("T13", account::t13), ("S08", account::s08)])
}

fn t06(run: &vlib::Run) {
    shutdown::check(run);
    reads::check(run);
}
