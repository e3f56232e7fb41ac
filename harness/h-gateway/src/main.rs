mod answers;
mod ratelimit;
mod routing;

fn main() {
    vlib::run_main(&[("N06", answers::n06), ("N07", ratelimit::n07), ("N08", routing::n08)])
}
