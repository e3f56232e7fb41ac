mod world;
mod bans;

fn main() {
    vlib::run_main(&[("N02", bans::n02)])
}
