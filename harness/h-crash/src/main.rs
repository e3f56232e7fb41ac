mod archive;
mod chain;
mod disk;
mod faults;
mod iolog;
mod records;
mod story;

fn main() {
    vlib::run_main(&[("S09", archive::s09), ("S10", chain::s10), ("S11", records::s11), ("S12", faults::s12)])
}
