mod certs;
mod env;
mod gossip;
mod packs;
mod world;

fn main() {
    vlib::run_main(&[("P01", packs::p01), ("P02", certs::p02), ("P03", gossip::p03)]);
}
