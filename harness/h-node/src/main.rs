#[path = "../gen/cache.rs"]
#[allow(dead_code)]
mod banned_cache;
mod cache;
#[path = "../gen/gas.rs"]
#[allow(dead_code)]
mod evm_gas;
mod files;
mod recorder;
mod gas;
mod limits;

fn main() {
    vlib::run_main(&[("N01", cache::n01), ("N03", files::n03), ("N04", recorder::n04), ("N05", gas::n05), ("N09", limits::n09)])
}
