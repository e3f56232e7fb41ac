mod env;
mod exchange;
mod inbound;
mod seal;

fn main() {
    vlib::run_main(&[("W01", seal::w01), ("W02", inbound::w02), ("W03", exchange::w03)]);
}
