mod account;
mod certs;
mod channels;
mod codec;
mod committee;
mod digest;
mod epoch;
mod keys;
mod util;

fn main() {
    vlib::run_main(&[
        ("T01", committee::t01),
        ("T02", certs::t02),
        ("T03", epoch::t03),
        ("T04", keys::t04),
        ("T05", codec::t05),
        ("T07", channels::t07),
        ("T09", digest::t09),
        ("T10", digest::t10),
        ("T11", account::t11),
        ("T12", account::t12),
    ])
}
