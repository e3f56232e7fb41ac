mod pack;
mod index;
mod exec;
mod kv;

fn main() {
    vlib::run_main(&[
        ("S01", pack::s01),
        ("S02", pack::s02),
        ("S03", index::s03),
        ("S04", index::s04),
        ("S05", exec::s05),
        ("S06", kv::s06),
        ("S07", kv::s07),
    ])
}
