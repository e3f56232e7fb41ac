#!/usr/bin/env python3
"""Lays out /verif/build/ws: a cargo workspace whose sources are copies of the files of /repo's working
tree, in which the unavailable `reth` git dependencies and the empty tn-contracts submodule are replaced by
the small stand-ins in /verif/ws/stubs. Sources are copied as they are, except that crates in OPEN have their
crate-private items made public, files in CLOCK read a clock the harness moves, and files in SYNC are compiled once
more under a scheduler. Harness crates in /verif/harness are added as members."""
import os, re, shutil, sys

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
WS = os.environ.get("VERIF_WS", f"{VERIF}/build/ws")
STUBS = f"{HERE}/stubs"
wanted = set()


def read(p):
    return open(p, encoding="utf-8").read()


def write(path, text):
    wanted.add(path)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.islink(path):
        os.remove(path)
    if not os.path.isfile(path) or read(path) != text:
        open(path, "w", encoding="utf-8").write(text)


def link(path, target):
    wanted.add(path)
    # A copy, rewritten only when its content differs: cargo then rebuilds exactly what changed, whatever
    # modification times the files of /repo carry.
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(target, "rb") as f:
        data = f.read()
    if os.path.islink(path):
        os.remove(path)
    if os.path.isfile(path):
        with open(path, "rb") as f:
            if f.read() == data:
                return
    with open(path, "wb") as f:
        f.write(data)


def link_tree(dst, src):
    for d, subs, files in os.walk(src):
        subs[:] = [s for s in subs if s not in (".git", "target")]
        rel = os.path.relpath(d, src)
        for f in files:
            link(os.path.normpath(f"{dst}/{rel}/{f}"), os.path.normpath(f"{d}/{f}"))


# crates of /repo compiled in full
FULL = [
    "crates/tn-utils",
    "crates/types",
    "crates/network-types",
    "crates/config",
    "crates/storage",
    "crates/tn-metrics",
    "crates/network-libp2p",
    "crates/consensus/primary",
    "crates/consensus/worker",
    "crates/state-sync",
    "crates/consensus/executor",
    "bin/worker-gateway",
]
# crates whose modules the harnesses reach into: in the copy, and only there, crate-private items are made public
OPEN = {"crates/consensus/primary", "crates/consensus/worker", "crates/network-libp2p", "bin/worker-gateway"}
# single source files of crates that cannot be compiled here, compiled as modules of a harness
FILES = {
    "harness/h-node/gen/gas.rs": "crates/tn-reth/src/evm/utils.rs",
    "harness/h-node/gen/cache.rs": "crates/network-libp2p/src/peers/cache.rs",
}
# opened files that read the clock of ws/stubs/vstd, which the harness moves
CLOCK = ("crates/network-libp2p/src/peers/", "bin/worker-gateway/src/ratelimit.rs", "bin/worker-gateway/src/telemetry.rs")
# source files compiled once more in harness/h-sync, with `std` taken from ws/stubs/shim-std (and parking_lot and tokio likewise, by
# dependency renaming), so that a scheduler decides every interleaving of their lock, atomic and channel operations
SYNC = {
    "notifier": "crates/types/src/notifier.rs",
    "notify_read": "crates/tn-utils/src/notify_read.rs",
    "helpers": "crates/types/src/helpers.rs",
    "gas_accumulator": "crates/types/src/gas_accumulator.rs",
    "error_latch": "crates/storage/src/error_latch.rs",
}
STUB_DEPS = {"reth-primitives", "reth-chainspec", "reth-tasks", "reth-metrics"}


def opened(text, clock=False):
    text = re.sub(r"\bpub\((?:crate|super|in [\w:]+)\)", "pub", text)
    text = re.sub(r"(?m)^mod (\w+);", r"pub mod \1;", text)
    text = re.sub(r"(?m)^struct ", "pub struct ", text)
    text = re.sub(r"(?ms)^(pub struct \w+[^;{}()]*\{\n)(.*?)^\}", lambda m: m.group(1) + re.sub(r"(?m)^    (\w+): ", r"    pub \1: ", m.group(2)) + "}", text)
    if clock:
        text = re.sub(r"(?<![\w:$])(?:::)?std::", "::vstd::", text)
    return text


def link_open(dst, src):
    for d, subs, files in os.walk(src):
        subs[:] = [s for s in subs if s not in (".git", "target")]
        for f in files:
            p = f"{d}/{f}"
            to = os.path.normpath(f"{dst}/{os.path.relpath(p, src)}")
            if f.endswith(".rs"):
                write(to, opened(read(p), os.path.relpath(p, REPO).startswith(CLOCK)))
            else:
                link(to, p)


def manifest(rel):
    text = read(f"{REPO}/{rel}/Cargo.toml")
    # one line per dependency
    text = re.sub(r"(?ms)^(\S+ = \{[^{}]*\n[^{}]*?\})", lambda m: re.sub(r"\s*\n\s*", " ", m.group(0)), text)
    out, table = [], ""
    for line in text.splitlines():
        if line.startswith("["):
            table = line.strip()
        if table in ("[dev-dependencies]", "[lints]") or table.startswith(("[[test", "[[bench")):
            continue
        m = re.match(r"([\w-]+)(\.workspace)?\s*=", line)
        name = m.group(1) if m else None
        if name == "reth-libmdbx" and "dependencies" in table:
            continue
        if name and name.startswith("reth-") and name not in STUB_DEPS and "dependencies" in table:
            continue
        if name == "tn-reth" and "dependencies" in table:
            continue
        if table == "[features]":
            if name == "reth-libmdbx":
                line = "reth-libmdbx = []"  # declared, never enabled
            if name == "default" and rel == "crates/storage":
                line = 'default = ["redb"]'
            line = re.sub(r'"tn-reth(/[\w-]+)?",?\s*', "", line)
        out.append(line)
        if line.strip() == "[dependencies]" and any(c.startswith(rel) for c in CLOCK):
            up = "../" * (rel.count("/") + 1)
            out.append(f'vstd = {{ path = "{up}stubs/vstd" }}')
    text = "\n".join(out) + "\n"
    # a binary is compiled as a library of its modules
    return re.sub(r'\[\[bin\]\]\nname = "[\w-]+"', "[lib]", text)


def main():
    members = []
    for rel in FULL:
        members.append(rel)
        write(f"{WS}/{rel}/Cargo.toml", manifest(rel))
        (link_open if rel in OPEN else link_tree)(f"{WS}/{rel}/src", f"{REPO}/{rel}/src")
        if os.path.exists(f"{REPO}/{rel}/build.rs"):
            link(f"{WS}/{rel}/build.rs", f"{REPO}/{rel}/build.rs")
    for s in sorted(os.listdir(STUBS)):
        if os.path.exists(f"{STUBS}/{s}/Cargo.toml"):
            members.append(f"stubs/{s}")
    link_dir = f"{WS}/stubs"
    link_tree(link_dir, STUBS)
    for h in sorted(os.listdir(f"{VERIF}/harness")) if os.path.isdir(f"{VERIF}/harness") else []:
        if os.path.exists(f"{VERIF}/harness/{h}/Cargo.toml"):
            members.append(f"harness/{h}")
            link_tree(f"{WS}/harness/{h}", f"{VERIF}/harness/{h}")
    for to, rel in FILES.items():
        write(f"{WS}/{to}", opened(read(f"{REPO}/{rel}"), True))
    for name, rel in SYNC.items():
        text = read(f"{REPO}/{rel}")
        text = re.sub(r"#!?\[(deny|forbid|warn)\([^\]]*\)\]", "", text)
        text = text.replace("eprintln!", "::shim_std::quiet!")
        write(f"{WS}/harness/h-sync/gen/{name}.rs", re.sub(r"(?<![\w:$])(?:::)?std::", "::shim_std::", text))
    link_tree(f"{WS}/tn-contracts", f"{STUBS}/tn-contracts")
    link_tree(f"{WS}/chain-configs", f"{REPO}/chain-configs")

    ws = read(f"{REPO}/Cargo.toml")
    ws = re.sub(r"(?s)\bmembers = \[.*?\]\n", "members = [\n" + "".join(f'    "{m}",\n' for m in members) + "]\n", ws, count=1)
    ws = re.sub(r"(?s)\[workspace\.lints\.rust\].*?(?=\[workspace\.dependencies\])", "", ws)
    ws = re.sub(r"(?ms)^reth[\w-]* = \{.*?\}\n", "", ws)
    stub = "".join(f'{d} = {{ path = "stubs/{d}" }}\n' for d in sorted(STUB_DEPS))
    ws = ws.replace("[workspace.dependencies]\n", "[workspace.dependencies]\n" + stub, 1)
    ws = ws.replace('features = ["full"]', 'features = ["full", "rand"]')
    extra = f"{HERE}/profile.toml"
    ws += "\n" + read(extra) if os.path.exists(extra) else ""
    write(f"{WS}/Cargo.toml", ws)
    lock = f"{WS}/Cargo.lock"
    base = f"{HERE}/Cargo.lock"
    write(lock, read(base if os.path.exists(base) else f"{REPO}/Cargo.lock")) if not os.path.exists(lock) else wanted.add(lock)

    for d, subs, files in os.walk(WS):
        subs[:] = [s for s in subs if s != "target"]
        for f in files + [s for s in subs if os.path.islink(f"{d}/{s}")]:
            p = f"{d}/{f}"
            if p not in wanted:
                os.remove(p)


sys.exit(main())
