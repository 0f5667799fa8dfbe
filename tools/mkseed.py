#!/usr/bin/env python3
"""mkseed.py ID PROPERTY: creates seeded/ID from an edit spec on stdin:
file\n<<<<\nold\n====\nnew\n>>>>\n (repeated), then 'NEEDS: ...', 'BREAKS: ...', then 'DEMO:' and the body of demo.rs"""
import json, os, subprocess, sys
i, prop = sys.argv[1:3]
t = sys.stdin.read()
head, demo = t.split("DEMO:\n", 1)
S = "/tmp/seed/repo"
subprocess.check_call(["git", "-C", S, "checkout", "-q", "--", "."])
rest = head
while "<<<<" in rest:
    f, rest = rest.split("<<<<\n", 1)
    f = f.strip().splitlines()[-1].strip()
    old, rest = rest.split("\n====\n", 1)
    new, rest = rest.split(">>>>\n", 1)
    new = new[:-1] if new.endswith("\n") else new
    s = open(os.path.join(S, f)).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(os.path.join(S, f), "w").write(s.replace(old, new))
needs = [l[7:] for l in rest.splitlines() if l.startswith("NEEDS: ")][0]
br = [l[8:] for l in rest.splitlines() if l.startswith("BREAKS: ")][0]
d = "/verif/seeded/" + i
os.makedirs(d, exist_ok=True)
open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", S, "diff"], text=True))
subprocess.check_call(["git", "-C", S, "checkout", "-q", "--", "."])
json.dump(dict(property=prop, needs=needs, what_it_breaks=br), open(d + "/meta.json", "w"), indent=1)
open(d + "/demo.rs", "w").write(demo)
open(d + "/demo.sh", "w").write('''#!/bin/bash
# builds a scratch program against the crate in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d)
trap 'find "$w" -delete' EXIT
mkdir "$w/src"
cp "$here/demo.rs" "$w/src/main.rs"
cp "$repo/Cargo.lock" "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
festa_rs = { path = "$repo" }
num-bigint = { version = "0.4.4", features = ["rand"] }
rand = "0.8.5"
rand_core = "0.6.4"
[profile.dev]
opt-level = 2
debug = 0
debug-assertions = false
T
cd "$w" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$w/target"
cargo build -q --offline || exit 2
timeout 250 "$w/target/debug/demo"
''')
os.chmod(d + "/demo.sh", 0o755)
