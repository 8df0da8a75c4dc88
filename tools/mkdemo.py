#!/usr/bin/env python3
"""mkdemo.py <seed id> <crate=path,...> : (re)write seeded/<id>/demo.sh and demo/Cargo.toml; main.rs is written by hand."""
import os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid = sys.argv[1]
d = os.path.join(VERIF, "seeded", sid)
os.makedirs(d + "/demo/src", exist_ok=True)
deps = sys.argv[2:]
lines = []
for x in deps:
    name, path = x.split("=", 1)
    feats = ""
    if "+" in path:
        path, f = path.split("+", 1)
        feats = ", features = [%s]" % ", ".join('"%s"' % y for y in f.split("+"))
    if path.startswith("v"):
        lines.append('%s = { version = "%s"%s }' % (name, path[1:], feats))
    else:
        lines.append('%s = { path = "/repo/crates/%s"%s }' % (name, path, feats))
open(d + "/demo/Cargo.toml", "w").write('''[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[dependencies]
%s

[profile.dev]
debug = 0

[workspace]
''' % "\n".join(lines))
open(d + "/demo.sh", "w").write('''#!/bin/bash
# Builds a small program against /repo's crates and runs it: exit 0 = behaves as promised.
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
cp -r "$here/demo" "$tmp/demo"
cp /repo/Cargo.lock "$tmp/demo/Cargo.lock"
export CARGO_TARGET_DIR="$tmp/target"
cd "$tmp/demo" || exit 3
cargo build --offline -q || exit 3
timeout 100 "$tmp/target/debug/demo"
''')
os.chmod(d + "/demo.sh", 0o755)
