#!/usr/bin/env python3
"""Builds seeded/<id>/ from a description in tools/seeds.py and validates it in
a scratch copy of /repo.   mkseed.py ID [ID...]"""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from seeds import SEEDS
KNOWN = ("superblock::tests::test_bad_superblock_checksum","superblock::tests::test_blocks_per_group_zero","superblock::tests::test_invalid_inode_size","superblock::tests::test_superblock ","superblock::tests::test_too_many","superblock::tests::test_unknown_incompat","superblock::tests::test_no_checksum_seed", "tests::test_load_errors", "tests::test_invalid_ext4_data", "error: test failed", "error: 1 target failed")
SR = "/tmp/seedrepo"
H = os.path.join(HERE, "harness/src")

DEMO_SH = """#!/bin/bash
# Builds a small program against the repository in the current directory.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here"/*.rs "$tmp/src/"
cat > "$tmp/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[workspace]
[dependencies]
ext4-view = { path = "$repo", features = ["std"] }
[profile.dev]
opt-level = 1
EOF
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$tmp/target"
cd "$tmp" || exit 3
cargo build --quiet --offline >"$tmp/log" 2>&1 || { tail -20 "$tmp/log"; exit 3; }
timeout 60 "$tmp/target/debug/demo"
"""

def sh(cmd, cwd=None, timeout=900):
    r = subprocess.run(cmd, env=dict(os.environ, RUST_BACKTRACE="0"), cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return r.returncode, r.stdout

def main(i):
    s = SEEDS[i]
    d = os.path.join(HERE, "seeded", i)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    sh("git fetch -q /repo HEAD && git reset -q FETCH_HEAD; rm -rf src; cp -a /repo/src src; cp -a /repo/test_data/. test_data/", SR)
    for f, old, new in s["edits"]:
        p = os.path.join(SR, f)
        t = open(p).read()
        if t.count(old) != 1:
            return f"{f}: old text occurs {t.count(old)} times: {old[:60]!r}"
        open(p, "w").write(t.replace(old, new))
    _, diff = sh("git diff -- src", SR)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    mods = s.get("kit", ["enc", "disk", "world", "jenc"])
    body = "#![allow(dead_code)]\n" + "".join(f"mod {m};\n" for m in mods) + s["demo"]
    open(os.path.join(d, "main.rs"), "w").write(body)
    for m in mods:
        shutil.copy(os.path.join(H, m + ".rs"), d)
    # with the change
    rc1, o1 = sh(["bash", os.path.join(d, "demo.sh")], SR)
    rt, ot = sh("cargo test --offline --no-fail-fast --features std 2>&1 | grep -E '^test [a-z_]+::.*FAILED|^error|timed out' ", SR)
    # without it
    rc0, o0 = sh(["bash", os.path.join(d, "demo.sh")], "/repo")
    print(f"== {i}: demo unchanged rc={rc0}, changed rc={rc1}")
    bad = [x for x in ot.splitlines() if not any(k in x for k in KNOWN)]
    ok = rc0 == 0 and rc1 not in (0, 3) and not bad
    print("   OK" if ok else "   NOT OK")
    if rc0: print("   unchanged:", o0.strip()[:400])
    print("   changed:", o1.strip()[:150])
    if bad: print("   tests:", " | ".join(x[:110] for x in bad[:6]))

for i in sys.argv[1:]:
    e = main(i)
    if e:
        print("ERROR", i, e)
