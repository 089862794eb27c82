#!/usr/bin/env python3
"""Turns a spec (a Python file defining SPECS) into planted bugs under /verif/seeded.

Usage: plant.py SPECFILE [ID...]

Each spec has: id, property, edits=[(file, old, new), ...], needs, breaks, demo (Rust source of a
program which panics if the property is broken). A bug is kept only if its patch builds, the stable
tests pass with it, and the demonstration passes without it and fails with it.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile

DEMO_SH = r'''#!/bin/bash
# Builds demo.rs against the serdere crates in the current directory and runs it.
# Exits with 0 if the property holds for it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
mkdir "$work/src" || exit 2
cp "$here/demo.rs" "$work/src/main.rs" || exit 2
cp "$repo/Cargo.lock" "$work/Cargo.lock" || exit 2
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
serdere = { path = "$repo/core" }
serdere-derive = { path = "$repo/derive" }
serdere-json = { path = "$repo/json" }
[workspace]
EOF
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
export CARGO_TARGET_DIR="$work/target"
cargo build --offline --quiet --manifest-path "$work/Cargo.toml" || exit 3
timeout 60 "$work/target/debug/demo"
'''
BASE = None

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")

def plant(spec, work):
    sh("git checkout -q -- . && git clean -fdq", cwd=work)
    original = sh("git rev-list --max-parents=0 HEAD", cwd=work).stdout.split()[0]
    for file, old, new in spec["edits"]:
        path = f"{work}/{file}"
        text = open(path).read()
        if text.count(old) != 1:
            return f"edit of {file} matches {text.count(old)} times: {old[:60]!r}"
        open(path, "w").write(text.replace(old, new))
    diff = sh("git diff", cwd=work).stdout
    # Are the changed lines part of the original repository?
    lines = []
    for file in {e[0] for e in spec["edits"]}:
        orig = set(sh(f"git show {original}:{file}", cwd=work).stdout.splitlines())
        for line in sh(f"git diff -U0 -- {file}", cwd=work).stdout.splitlines():
            if line.startswith("-") and not line.startswith("---"):
                lines.append((line[1:] in orig, line[1:]))
    if not lines or not all(ok for ok, _ in lines):
        print("   note: removed lines not in the original:", [l for ok, l in lines if not ok] or "(none removed)")
    env = dict(ENV, CARGO_TARGET_DIR=f"{work}/target")
    res = sh("cargo test --workspace --no-fail-fast --offline", cwd=work, env=env)
    passed = sum(int(l.split()[3]) for l in res.stdout.splitlines() if l.startswith("test result:"))
    if res.returncode or passed != 30:
        return f"tests: rc={res.returncode} passed={passed}\n" + " ".join(l for l in res.stdout.splitlines() if l.startswith("    test") or l.startswith("error"))
    out = f"/verif/seeded/{spec['id']}"
    os.makedirs(out, exist_ok=True)
    open(f"{out}/patch.diff", "w").write(diff)
    open(f"{out}/demo.sh", "w").write(spec.get("demo_sh", DEMO_SH))
    os.chmod(f"{out}/demo.sh", 0o755)
    open(f"{out}/demo.rs", "w").write(spec["demo"].lstrip())
    json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]},
              open(f"{out}/meta.json", "w"), indent=2)
    open(f"{out}/meta.json", "a").write("\n")
    broken = sh(f"{out}/demo.sh", cwd=work)
    sh("git checkout -q -- .", cwd=work)
    clean = sh(f"{out}/demo.sh", cwd=work)
    if clean.returncode != 0:
        shutil.rmtree(out)
        return "demo fails on the unchanged tree:\n" + clean.stdout[-1500:]
    if broken.returncode in (0, 3):
        shutil.rmtree(out)
        return f"demo gives {broken.returncode} with the patch:\n" + broken.stdout[-1500:]
    return None

def main():
    specs = runpy.run_path(sys.argv[1])["SPECS"]
    only = sys.argv[2:]
    work = tempfile.mkdtemp(prefix="plant-")
    sh(f"cp -a /repo/. {work}/")
    try:
        for spec in specs:
            if only and spec["id"] not in only:
                continue
            err = plant(spec, work)
            print(spec["id"], "REJECTED: " + err if err else "kept", flush=True)
    finally:
        shutil.rmtree(work)

main()
