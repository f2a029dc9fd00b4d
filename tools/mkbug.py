#!/usr/bin/env python3
"""Makes seeded/<id>/ from a specification: mkbug.py SPEC.py...

A specification defines bugs by calls of bug(id, property, needs, breaks, edits, demo): edits are (file, old, new)
with `old` occurring once (or (file, old, new, n) for its n-th occurrence), demo is the body of main.rs.
"""
import json
import os
import subprocess
import sys

REPO = "/repo"
SEEDED = "/verif/seeded"
CORE = "frozen-collections-core/src/"

DEMO_SH = """#!/bin/bash
# exit 0: the property holds in this demonstration; anything else: it is broken
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
cat > "$work/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
%DEP%
[profile.dev]
debug = 0
%PROFILE%
END
[ -f Cargo.lock ] && cp Cargo.lock "$work/Cargo.lock"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$work/target"
unset RUSTFLAGS
cargo build --quiet --offline --manifest-path "$work/Cargo.toml" > "$work/log" 2>&1 || { tail -20 "$work/log"; exit 3; }
"$work/target/debug/demo"
"""
# the program as it is has to compile, and with `--cfg bad` it has to be refused by rustc
REFUSE = """
RUSTFLAGS='--cfg bad' cargo check --quiet --offline --manifest-path "$work/Cargo.toml" > "$work/log" 2>&1 && { echo "what must not compile does"; exit 1; }
grep -q "could not compile .demo. " "$work/log" || { tail -20 "$work/log"; exit 3; }
"""


def bug(id, prop, needs, breaks, edits, demo, dep="frozen-collections-core", profile="", refuse=False):
    d = os.path.join(SEEDED, id)
    assert subprocess.run(["git", "-C", REPO, "status", "--porcelain"], capture_output=True, text=True).stdout == "", "dirty /repo"
    tree = f"/tmp/mkbug-{os.getpid()}"
    subprocess.run(["git", "-C", REPO, "worktree", "add", "--detach", "-f", tree, "HEAD"], check=True, capture_output=True)
    try:
        for e in edits:
            f, old, new = e[:3]
            p = os.path.join(tree, CORE + f if not f.startswith("frozen") else f)
            s = open(p).read()
            parts = s.split(old)
            n = e[3] if len(e) > 3 else 1
            if len(e) <= 3:
                assert len(parts) == 2, f"{id}: {f}: {len(parts) - 1} occurrences of {old!r}"
            assert len(parts) > n, f"{id}: {f}: no occurrence {n} of {old!r}"
            s = old.join(parts[:n]) + new + old.join(parts[n:])
            open(p, "w").write(s)
        diff = subprocess.run(["git", "-C", tree, "diff"], check=True, capture_output=True, text=True).stdout
        assert diff, id
    finally:
        subprocess.run(["git", "-C", REPO, "worktree", "remove", "--force", tree], check=True)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    dep_line = f'{dep} = {{ path = "$PWD/{dep}" }}'
    sh = DEMO_SH.replace("%DEP%", dep_line).replace("%PROFILE%", profile)
    if refuse:
        sh += REFUSE
    open(os.path.join(d, "demo.sh"), "w").write(sh)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "main.rs"), "w").write(demo.lstrip("\n"))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    print(id)


for spec in sys.argv[1:]:
    exec(compile(open(spec).read(), spec, "exec"), {"bug": bug, "CORE": CORE})
