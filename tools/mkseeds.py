#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ (planted bugs with their demonstrations) and confirms each in a scratch copy of /repo.

mkseeds.py [id...]: (re)write and confirm those; without ids: all. Needs nothing from the checks."""
import json, os, shutil, subprocess, sys
V = "/verif"
SEEDS = {}


def seed(id, prop, edits, main, needs, breaks, features="", deps="", reject=False):
    """edits: [(file, old, new)]; main: program that exits 0 iff the property holds (reject: must not compile)."""
    SEEDS[id] = dict(prop=prop, edits=edits, main=main, needs=needs, breaks=breaks, features=features, deps=deps, reject=reject)


exec(open(V + "/tools/seeds_src.py").read())

DEMO = '''#!/bin/bash
# Builds main.rs against the crate in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
auto_enums = { path = "$repo", features = [%(features)s] }
%(deps)s
[profile.dev]
debug = false
TOML
export HOME=/root PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_TARGET_DIR="$d/target"
unset RUSTFLAGS RUSTDOCFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
cd "$d"
%(run)s
'''
RUN = "cargo +nightly-2025-03-20 run --offline -q 2>&1 | tail -n 30\nexit ${PIPESTATUS[0]}"
# main.rs must be rejected, but be fine without its last item
REJ = '''sed '/REJECTED/,$d' src/main.rs > src/ok.rs
cp src/main.rs src/bad.rs
cp src/ok.rs src/main.rs
cargo +nightly-2025-03-20 check --offline -q || exit 1
cp src/bad.rs src/main.rs
if cargo +nightly-2025-03-20 check --offline -q 2>/dev/null; then echo "accepted, although it must be rejected"; exit 1; fi
exit 0'''


def sh(cmd, cwd, t=900):
    p = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return p.returncode, p.stdout


def write(id, s, scratch):
    d = f"{V}/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    for f, old, new in s["edits"]:
        p = f"{scratch}/{f}"
        t = open(p).read()
        assert t.count(old) == 1, (id, f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    rc, diff = sh("git diff", scratch)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/main.rs", "w").write(s["main"].strip("\n") + "\n")
    open(d + "/demo.sh", "w").write(DEMO % dict(features=", ".join(f'"{x}"' for x in s["features"].split()), deps=s["deps"], run=REJ if s["reject"] else RUN))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    return d


def main():
    scratch = "/tmp/seedrepo"
    shutil.rmtree(scratch, ignore_errors=True)
    sh(f"git clone -q /repo {scratch}", "/tmp")
    for id in sys.argv[1:] or SEEDS:
        s = SEEDS[id]
        sh("git checkout -q -- .", scratch)
        d0 = f"{V}/seeded/{id}"
        d = write(id, s, scratch)
        rc_bad, o_bad = sh(f"bash {d}/demo.sh", scratch)
        sh("git checkout -q -- .", scratch)
        rc_ok, o_ok = sh(f"bash {d}/demo.sh", scratch)
        print(id, s["prop"], "demo: clean", rc_ok, "patched", rc_bad, "OK" if rc_ok == 0 and rc_bad != 0 else "*** BAD\n" + o_ok[-1500:] + o_bad[-600:], flush=True)
    shutil.rmtree(scratch, ignore_errors=True)


main()
