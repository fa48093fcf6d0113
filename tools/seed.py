"""Writes seeded/<id>/ from bugs.py, and tries each one in a scratch copy.

usage: seed.py write [ID...]     write the folders
       seed.py try SCRATCH [ID...]   confirm in a copy of /repo: builds, stable tests pass, the demo tells
       seed.py check SCRATCH [ID...] apply to /repo, run the property's check, undo
"""
import json, os, subprocess, sys, shutil
sys.path.insert(0, os.path.dirname(__file__))
from bugs import B

SEEDED = "/verif/seeded"
DEMO = '''#!/bin/bash
# Builds main.rs against the crate in the current folder (/repo) and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
dir=$(mktemp -d /tmp/barbarosa-demo.XXXXXX) || exit 2
mkdir "$dir/src"
cp "$here/main.rs" "$dir/src/main.rs"
cp "$repo/Cargo.lock" "$dir/Cargo.lock"
cat > "$dir/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
barbarosa = { path = "$repo/barbarosa" }
rand = "0.8.5"
nalgebra = "0.32.2"
T
cd "$dir"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$dir/target" CARGO_PROFILE_DEV_DEBUG=0 CARGO_INCREMENTAL=0
EXTRAcargo run --offline --quiet
rc=$?
cd /
rm -rf "$dir"
exit $rc
'''

EXTRA = {
    "lib": "",
    # with access to the storage of caches (cfg barbarosa_verif)
    "verif": """export RUSTFLAGS="--cfg barbarosa_verif"
""",
    # with the program itself
    "bin": """cargo build --offline --quiet --manifest-path "$repo/barbarosa/Cargo.toml" --bin barbarosa || exit 3
export PROGRAM="$dir/target/debug/barbarosa"
""",
}


def sh(cmd, cwd=None, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def edited(root, b):
    for f, old, new in b["edits"]:
        p = os.path.join(root, f)
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))


def write(ids):
    for i in ids:
        b = B[i]
        d = f"{SEEDED}/{i}"
        os.makedirs(d, exist_ok=True)
        tree = f"/tmp/seedtree"
        shutil.rmtree(tree, ignore_errors=True)
        sh(f"git -C /repo worktree prune; git clone -q /repo {tree}")
        edited(tree, b)
        rc, out = sh("git diff", tree)
        assert out, i
        open(f"{d}/patch.diff", "w").write(out)
        shutil.rmtree(tree)
        open(f"{d}/main.rs", "w").write(b["main"].lstrip("\n"))
        open(f"{d}/demo.sh", "w").write(DEMO.replace("EXTRA", EXTRA[b["kind"]]))
        os.chmod(f"{d}/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what_it_breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
        rc, out = sh(f"git -C /repo apply --check {d}/patch.diff")
        assert rc == 0, out


def failed(out):
    return [l for l in out.splitlines() if l.startswith("test ") and "FAILED" in l]


def attempt(scratch, ids):
    base = json.load(open("/opt/vp/BASELINE.json"))
    env = ". /opt/vp/env.sh; export CARGO_TARGET_DIR=%s/target; " % scratch
    for i in ids:
        d = f"{SEEDED}/{i}"
        sh("git checkout -q -- .", scratch)
        rc0, out0 = sh(f"bash {d}/demo.sh", scratch)
        rc, out = sh(f"git apply {d}/patch.diff", scratch)
        assert rc == 0, out
        rc, out = sh(env + "cargo build --workspace --offline", scratch)
        if rc:
            print(i, "DOES NOT BUILD", out[-1500:]); continue
        rc, out = sh(env + "timeout 600 cargo test --workspace --no-fail-fast --offline -- --test-threads 8", scratch)
        bad = failed(out)
        rc1, out1 = sh(f"bash {d}/demo.sh", scratch)
        sh("git checkout -q -- .", scratch)
        ok = rc0 == 0 and rc1 != 0 and "error" not in [out1[:5]] and not bad
        print(i, "ok" if ok else "NOT OK", "clean", rc0, "patched", rc1, "failing tests", [x[5:60] for x in bad[:3]], "" if ok else (out0 if rc0 else out1)[-500:], flush=True)
        if "could not compile" in out1: print("   demo does not compile with patch")


def check(ids):
    for i in ids:
        p = B[i]["property"]
        rc, out = sh(f"git -C /repo apply {SEEDED}/{i}/patch.diff")
        assert rc == 0, out
        try:
            rc, out = sh(f"python3 check.py {p}", "/verif")
        finally:
            sh("git -C /repo checkout -- .")
        v = [l for l in out.splitlines() if l.startswith("VIOLATION") or "INCONCLUSIVE" in l]
        print(i, p, "rc", rc, "CAUGHT" if rc == 1 and v else "MISSED", "\n    " + "\n    ".join(out.splitlines()[:4]), flush=True)


if __name__ == "__main__":
    what, rest = sys.argv[1], sys.argv[2:]
    if what == "try":
        scratch, rest = rest[0], rest[1:]
    ids = rest or list(B)
    if what == "write": write(ids)
    elif what == "try": attempt(scratch, ids)
    else: check(ids)
