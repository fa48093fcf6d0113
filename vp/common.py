"""Builds the analyser, runs it on /repo's current source, reports."""
import fcntl
import glob
import json
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
REPO = "/repo"
NIGHTLY = "+nightly"
TARGET = "x86_64-unknown-linux-gnu"


NO_HOOK = "\n/repo does not compile with the hook barbarosa_verif\n"


class Inconclusive(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def base_env():
    env = dict(os.environ)
    sysroot = subprocess.run(["rustc", NIGHTLY, "--print", "sysroot"], stdout=subprocess.PIPE, text=True, check=True).stdout.strip()
    env["LD_LIBRARY_PATH"] = sysroot + "/lib" + (":" + env["LD_LIBRARY_PATH"] if env.get("LD_LIBRARY_PATH") else "")
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
        env.pop(k, None)
    env["CARGO_NET_OFFLINE"] = "true"
    return env


def std_with_mir(env):
    """a standard library compiled with its MIR, as the toolchain's miri component keeps one"""
    have = os.path.expanduser("~/.cache/miri")
    if glob.glob(have + "/lib/rustlib/" + TARGET + "/lib/libstd-*"):
        return have
    own = os.path.join(BUILD, "sysroot")
    if not glob.glob(own + "/lib/rustlib/" + TARGET + "/lib/libstd-*"):
        e = dict(env)
        e["MIRI_SYSROOT"] = own
        r = sh(["cargo", NIGHTLY, "miri", "setup"], env=e, cwd=VERIF)
        if r.returncode:
            raise Inconclusive("no standard library with MIR: " + r.stdout[-2000:])
    return own


def lock():
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def build_driver(env):
    e = dict(env)
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "driver")
    r = sh(["cargo", NIGHTLY, "build", "--release", "--offline"], cwd=os.path.join(VERIF, "driver"), env=e)
    if r.returncode:
        raise Inconclusive("the analyser does not build:\n" + r.stdout[-4000:])
    return os.path.join(BUILD, "driver", "release", "absint")


class MissingAnchor(Exception):
    pass


def analyse(entries, features, out, steps=None, extra=None, quick=True):
    """run the abstract interpreter on the harness entries against /repo's current source"""
    env = base_env()
    with lock():
        drv = build_driver(env)
        tgt = os.path.join(BUILD, "harness")
        # never trust a previous analysis: force the crates under analysis through the compiler again
        for crate in ("barbarosa", "harness"):
            for d in [f"{tgt}/{TARGET}/debug/build/{crate}"] + glob.glob(f"{tgt}/{TARGET}/debug/.fingerprint/{crate}-*"):
                shutil.rmtree(d, ignore_errors=True)
        os.makedirs(out, exist_ok=True)
        for f in glob.glob(out + "/*.json"):
            os.remove(f)
        e = dict(env)
        e.update(
            RUSTC_WRAPPER=drv,
            CARGO_TARGET_DIR=tgt,
            STA_SYSROOT=std_with_mir(env),
            STA_OUT=out,
            STA_ENTRIES=",".join(entries),
        )
        if quick:
            e.update(STA_EACH="300", STA_LIMIT="600")
        if steps:
            e["STA_STEPS"] = str(steps)
        if extra:
            e.update(extra)
        cmd = ["cargo", NIGHTLY, "check", "--offline", "--target", TARGET, "--no-default-features", "--features", ",".join(features)]
        r = sh(cmd, cwd=os.path.join(VERIF, "harness"), env=e)
        if r.returncode and "could not compile `barbarosa`" in r.stdout and e.pop("STA_CFG", None):
            # without the hook: what needs it is not analysed
            r = sh(cmd, cwd=os.path.join(VERIF, "harness"), env=e)
            if r.returncode == 0:
                r.stdout += NO_HOOK
    log = r.stdout
    if r.returncode:
        if "could not compile `barbarosa`" in log:
            raise Inconclusive("/repo does not compile:\n" + log[-3000:])
        if "Checking harness" in log and ("error[E" in log or "error:" in log):
            first = [l for l in log.splitlines() if l.startswith("error")][:4]
            raise MissingAnchor("the interface the property speaks about is not there: " + " | ".join(first))
        raise Inconclusive("analysis failed:\n" + log[-3000:])
    return log


def git_head():
    r = sh(["git", "-C", REPO, "rev-parse", "--short", "HEAD"])
    return r.stdout.strip() if r.returncode == 0 else "?"
