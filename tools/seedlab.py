#!/usr/bin/env python3
"""seedlab.py make ID...    confirm planted changes in a scratch copy, write seeded/<id>/
   seedlab.py run [ID...]   apply each to /repo, run its property's quick check, undo; prints the table

The definitions are in seeddefs.py: SEEDS = {id: dict(property, needs, breaks, edits=[(file, old, new)], demo=rust)}"""
import json, os, re, shutil, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
SCR = "/tmp/seedlab"

DEMO = """#!/bin/bash
# run in the repository: builds the program beside this file against it and runs it
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d /tmp/rustdct-demo.XXXXXXXX) || exit 1
trap 'rm -rf -- "$work"' EXIT
mkdir "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
printf '[package]\\nname = "demo"\\nversion = "0.0.0"\\nedition = "2018"\\n[dependencies]\\nrustdct = { path = "%s" }\\n[profile.dev]\\nopt-level = 1\\n[workspace]\\n' "$repo" > "$work/Cargo.toml"
cd "$work" || exit 1
export CARGO_TARGET_DIR="$work/target" CARGO_INCREMENTAL=0
unset RUSTFLAGS
cargo build -q --offline@REL@ 2> "$work/log" || { cat "$work/log"; exit 1; }
timeout 120 "$work/target/@DIR@/demo"
"""

HEAD = """#![allow(dead_code, unused_imports)]
use rustdct::algorithm::*;
use rustdct::algorithm::type2and3_butterflies::*;
use rustdct::mdct::*;
use rustdct::rustfft::{FftPlanner, Fft, FftDirection, Length};
use rustdct::*;
use std::f64::consts::PI;
use std::sync::Arc;

fn signal(n: usize, seed: u64) -> Vec<f64> {
    let mut s = seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
    (0..n)
        .map(|_| {
            s ^= s << 13;
            s ^= s >> 7;
            s ^= s << 17;
            (s >> 11) as f64 / (1u64 << 53) as f64 - 0.5
        })
        .collect()
}
fn close(a: &[f64], b: &[f64], tol: f64, what: &str) {
    assert_eq!(a.len(), b.len());
    for i in 0..a.len() {
        assert!((a[i] - b[i]).abs() <= tol, "{}: cell {} is {} and should be {}", what, i, a[i], b[i]);
    }
}
fn sum(x: &[f64], f: impl Fn(f64, f64) -> f64) -> Vec<f64> {
    (0..x.len()).map(|k| x.iter().enumerate().map(|(i, v)| v * f(i as f64, k as f64)).sum()).collect()
}
fn caught<R>(f: impl FnOnce() -> R) -> bool {
    let hook = std::panic::take_hook();
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err();
    std::panic::set_hook(hook);
    r
}
"""


def sh(cmd, cwd, env=None, **k):
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, **k)


def base_env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO", "RUSTFLAGS"))}
    e.update(CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never")
    return e


def make(ids):
    from seeddefs import SEEDS
    want = json.load(open("/opt/vp/BASELINE.json"))
    bad = []
    for i in ids or SEEDS:
        s = SEEDS[i]
        d = f"{ROOT}/seeded/{i}"
        if not os.path.exists(SCR):
            sh(["cp", "-a", "/repo", SCR], "/tmp")
        sh(["git", "checkout", "-q", "--", "."], SCR)
        ok = True
        for f, old, new in s["edits"]:
            p = f"{SCR}/{f}"
            t = open(p).read()
            if t.count(old) < 1 or (t.count(old) > 1 and not s.get("multi") and not s.get("first")):
                print(i, "edit matches", t.count(old), "times:", old[:80]); ok = False
            t = t.replace(old, new) if s.get("multi") else t.replace(old, new, 1)
            open(p, "w").write(t)
        if not ok:
            bad.append(i); continue
        diff = sh(["git", "diff"], SCR).stdout
        os.makedirs(d, exist_ok=True)
        open(f"{d}/patch.diff", "w").write(diff)
        rel = s.get("release", False)
        open(f"{d}/demo.sh", "w").write(DEMO.replace("@REL@", " --release" if rel else "").replace("@DIR@", "release" if rel else "debug"))
        os.chmod(f"{d}/demo.sh", 0o755)
        open(f"{d}/main.rs", "w").write(HEAD + s["demo"])
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
        r = sh(["cargo", "test", "--workspace", "--no-fail-fast", "--offline", "--", "--test-threads", "8"], SCR, base_env())
        res = [tuple(map(int, m)) for m in re.findall(r"(\d+) passed; (\d+) failed", r.stdout)]
        p, f = sum(x[0] for x in res), sum(x[1] for x in res)
        a = sh(["bash", f"{d}/demo.sh"], "/repo", base_env())
        b = sh(["bash", f"{d}/demo.sh"], SCR, base_env())
        good = r.returncode == 0 and f == 0 and p >= 68 and a.returncode == 0 and b.returncode != 0
        print(i, "tests", p, f, "demo", a.returncode, b.returncode, "OK" if good else "BAD", (b.stdout + b.stderr).strip()[-160:].replace("\n", " | "), flush=True)
        if not good:
            bad.append(i)
            print((r.stderr[-1500:] if p < 68 or f else "") + "\n" + "\n".join(re.findall(r"test .* FAILED", r.stdout)), a.stdout[-800:], a.stderr[-800:])
    shutil.rmtree(SCR, ignore_errors=True)
    print("BAD:", bad)


def run(ids):
    ids = ids or sorted(os.listdir(f"{ROOT}/seeded"))
    if sh(["git", "status", "--porcelain"], "/repo").stdout.strip():
        sys.exit("/repo is not clean")
    for i in ids:
        d = f"{ROOT}/seeded/{i}"
        pid = json.load(open(f"{d}/meta.json"))["property"]
        try:
            r = sh(["git", "apply", f"{d}/patch.diff"], "/repo")
            assert r.returncode == 0, r.stderr
            t = time.time()
            r = sh(["python3", "check.py", pid, "quick"], ROOT)
            v = [l for l in r.stdout.splitlines() if l.startswith(f"VIOLATION property={pid} ")]
            n = [l for l in r.stdout.splitlines() if l.startswith("  ")]
            print(f"{i:28s} {pid} exit {r.returncode} {'CAUGHT' if r.returncode == 1 and v else 'MISSED'} {time.time() - t:.0f}s {(n or [r.stdout.strip()[-200:] + r.stderr[-200:]])[0][:160]}", flush=True)
        finally:
            sh(["git", "checkout", "-q", "--", "."], "/repo")


if __name__ == "__main__":
    {"make": make, "run": run}[sys.argv[1]](sys.argv[2:])
