#!/usr/bin/env python3
"""Development tool: turns tools/seeds.py into /verif/seeded/<id>/ (patch.diff, demo, meta.json).
usage: mkseed.py [id ...]      -- (re)generate
       mkseed.py --verify [id ...] -- in a scratch copy: builds, tests pass, demo fails with the patch and passes without
"""
import json, os, re, shutil, subprocess, sys
V = "/verif"; R = "/repo"
sys.path.insert(0, V + "/tools")
from seeds import SEEDS

DEMO = r'''#!/bin/bash
# exit 0: the property holds in this scenario; builds and runs the program beside this file against /repo
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)" || exit 0
trap 'rm -rf "$t"' EXIT
cp -r "$here/demo" "$t/demo"
cd "$t/demo" && CARGO_TARGET_DIR="$t/target" cargo build --offline --quiet 2>"$t/err" || { tail -20 "$t/err"; exit 3; }
timeout 200 "$t/target/debug/demo"
'''
def run(c, **k): return subprocess.run(c, shell=isinstance(c, str), capture_output=True, text=True, **k)
def gen(s):
    d = f"{V}/seeded/{s['id']}"
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d + "/demo/src")
    edits = s["edits"]; w = "/tmp/mkseed"; shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    run(f"git -C {R} worktree prune"); diff = ""
    for f, old, new in edits:
        p = f"{w}/{f}"
        if not os.path.exists(p): os.makedirs(os.path.dirname(p), exist_ok=True); shutil.copy(f"{R}/{f}", p)
        t = open(p).read(); n = t.count(old)
        if n != 1: sys.exit(f"{s['id']}: {f}: text found {n} times: {old!r}")
        base = run(["git", "-C", R, "show", f"37e4321:{f}"]).stdout
        newl = {l.strip() for l in new.split("\n")}
        for l in old.split("\n"):
            if l.strip() and l.strip() not in newl and l.strip() not in base: print(f"  WARNING {s['id']}: line is not an original one: {l.strip()}")
        open(p, "w").write(t.replace(old, new))
    for f in dict.fromkeys(e[0] for e in edits):
        r = run(["git", "diff", "--no-index", f"{R}/{f}", f"{w}/{f}"]).stdout
        r = r.replace(f"a{R}/{f}", f"a/{f}").replace(f"b{w}/{f}", f"b/{f}")
        diff += r
    open(d + "/patch.diff", "w").write(diff)
    shutil.rmtree(w)
    open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    for f in ("city", "client", "oracle", "rng", "server"): shutil.copy(f"{V}/harness/src/{f}.rs", f"{d}/demo/src/{f}.rs")
    t = open(f"{V}/harness/Cargo.toml").read().replace('"vharness"', '"demo"')
    open(d + "/demo/Cargo.toml", "w").write(t)
    open(d + "/demo/Cargo.lock", "w").write(open(f"{V}/harness/Cargo.lock").read().replace('name = "vharness"', 'name = "demo"'))
    open(d + "/demo/src/main.rs", "w").write('''#![allow(dead_code, unused_imports)]
mod city; mod client; mod oracle; mod rng; mod server;
use client::*; use oracle::*; use rng::Rng; use server::*;
use clickhouse_rs::{types::{Block as CBlock, *}, Options, Pool, ClientHandle, row};
use futures_util::StreamExt;
use std::sync::{Arc, Mutex, atomic::{AtomicUsize, Ordering::SeqCst}};
use std::time::Duration;
fn n32(x: u32) -> V { V::N(x.to_le_bytes().to_vec()) }
fn num(name: &str, v: &[u32]) -> Blk { Blk::new(vec![(name.into(), Ty::U32, v.iter().map(|x| n32(*x)).collect())]) }
async fn demo() -> Result<(), String> {
''' + s["demo"].rstrip() + '''
}
fn main() {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    match rt.block_on(demo()) { Ok(()) => println!("ok"), Err(e) => { println!("FAILED: {e}"); std::process::exit(1) } }
}
''')
def verify(s):
    i = s["id"]; w = f"/tmp/vseed-{i}"; d = f"{V}/seeded/{i}"
    shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    try:
        run(f"cp -a {R} {w}/repo"); run(f"cp -r {d} {w}/seed")
        run(f"sed -i 's#path = \"/repo\"#path = \"{w}/repo\"#' {w}/seed/demo/Cargo.toml")
        a = run(f"bash {w}/seed/demo.sh")
        p = run(f"git -C {w}/repo apply {d}/patch.diff")
        if p.returncode: return f"{i}: patch does not apply: {p.stderr}"
        b = run(f"bash {w}/seed/demo.sh")
        t = run(f"cd {w}/repo && cargo test --offline --no-fail-fast --lib 2>&1 | grep -E '^test |^error|test result'")
        names = {l.split()[1] for l in t.stdout.split("\n") if l.startswith("test ") and l.rstrip().endswith("FAILED")}
        lost = [n for n in names if any(n in x for x in STABLE)]
        if "could not compile" in t.stdout: lost.append("does not compile")
        ok = a.returncode == 0 and b.returncode not in (0, 3) and not lost
        return f"{i}: {'OK' if ok else 'BAD'} unchanged={a.returncode} {a.stdout.strip()[-150:]} patched={b.returncode} {(b.stdout+b.stderr).strip()[-200:]} lost={lost} {t.stdout[-120:].strip()}"
    finally: shutil.rmtree(w, ignore_errors=True)
def stable():
    t = json.load(open("/opt/vp/BASELINE.json"))
    out = []
    def walk(x):
        if isinstance(x, str): out.append(x)
        elif isinstance(x, list): [walk(y) for y in x]
        elif isinstance(x, dict): [walk(y) for y in list(x.keys()) + list(x.values())]
    walk(t); return out
STABLE = stable()
if __name__ == "__main__":
    a = sys.argv[1:]; ver = "--verify" in a; a = [x for x in a if x != "--verify"]
    for s in SEEDS:
        if a and s["id"] not in a: continue
        gen(s)
    if ver:
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(2) as ex:
            for r in ex.map(verify, [s for s in SEEDS if not a or s["id"] in a]): print(r, flush=True)
