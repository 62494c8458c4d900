#!/usr/bin/env python3
"""Generates and validates the planted bugs of tools/seeds_*.py into /verif/seeded (development aid; no check reads it).
usage: mkseeds.py [id...]   Works on a scratch copy of /repo's HEAD under /tmp/seedlab."""
import glob, importlib.util, json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); LAB = '/tmp/seedlab'
DEMO_SH = '''#!/bin/bash
# Builds main.rs (beside this file) against the crate in the current directory and runs it.
set -eu
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
rusty_genes = { path = "$repo" }
rand = { version = "0.8.5", features = ["small_rng"] }
rayon = "1.6.1"
object-pool = "0.5.4"
EOF
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/Cargo.lock"
cd "$work"
CARGO_TARGET_DIR="${DEMO_TARGET:-$work/target}" cargo run --offline --quiet
'''
PRELUDE = '''#![allow(dead_code, unused_imports)]
use rand::{rngs::SmallRng, Rng, RngCore, SeedableRng};
use rusty_genes::*;

#[derive(Clone, Debug)]
struct Ind { id: i64, fit: f64 }
impl PartialEq for Ind { fn eq(&self, o: &Self) -> bool { self.id == o.id } }
impl Individual for Ind { fn fitness(&self) -> f64 { self.fit } }
fn ind(id: i64, fit: f64) -> Ind { Ind { id, fit } }
fn pop(fits: &[f64]) -> Population<Ind> {
    Population::new(fits.iter().enumerate().map(|(i, &f)| ind(i as i64, f)).collect())
}
'''
def load():
    seeds = []
    for f in sorted(glob.glob(HERE + '/seeds_*.py')):
        spec = importlib.util.spec_from_file_location('s', f); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        seeds += m.SEEDS
    return seeds
def sh(cmd, cwd, timeout=900, env=None):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=e)
    return p.returncode, p.stdout
def base_lines(path):
    return set(subprocess.run(['git','-C','/repo','show','da6a9d9:'+path],stdout=subprocess.PIPE,text=True).stdout.splitlines())
def one(seed, slot):
    sid = seed['id']; out = f'/verif/seeded/{sid}'; wt = f'{LAB}/{slot}/repo'
    if not os.path.exists(wt):
        os.makedirs(f'{LAB}/{slot}', exist_ok=True)
        sh(f'git clone -q /repo {wt} && cp -a /repo/target {wt}/target', '/')
    sh('git checkout -q -- . && git fetch -q && git reset -q --hard origin/HEAD', wt)
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    for (f, old, new) in seed['edits']:
        p = f'{wt}/{f}'; s = open(p).read()
        if s.count(old) != 1: return sid, f'EDIT matches {s.count(old)} times in {f}: {old[:60]!r}'
        open(p,'w').write(s.replace(old, new))
    rc, diff = sh('git diff', wt)
    open(out+'/patch.diff','w').write(diff)
    cur=None; foreign=[]
    for l in diff.splitlines():
        if l.startswith('--- a/'): cur=l[6:]
        elif l.startswith('-') and l[1:].strip() and l[1:] not in base_lines(cur): foreign.append(l)
    open(out+'/main.rs','w').write(PRELUDE + seed['demo'])
    open(out+'/demo.sh','w').write(DEMO_SH); os.chmod(out+'/demo.sh',0o755)
    json.dump({'property': seed['id'][:3], 'needs': seed['needs'], 'what_it_breaks': seed['breaks']}, open(out+'/meta.json','w'), indent=1)
    msgs=[]
    if foreign: msgs.append('changes lines of a fix: '+str(foreign[:2]))
    rc, o = sh('cargo test --workspace --no-fail-fast --offline 2>&1', wt)
    if rc: msgs.append('TESTS FAIL: ' + ' | '.join(l for l in o.splitlines() if 'FAILED' in l or l.startswith('error'))[:300])
    rc, o = sh(f'bash {out}/demo.sh', wt, env={'DEMO_TARGET': f'{LAB}/{slot}/demo'})
    if rc == 0: msgs.append('DEMO passes with the patch')
    elif 'panicked' not in o: msgs.append('DEMO no panic: '+o[-600:])
    sh('git checkout -q -- .', wt)
    rc, o = sh(f'bash {out}/demo.sh', wt, env={'DEMO_TARGET': f'{LAB}/{slot}/demo'})
    if rc: msgs.append('DEMO fails unpatched: '+o[-800:])
    return sid, '; '.join(msgs) or 'ok'
def main():
    want = sys.argv[1:]
    seeds = [s for s in load() if not want or s['id'] in want]
    n=4; import queue; q=queue.Queue()
    for i in range(n): q.put(i)
    def job(s):
        slot=q.get()
        try: return one(s, slot)
        except Exception as e: return s['id'], 'EXC '+repr(e)
        finally: q.put(slot)
    with ThreadPoolExecutor(n) as ex:
        for sid, m in ex.map(job, seeds): print(sid, m, flush=True)
main()
