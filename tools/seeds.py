#!/usr/bin/env python3
"""(Re)generates /verif/seeded/<id>/ from the definitions below against /repo's HEAD; with `run` also builds each patch in a
scratch copy, runs the stable tests and the demo with and without it.  No check reads this file."""
import sys, os, json, subprocess, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = '/tmp/vt-seed'
DEMO = '''#!/bin/bash
# exit 0 on the unchanged tree, nonzero with the patch; run with cwd = the repository
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
W=$(mktemp -d /tmp/kdemo.XXXXXX); trap 'rm -rf "$W"' EXIT
mkdir "$W/src"; cp "$D/demo.rs" "$W/src/main.rs"
cat > "$W/Cargo.toml" <<X
[package]
name = "kdemo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
k = { path = "$R"FEAT }
nalgebra = "0.26"
urdf-rs = "0.6"
DEPS[profile.dev]
debug = false
incremental = false
X
[ -f "$R/Cargo.lock" ] && cp "$R/Cargo.lock" "$W/Cargo.lock"
cd "$W" && RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TARGET_DIR="$W/target" cargo build -q --offline || exit 3
timeout 60 "$W/target/debug/kdemo"
'''
PRE = '''#![allow(unused)]
use k::prelude::*;
use k::*;
use nalgebra as na;
fn rot(n: &str, ax: na::Unit<na::Vector3<f64>>, x: f64, y: f64, z: f64) -> Node<f64> {
    NodeBuilder::new().name(n).joint_type(JointType::Rotational { axis: ax })
        .translation(Translation3::new(x, y, z)).into_node()
}
fn lin(n: &str, ax: na::Unit<na::Vector3<f64>>, x: f64, y: f64, z: f64) -> Node<f64> {
    NodeBuilder::new().name(n).joint_type(JointType::Linear { axis: ax })
        .translation(Translation3::new(x, y, z)).into_node()
}
fn fixed(n: &str, x: f64, y: f64, z: f64) -> Node<f64> {
    NodeBuilder::new().name(n).translation(Translation3::new(x, y, z)).into_node()
}
'''
sys.path.insert(0, os.path.join(V, 'tools'))
from seeddefs import SEEDS


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def main():
    names = [n for n in sys.argv[2:]] or [s['id'] for s in SEEDS]
    run = sys.argv[1] == 'run'
    os.makedirs(SC, exist_ok=True)
    if os.path.exists(SC + '/repo'):
        shutil.rmtree(SC + '/repo')
    shutil.copytree('/repo', SC + '/repo', symlinks=True, ignore=shutil.ignore_patterns('target'))
    R = SC + '/repo'
    for s in SEEDS:
        if s['id'] not in names:
            continue
        sh('git checkout -q -- . && git clean -qfd', cwd=R)
        d = V + '/seeded/' + s['id']
        os.makedirs(d, exist_ok=True)
        for f, old, new in s['edits']:
            t = open(R + '/' + f).read()
            assert t.count(old) == 1, (s['id'], f, t.count(old), old)
            open(R + '/' + f, 'w').write(t.replace(old, new))
        open(d + '/patch.diff', 'w').write(sh('git diff', cwd=R).stdout)
        feat = s.get('feat', '')
        open(d + '/demo.sh', 'w').write(DEMO.replace('FEAT', feat).replace('DEPS', s.get('deps', '')))
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.rs', 'w').write(PRE + s['demo'])
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(d + '/meta.json', 'w'), indent=1)
        if run:
            env = dict(os.environ, RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', RUSTC_WRAPPER='', CARGO_TARGET_DIR=SC + '/target',
                       CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only')
            env.pop('RUSTFLAGS', None)
            r = sh('timeout 400 cargo test --workspace --no-fail-fast --offline -- --test-threads 8 && cargo build --workspace --lib --all-features --offline', cwd=R, env=env)
            ok = r.returncode
            npass = sum(int(l.split()[3]) for l in r.stdout.splitlines() if l.startswith('test result'))
            dm = sh('bash %s/demo.sh' % d, cwd=R)
            sh('git checkout -q -- .', cwd=R)
            du = sh('bash %s/demo.sh' % d, cwd=R)
            good = ok == 0 and dm.returncode not in (0, 3) and du.returncode == 0
            print(s['id'], 'OK' if good else 'BAD', 'tests rc', ok, 'passed', npass, 'demo patched', dm.returncode, 'unpatched', du.returncode, flush=True)
            if not good:
                print('\n'.join(l for l in r.stdout.splitlines() if 'FAILED' in l or 'panicked' in l)[-1500:], r.stderr[-2500:] if ok else '', dm.stderr[-1500:], du.stderr[-1500:], flush=True)


main()
