#!/usr/bin/env python3
"""Development: plant the bugs described in a seeds file.  For each: copy /repo, edit, build, test, run the demonstration on both trees, and
keep it under /verif/seeded/<id>/ when everything holds.   seed.py FILE [id...]"""
import json
import os
import shutil
import subprocess
import sys
import importlib.util

spec = importlib.util.spec_from_file_location('seeds', sys.argv[1])
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
SEEDS = '/verif/seeded'
W = '/tmp/seedwork'
DEMO = r'''#!/bin/bash
# exit 0: the property holds on this tree; non-zero: it does not
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 99
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
[ -f /repo/Cargo.lock ] && cp /repo/Cargo.lock "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
nobject-rs = { path = "/repo" }
[workspace]
EOF
cd "$d" || exit 99
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_TARGET_DIR="$d/target" RUSTC_WRAPPER= RUSTFLAGS=-Awarnings
cargo build --quiet --offline || exit 3
timeout 60 "$d/target/debug/demo"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def build_test(repo):
    e = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_TARGET_DIR=W + '/target', RUSTC_WRAPPER='')
    sh('rm -rf %s/target/debug/.fingerprint/nobject-rs-*' % W)
    r = subprocess.run(['cargo', 'test', '--offline', '--workspace', '--all-features', '--no-fail-fast'], cwd=repo, env=e, capture_output=True, text=True)
    return r.returncode, (r.stdout + r.stderr)


def main():
    only = sys.argv[2:]
    os.makedirs(W, exist_ok=True)
    for s in m.S:
        id = s['id']
        if only and id not in only:
            continue
        repo = W + '/repo'
        shutil.rmtree(repo, ignore_errors=True)
        sh('git clone -q /repo %s && cp /repo/Cargo.lock %s/' % (repo, repo))
        ok = True
        for f, old, new in s['edits']:
            p = os.path.join(repo, f)
            t = open(p).read()
            if t.count(old) != s.get('count', 1) and not (isinstance(old, str) and t.count(old) == 1):
                print(id, 'EDIT: %d matches in %s of %r' % (t.count(old), f, old[:60]))
                ok = False
                break
            open(p, 'w').write(t.replace(old, new, 1))
        if not ok:
            continue
        diff = sh('git -C %s diff' % repo).stdout
        rc, out = build_test(repo)
        if rc:
            print(id, 'TESTS', '\n'.join(l for l in out.splitlines() if 'error' in l or 'FAILED' in l or 'failed' in l)[:700])
            continue
        d = os.path.join(SEEDS, id)
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.rs', 'w').write(s['demo'])
        open(d + '/demo.sh', 'w').write(DEMO)
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        # the demonstration, aimed at the scratch copies
        t = DEMO.replace('/repo', repo).replace('$(cd "$(dirname "$0")" && pwd)', d)
        open(W + '/demo.sh', 'w').write(t)
        b = sh('bash %s/demo.sh' % W)
        sh('git -C %s checkout -- .' % repo)
        a = sh('bash %s/demo.sh' % W)
        print(id, s['property'], 'clean rc', a.returncode, 'patched rc', b.returncode, 'KEPT' if a.returncode == 0 and b.returncode not in (0, 99) else 'BAD', (a.stderr[-300:] if a.returncode else '') + (b.stderr[-300:] if b.returncode == 3 else ''))
        if a.returncode or b.returncode in (0, 99):
            shutil.rmtree(d)


main()
