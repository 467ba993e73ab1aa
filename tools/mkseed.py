#!/usr/bin/env python3
"""mkseed.py SPEC.py -- build /verif/seeded/<id>/ from SEEDS in SPEC.py and confirm each one in a scratch copy:
applies, builds, stable tests pass, demo passes without and fails with the patch."""
import os, sys, subprocess, shutil, json, runpy, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = '/tmp/seedwt'
DEMO = r'''#!/bin/bash
# builds the program beside this script against the crate in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d /tmp/seeddemo.XXXXXX) || exit 9
trap 'rm -rf "$w"' EXIT
mkdir "$w/src" && cp "$here/demo.rs" "$w/src/main.rs"
[ -f Cargo.lock ] && cp Cargo.lock "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<E
[package]
name = "seeddemo"
version = "0.0.0"
edition = "2021"
[dependencies]
webparse = { path = "$PWD" }
algorithm = "0.1.18"
[workspace]
E
export CARGO_TARGET_DIR="$w/target" CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings
cargo build --offline -q --manifest-path "$w/Cargo.toml" || exit 8
timeout 60 "$w/target/debug/seeddemo"
'''


def sh(c, cwd=None, **k):
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def tests():
    b = sh('cargo test --offline --no-fail-fast 2>&1', WT, timeout=600, env=dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true'))
    return {re.sub(r' \(line \d+\)', '', l)[5:-7] for l in b.stdout.splitlines() if l.startswith('test ') and l.rstrip().endswith('... ok')}


def main():
    only = sys.argv[2:]
    seeds = runpy.run_path(sys.argv[1])['SEEDS']
    if not os.path.exists(WT):
        sh(f'cp -a /repo {WT}')
    sh('git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git checkout -q -- .', WT)
    base = tests()
    for s in seeds:
        if only and s['id'] not in only:
            continue
        sh('git checkout -q -- .', WT)
        d = os.path.join(V, 'seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        open(d + '/demo.rs', 'w').write(s['demo'])
        open(d + '/demo.sh', 'w').write(DEMO)
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        r0 = sh(f'bash {d}/demo.sh', WT, timeout=300)
        bad = []
        if r0.returncode:
            bad.append('demo fails on the unchanged tree: ' + r0.stdout[-1200:])
        for f, old, new in s['edits']:
            p = os.path.join(WT, f)
            t = open(p).read()
            if t.count(old) != 1:
                bad.append(f'{f}: {t.count(old)} matches of {old[:50]!r}')
                continue
            open(p, 'w').write(t.replace(old, new))
        open(d + '/patch.diff', 'w').write(sh('git diff', WT).stdout)
        ok = tests()
        if base - ok:
            bad.append(f'tests fail: {sorted(base - ok)[:4]} of {len(base)}')
        r1 = sh(f'bash {d}/demo.sh', WT, timeout=300)
        if r1.returncode in (0, 8, 9):
            bad.append(f'demo with patch: rc {r1.returncode} {r1.stdout[-600:]}')
        sh('git checkout -q -- .', WT)
        print(s['id'], 'OK' if not bad else 'BAD ' + '\n   '.join(bad), flush=True)
        if bad:
            if '--keep' not in sys.argv:
                shutil.rmtree(d)


main()
