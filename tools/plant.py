#!/usr/bin/env python3
"""Development helper: turn the bug descriptions of a spec file into /verif/seeded/<id>/.

  python3 tools/plant.py SPEC.py [ID...]

Every bug is applied to /repo, built, tested, demonstrated (must fail), checked (reported, not required), and undone;
the demonstration must also pass on the unchanged tree. No registered check uses this file."""
import json, os, pathlib, re, subprocess, sys, difflib

REPO = '/repo'
SEED = pathlib.Path('/verif/seeded')
RUST_DEMO = '''#!/bin/bash
# Runs in /repo after the build: links demo.rs against the library just built.
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
trap 'find "$out" -mindepth 1 -delete; rmdir "$out"' EXIT
export HOME=/root PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
rustc --edition 2021 -A warnings -L dependency=target/debug/deps --extern imgproc_rs="$(ls -t target/debug/deps/libimgproc_rs-*.rlib | head -1)" \\
    -o "$out/demo" "$here/demo.rs" || exit 2
cd "$out" && timeout 120 ./demo
'''
CARGO_DEMO = '''#!/bin/bash
# Runs in /repo after the build: builds demo.rs against /repo's crate with other features, in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
out=$(mktemp -d)
trap 'find "$out" -mindepth 1 -delete; rmdir "$out"' EXIT
export HOME=/root PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$out/target" RUSTC_WRAPPER=
mkdir -p "$out/demo/src"
cp "$here/demo.rs" "$out/demo/src/main.rs"
cp "$repo/Cargo.lock" "$out/demo/Cargo.lock"
cat > "$out/demo/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
imgproc-rs = { path = "$repo", %s }
EOF
cd "$out/demo" && cargo build --offline -q 2>"$out/log" || { tail -30 "$out/log"; exit 2; }
timeout 120 "$CARGO_TARGET_DIR/debug/demo"
'''

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)

def nth(s, old, n):
    i = -1
    for _ in range(n + 1):
        i = s.find(old, i + 1)
        if i < 0:
            raise SystemExit('not found: ' + old)
    return i

def main():
    spec = {}
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], 'exec'), spec)
    want = sys.argv[2:]
    for b in spec['BUGS']:
        if want and b['id'] not in want:
            continue
        d = SEED / b['id']
        if not want and (d / 'patch.diff').exists():
            continue
        d.mkdir(parents=True, exist_ok=True)
        (d / 'demo.rs').write_text(b['demo'])
        (d / 'demo.sh').write_text(CARGO_DEMO % b['features'] if 'features' in b else RUST_DEMO)
        (d / 'meta.json').write_text(json.dumps({'property': b['property'], 'needs': b['needs'],
                                                 'what_it_breaks': b['breaks']}, indent=1) + '\n')
        assert not sh('git -C /repo status --porcelain').stdout.strip()
        if sh('bash /opt/vp/build.sh').returncode:
            raise SystemExit('clean build fails')
        r = sh('bash %s/demo.sh' % d, cwd=REPO)
        ok0 = r.returncode == 0
        msg0 = r.stdout[-600:] + r.stderr[-600:]
        try:
            for e in b['edits']:
                f = pathlib.Path(REPO) / e[0]
                s = f.read_text()
                n = e[3] if len(e) > 3 else 0
                i = nth(s, e[1], n)
                f.write_text(s[:i] + e[2] + s[i + len(e[1]):])
            (d / 'patch.diff').write_text(sh('git -C /repo diff').stdout)
            r = sh('bash /opt/vp/build.sh')
            okb = r.returncode == 0
            if not okb:
                print(r.stderr[-1500:])
            sh('bash /opt/vp/test.sh /tmp/plant.json')
            res = json.load(open('/tmp/plant.json'))
            base = json.load(open('/opt/vp/BASELINE.json'))['stable']
            passed = set(res.get('passed') or res.get('pass') or [])
            missing = [t for t in base if t not in passed]
            r = sh('bash %s/demo.sh' % d, cwd=REPO)
            ok1 = r.returncode != 0 and r.returncode != 2
            c = sh('cd /verif && python3 sa/run.py %s' % b['property'])
            hit = c.returncode == 1 and ('VIOLATION property=%s ' % b['property']) in c.stdout
            line = [l for l in c.stdout.splitlines() if 'violat' in l.lower() or l.startswith('VIOL')][:2]
        finally:
            sh('git -C /repo checkout -- .')
        print(b['id'], 'clean-demo' if ok0 else 'CLEAN DEMO FAILS ' + msg0, 'builds' if okb else 'NO BUILD',
              'tests' if not missing else 'TESTS FAIL %s' % missing,
              'demo-fails' if ok1 else 'DEMO PASSES rc=%d %s' % (r.returncode, r.stderr[-300:]),
              'CAUGHT' if hit else 'MISSED rc=%d' % c.returncode, ' | '.join(l[:160] for l in line), flush=True)
    sh('bash /opt/vp/build.sh')

main()
