#!/usr/bin/env python3
"""Regenerates /verif/seeded/<id>/patch.diff, demo.sh and meta.json from /verif/tools/seeds/<id>.py (never read by a check).
Each seeds/<id>.py defines PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new)], DEMO (Rust main.rs), and optionally FEATURES, CAPI."""
import os, shutil, subprocess, sys, json, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = r'''#!/bin/bash
# run in the repository: exits 0 if the behaviour is right
repo=$PWD
here=$(cd "$(dirname "$0")" && pwd)
export CARGO_NET_OFFLINE=true PATH=/root/.cargo/bin:$PATH HOME=/root
rm -rf /tmp/liq-demo-@ID@
mkdir -p /tmp/liq-demo-@ID@/src || exit 9
cp "$here/demo.rs" /tmp/liq-demo-@ID@/src/main.rs
cat > /tmp/liq-demo-@ID@/Cargo.toml <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[profile.release]
debug-assertions = false
[dependencies]
@DEPS@
EOF
cd /tmp/liq-demo-@ID@ || exit 9
if ! @BUILD@ > build.log 2>&1; then cat build.log; cd /; rm -rf /tmp/liq-demo-@ID@; exit 0; fi
timeout 250 @RUN@
rc=$?
cd /
rm -rf /tmp/liq-demo-@ID@
exit $rc
'''
ids = sys.argv[1:] or sorted(f[:-3] for f in os.listdir(V + '/tools/seeds') if f.endswith('.py'))
for i in ids:
    s = runpy.run_path(f'{V}/tools/seeds/{i}.py')
    if os.path.exists('/tmp/mkseed'): shutil.rmtree('/tmp/mkseed')
    subprocess.check_call(['git', 'clone', '-q', '/repo', '/tmp/mkseed'])
    for f, old, new in s['EDITS']:
        p = '/tmp/mkseed/' + f
        t = open(p).read()
        assert t.count(old) == 1, (i, f, t.count(old), old)
        open(p, 'w').write(t.replace(old, new))
    d = f'{V}/seeded/{i}'
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(subprocess.check_output(['git', 'diff'], cwd='/tmp/mkseed', text=True))
    feats = s.get('FEATURES', [])
    deps = 'imagequant = { path = "$repo", default-features = false, features = [%s] }' % ','.join(f'"{x}"' for x in feats)
    if s.get('CAPI'): deps += '\nimagequant-sys = { path = "$repo/imagequant-sys", default-features = false }'
    san = s.get('SAN')
    if san:
        build = f'env RUSTFLAGS=-Zsanitizer={san} cargo +nightly build --release --offline --target x86_64-unknown-linux-gnu --target-dir /tmp/liq-demo-{i}/t' + (' -Zbuild-std' if san == 'thread' else '')
        run = f'/tmp/liq-demo-{i}/t/x86_64-unknown-linux-gnu/release/demo'
    else:
        build = f'cargo build --release --offline --target-dir /tmp/liq-demo-{i}/t'
        run = f'/tmp/liq-demo-{i}/t/release/demo'
    open(d + '/demo.sh', 'w').write(SH.replace('@ID@', i).replace('@DEPS@', deps).replace('@BUILD@', build).replace('@RUN@', run))
    open(d + '/demo.rs', 'w').write(s['DEMO'].lstrip())
    json.dump({'property': s['PROPERTY'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
    shutil.rmtree('/tmp/mkseed')
    print('made', i)
