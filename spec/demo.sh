#!/bin/bash
# Builds demo.rs against the crate in the current directory and runs it: exit 0 iff the property's demonstration holds.
D="$(cd "$(dirname "$0")" && pwd)"; R="$PWD"
exec python3 - "$D" "$R" <<'P'
import sys, os, shutil, subprocess, tempfile
D, R = sys.argv[1:3]
with tempfile.TemporaryDirectory() as T:
    os.mkdir(T + '/src'); os.mkdir(T + '/work')
    shutil.copy(D + '/demo.rs', T + '/src/main.rs')
    shutil.copy(R + '/Cargo.lock', T + '/Cargo.lock')
    with open(T + '/Cargo.toml', 'w') as f:
        f.write('[package]\nname = "demo"\nversion = "0.1.0"\n[workspace]\n[dependencies]\nrust_graph = { path = "%s", features = ["ldbc"] }\nfnv = "1"\nitertools = "0.7"\ncsv = "1"\ncounter = "0.4"\nserde = "1"\nbincode = "1"\nindexmap = "1"\nrand = "0.5"\n' % R)
    env = dict(os.environ, CARGO_TARGET_DIR=os.environ.get('DEMO_TARGET') or T + '/target', RUSTFLAGS='-Awarnings')
    r = subprocess.run(['cargo', 'build', '--offline', '-q'], cwd=T, env=env)
    if r.returncode: sys.exit(3)
    r = subprocess.run([env['CARGO_TARGET_DIR'] + '/debug/demo'], cwd=T + '/work', timeout=120)
    sys.exit(1 if r.returncode else 0)
P
