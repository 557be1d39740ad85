#!/usr/bin/env python3
"""plant.py SPEC..: make /verif/seeded/<id> from python specs (dev tool).
A spec defines ID, PROP, NEEDS, BREAKS, EDITS [(file, old, new)], DEMO (rust) or FILES, and optionally DEPS, FLAGS."""
import sys, subprocess, os, json, runpy
T = '''#!/bin/bash
# Exits 0 if the behaviour is right, nonzero if it is broken. Runs in the repository.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
repo=$PWD
w=$(mktemp -d) || exit 99
trap '/bin/rm -rf "$w"' EXIT
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.70.0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$w/target RUSTC_WRAPPER=
unset HEADERS_TO_STDOUT
mkdir -p "$w/src" && cp "$here/demo.rs" "$w/src/main.rs" && cp Cargo.lock "$w/" || exit 99
cat > "$w/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
tp_client = { path = "$repo/client/rust"@FEAT@ }
arena = { path = "$repo/crates/datastructures/arena" }
@DEPS@[profile.dev]
debug = 0
@PROFILE@[workspace]
END
cd "$w" || exit 99
RUSTFLAGS="--cfg tp_sim" cargo build --offline -q || exit 99
timeout 100 ./target/debug/demo
'''
for f in sys.argv[1:]:
    s = runpy.run_path(f)
    d = '/verif/seeded/' + s['ID']
    os.makedirs(d, exist_ok=True)
    for fn, old, new in s['EDITS']:
        p = '/repo/' + fn
        t = open(p).read()
        assert t.count(old) == 1, (fn, old, t.count(old))
        open(p, 'w').write(t.replace(old, new))
    diff = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout
    subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'], check=True)
    open(d + '/patch.diff', 'w').write(diff)
    if 'SH' in s:
        open(d + '/demo.sh', 'w').write(s['SH'])
    else:
        open(d + '/demo.sh', 'w').write(T.replace('@DEPS@', s.get('DEPS', '')).replace('@PROFILE@', s.get('PROFILE', '')).replace('@FEAT@', s.get('FEAT', '')))
    if 'DEMO' in s:
        open(d + '/demo.rs', 'w').write(s['DEMO'])
    for n, t in s.get('FILES', {}).items():
        open(d + '/' + n, 'w').write(t)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['PROP'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
    print(s['ID'], len(diff.splitlines()), 'lines of patch')
