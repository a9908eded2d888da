"""mkseed(id, prop, edits, demo, needs, breaks): writes seeded/<id> from edits of a clone of /repo (development tool)."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/seedwork'
CRATES = 'common version package solver repository context build cache rex suites bind search package-cache package-filter config release-hook serialise explicit util'.split()
DEMO = r'''#!/bin/bash
# builds demo.rs against /repo's crates and runs it in a scratch directory
H=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
S=$(mktemp -d) || exit 3
trap 'rm -rf "$S"' EXIT
mkdir -p "$S/src" "$S/scratch"
cp "$H/demo.rs" "$S/src/main.rs"
cp /repo/Cargo.lock "$S/Cargo.lock"
cat > "$S/Cargo.toml" <<T
[package]
name = "seed-demo-@ID@"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
@DEPS@
serde_json = "1.0"
tokio = { version = "1.45", features = ["full"] }
T
CARGO_TARGET_DIR=/repo/target/seed-demo cargo build -q --offline --manifest-path "$S/Cargo.toml" || exit 3
cd "$S/scratch" && HOME="$S/scratch" TMPDIR="$S/scratch" timeout 120 /repo/target/seed-demo/debug/seed-demo-@ID@ "$S/scratch"
'''
def mkseed(id, prop, edits, demo, needs, breaks, crates=('version', 'package', 'solver', 'repository', 'common'), sh=None):
    subprocess.run(['git', '-C', W, 'checkout', '-q', '--', '.'], check=True)
    subprocess.run(['git', '-C', W, 'pull', '-q', '--ff-only'], check=True)
    for f, old, new in edits:
        t = open(f'{W}/{f}').read()
        assert t.count(old) == 1, (id, f, t.count(old), old)
        open(f'{W}/{f}', 'w').write(t.replace(old, new))
    d = f'{V}/seeded/{id}'
    os.makedirs(d, exist_ok=True)
    open(f'{d}/patch.diff', 'w').write(subprocess.run(['git', '-C', W, 'diff'], capture_output=True, text=True, check=True).stdout)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(f'{d}/meta.json', 'w'), indent=1)
    if sh: open(f'{d}/demo.sh', 'w').write(sh)
    else:
        deps = '\n'.join(f'rez-next-{c} = {{ path = "/repo/crates/rez-next-{c}" }}' for c in crates)
        open(f'{d}/demo.sh', 'w').write(DEMO.replace('@DEPS@', deps).replace('@ID@', id.lower()))
        open(f'{d}/demo.rs', 'w').write(demo.lstrip())
    subprocess.run(['git', '-C', W, 'checkout', '-q', '--', '.'], check=True)
