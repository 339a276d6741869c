#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from tools/plants/<id>.py (a dict P) against /repo's HEAD; touches no file of /repo.
A plant: property, needs, breaks, edits [(file, old, new[, nth])], crates, main (a Rust program)."""
import sys, os, subprocess, tempfile, json, shutil
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Builds main.rs against the crates of the working directory: exit 0 when the behaviour it shows is right.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_HUSKY_DONT_INSTALL_HOOKS=1 CARGO_INCREMENTAL=0
d=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[profile.dev]
debug = false
[dependencies]
%sT
cd "$d" && cargo run -q --offline --target-dir "$d/target"
'''
def plant(name, P):
    d = tempfile.mkdtemp(prefix='plant.')
    try:
        files = sorted({e[0] for e in P['edits']})
        a, b = os.path.join(d, 'a'), os.path.join(d, 'b')
        for f in files:
            t = subprocess.run(['git', '-C', '/repo', 'show', 'HEAD:' + f], capture_output=True, check=True).stdout.decode()
            u = t
            for e in P['edits']:
                if e[0] != f: continue
                old, new = e[1], e[2]
                assert u.count(old) >= 1, (f, old)
                if len(e) > 3:
                    i = -1
                    for _ in range(e[3]): i = u.index(old, i + 1)
                    u = u[:i] + new + u[i + len(old):]
                else:
                    assert u.count(old) == 1, (f, u.count(old), old)
                    u = u.replace(old, new)
            for r, x in ((a, t), (b, u)):
                p = os.path.join(r, f); os.makedirs(os.path.dirname(p), exist_ok=True); open(p, 'w').write(x)
        diff = subprocess.run(['diff', '-ruN', 'a', 'b'], cwd=d, capture_output=True).stdout.decode()
        diff = '\n'.join(l for l in diff.split('\n') if not l.startswith('diff -ruN'))
        out = os.path.join(here, 'seeded', name); os.makedirs(out, exist_ok=True)
        open(os.path.join(out, 'patch.diff'), 'w').write(diff)
        deps = ''.join('%s = { path = "$repo/%s" }\n' % (c, c.replace('_', '-')) if not isinstance(c, tuple) else '%s = %s\n' % c for c in P['crates'])
        open(os.path.join(out, 'demo.sh'), 'w').write(DEMO % deps); os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        open(os.path.join(out, 'main.rs'), 'w').write(P['main'])
        json.dump({'property': P['property'], 'needs': P['needs'], 'what_it_breaks': P['breaks']}, open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        assert subprocess.run(['git', '-C', '/repo', 'apply', '--check', os.path.join(out, 'patch.diff')]).returncode == 0, name
    finally:
        shutil.rmtree(d)
if __name__ == '__main__':
    for f in sys.argv[1:]:
        ns = {}; exec(open(f).read(), ns)
        for n, P in ns['PLANTS'].items(): plant(n, P); print(n)
