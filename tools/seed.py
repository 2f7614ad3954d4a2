#!/usr/bin/env python3
"""seed.py new ID PROP FILE <<< python-literal list of (old, new)   | seed.py test ID...
Makes and confirms planted bugs, always in a scratch copy of /repo."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
DEMO = """#!/bin/bash
# exit 0: the behaviour is as documented; nonzero: it is not
d=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src"
cp "$d/main.rs" "$w/src/main.rs"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
svgdom = { path = "$repo" }
T
cd "$w" && CARGO_TARGET_DIR="$w/t" timeout 250 cargo run -q --offline
"""


def sh(c, cwd, **k):
    return subprocess.run(c, cwd=cwd, shell=True, capture_output=True, text=True, env=ENV, **k)


def test(i):
    d = os.path.join(V, 'seeded', i)
    w = '/tmp/seed_' + i
    shutil.rmtree(w, ignore_errors=True)
    sh('cp -a /repo ' + w, '/tmp')
    try:
        r0 = sh('bash %s/demo.sh' % d, w)
        a = sh('git apply %s/patch.diff' % d, w)
        if a.returncode: return 'patch does not apply: ' + a.stderr
        sh('touch src/lib.rs', w)
        t = sh('cargo test --workspace --no-fail-fast --offline 2>&1', w)
        npass = sum(int(l.split(' passed')[0].split()[-1]) for l in t.stdout.splitlines() if l.startswith('test result:'))
        nfail = sum(int(l.split(' failed')[0].split()[-1]) for l in t.stdout.splitlines() if l.startswith('test result:'))
        r1 = sh('bash %s/demo.sh' % d, w)
        return 'demo clean=%d patched=%d tests passed=%d failed=%d %s' % (r0.returncode, r1.returncode, npass, nfail,
            'OK' if r0.returncode == 0 and r1.returncode != 0 and nfail == 0 and npass >= 152 else 'BAD\n' + (r0.stderr[-800:] + r1.stderr[-800:] + (t.stdout[-1500:] if nfail or npass < 152 else '')))
    finally:
        shutil.rmtree(w, ignore_errors=True)


def new(i, prop, needs, breaks, edits, demo):
    """edits: [(file, old, new)]"""
    d = os.path.join(V, 'seeded', i)
    os.makedirs(d, exist_ok=True)
    w = '/tmp/seednew_' + i
    shutil.rmtree(w, ignore_errors=True)
    sh('git clone -q /repo ' + w, '/tmp')
    for f, o, n in edits:
        p = os.path.join(w, f)
        s = open(p).read()
        if s.count(o) != 1:
            shutil.rmtree(w)
            raise SystemExit('%s: %d matches for %r in %s' % (i, s.count(o), o, f))
        open(p, 'w').write(s.replace(o, n))
    open(os.path.join(d, 'patch.diff'), 'w').write(sh('git diff', w).stdout)
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
    open(os.path.join(d, 'main.rs'), 'w').write(demo)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    shutil.rmtree(w)
    print(i, test(i))


if __name__ == '__main__':
    if sys.argv[1] == 'test':
        for i in sys.argv[2:] or sorted(os.listdir(os.path.join(V, 'seeded'))):
            print(i, test(i), flush=True)
