#!/usr/bin/env python3
"""mkseed.py SPEC.py: makes /verif/seeded/<id>/ from a description, after confirming that it builds, passes the tests
and that the demonstration tells it from the unchanged tree. Development tool; no check uses it."""
import json, os, re, subprocess, sys, shutil
REPO = os.environ.get('REPO', '/repo')
API = '''#!/bin/bash
# exit 0: behaves as it should; nonzero: it does not. Everything happens in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
t=$(mktemp -d) || exit 9
trap '/bin/rm -rf "$t"' EXIT
export CARGO_NET_OFFLINE=true
mkdir "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<E2
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
adhoc_audio = { path = "$repo", default-features = false }
[profile.dev]
opt-level = 2
[workspace]
E2
cd "$t" && cargo build --offline -q --target-dir "$t/target" || exit 8
timeout 120 "$t/target/debug/demo"
'''
INNER = '''#!/bin/bash
# exit 0: behaves as it should; nonzero: it does not. Everything happens in a scratch directory.
# The demonstration is compiled as a module of the crate itself, to reach its private parts.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
t=$(mktemp -d) || exit 9
trap '/bin/rm -rf "$t"' EXIT
export CARGO_NET_OFFLINE=true
mkdir "$t/src"
for f in "$repo"/src/*; do case "$f" in */lib.rs|*/main.rs) ;; *) ln -s "$f" "$t/src/" ;; esac; done
cp "$here/demo.rs" "$t/src/demo_of_change.rs"
{ cat "$repo/src/lib.rs"; echo; echo '#[allow(warnings)] mod demo_of_change; fn main() { demo_of_change::main() }'; } > "$t/src/main.rs"
cat > "$t/Cargo.toml" <<E2
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
serde = { version = "1.0.130", features = ["derive"] }
bincode = "1.3.3"
[profile.dev]
opt-level = 2
[workspace]
E2
cd "$t" && cargo build --offline -q --target-dir "$t/target" 2>"$t/log" || { cat "$t/log"; exit 8; }
timeout 120 "$t/target/debug/demo"
'''
CLI = '''#!/bin/bash
# exit 0: behaves as it should; nonzero: it does not. Everything happens in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
t=$(mktemp -d) || exit 9
trap '/bin/rm -rf "$t"' EXIT
export CARGO_NET_OFFLINE=true
cargo build --offline --locked -q --bin adhoc_audio --target-dir "$t/target" 2>"$t/log" || { cat "$t/log"; exit 8; }
mkdir "$t/files"; cd "$t/files" && timeout 120 python3 "$here/demo.py" "$t/target/debug/adhoc_audio"
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
ns = {}
exec(open(sys.argv[1]).read(), ns)
base = set(l for l in json.load(open('/opt/vp/BASELINE.json')).get('stable', [])) if False else None
for s in ns['SEEDS']:
    if len(sys.argv) > 2 and s['id'] not in sys.argv[2:]: continue
    d = '/verif/seeded/' + s['id']
    os.makedirs(d, exist_ok=True)
    open(d + ('/demo.py' if s.get('cli') else '/demo.rs'), 'w').write(s['demo'])
    open(d + '/demo.sh', 'w').write(CLI if s.get('cli') else INNER if s.get('inner') else API)
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
    assert sh('git -C %s status --short -uno' % REPO).stdout.strip() == ''
    r0 = sh('bash %s/demo.sh' % d, cwd=REPO)
    ok = True
    try:
        for f, a, b in s['edits']:
            p = os.path.join(REPO, f)
            t = open(p).read()
            n = s.get('count', 1)
            if t.count(a) < 1: print(s['id'], 'NOT FOUND', f, a[:60]); ok = False; break
            t = t.replace(a, b, n)
            open(p, 'w').write(t)
        if not ok: continue
        open(d + '/patch.diff', 'w').write(sh('git -C %s diff' % REPO).stdout)
        if REPO == '/repo':
            bl = sh('bash /opt/vp/build.sh', cwd=REPO)
            ts = sh('bash /opt/vp/test.sh /tmp/seedtest.json', cwd=REPO)
        else:   # a copy: its unit tests
            bl = sh('CARGO_NET_OFFLINE=true cargo build --offline --locked', cwd=REPO)
            ts = sh('CARGO_NET_OFFLINE=true cargo test --offline --locked --lib', cwd=REPO)
            json.dump({} if ' 21 passed; 0 failed' not in ts.stdout else json.load(open('/opt/vp/BASELINE.json')), open('/tmp/seedtest.json', 'w'))
        r1 = sh('bash %s/demo.sh' % d, cwd=REPO)
        res = json.load(open('/tmp/seedtest.json'))
    finally:
        sh('git -C %s checkout -- .' % REPO)
    stable = json.load(open('/opt/vp/BASELINE.json'))
    def names(x):
        if isinstance(x, dict):
            for k in ('stable', 'passed', 'pass', 'stable_pass', 'tests'):
                if k in x: return names(x[k])
            return {k for k, v in x.items() if v in (True, 'pass', 'passed', 'ok')}
        return {i if isinstance(i, str) else i.get('name') or i.get('id') for i in x}
    missing = names(stable) - names(res)
    print(s['id'], 'unchanged:', r0.returncode, 'patched:', r1.returncode, 'build:', bl.returncode, 'tests missing:', sorted(missing)[:3], '' if r0.returncode == 0 and r1.returncode not in (0, 8, 9) and not missing and bl.returncode == 0 else '   <=== BAD ' + r0.stdout[-300:] + r1.stdout[-300:])
