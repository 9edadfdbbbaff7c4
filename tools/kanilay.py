#!/usr/bin/env python3
"""Lays out build/kani: /repo's source files with the harness modules of /verif/kani appended to them."""
import os, re, shutil, sys, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# harness module -> source file it is appended to
PLACES = {'codec': 'codec.rs', 'parabola': 'math/parabola.rs', 'frame': 'codec/adhoc/frame.rs', 'adhoc': 'codec/adhoc.rs', 'wav': 'codec/wav.rs'}
OUTLINED = [  # (file, function, prefix of the statement or expression, name of the include)
]
def layout(repo, dest, skip=()):
    src = os.path.join(dest, 'src')
    if os.path.isdir(src):
        shutil.rmtree(src)
    shutil.copytree(os.path.join(repo, 'src'), src)
    lost = []
    mods = [m for m in PLACES if os.path.exists(os.path.join(HERE, 'kani', m + '.rs')) and m not in skip]
    for f, key, prefix, name, mod in OUTLINED:
        if mod not in mods: continue
        r = subprocess.run([os.path.join(HERE, 'tools/vx/target/debug/vx'), '--repo', repo, '--outlined', f, key, prefix], capture_output=True, text=True)
        if r.returncode != 0:
            lost.append(mod); mods.remove(mod)
        else:
            open(os.path.join(dest, name + '.in'), 'w').write(r.stdout)
    for m in list(mods):
        p = os.path.join(src, PLACES[m])
        if not os.path.exists(p):
            lost.append(m); continue
        # function contracts go in front of the functions, as attributes that only Kani sees
        text = open(p).read()
        for name, attr in re.findall(r'^//@ contract (\w+): (.*)$', open(os.path.join(HERE, 'kani', m + '.rs')).read(), re.M):
            f = re.search(r'^[ \t]*(pub(\([^)]*\))? )?fn %s\b[^(]*\(([^)]*)\)' % name, text, re.M)
            if not f:
                lost.append(m); break
            for i, q in enumerate(x.split(':')[0].replace('mut ', '').strip() for x in f.group(3).split(',')):
                attr = attr.replace('{%d}' % i, q)
            text = text[:f.start()] + '#[cfg_attr(kani, %s)]\n' % attr + text[f.start():]
        if m in lost: continue
        open(p, 'w').write(text)
        with open(p, 'a') as f:
            f.write('\n#[cfg(kani)]\n#[path = "%s/kani/%s.rs"]\nmod verif_kani_%s;\n' % (HERE, m, m))
    if os.path.exists(os.path.join(src, 'main.rs')):
        os.remove(os.path.join(src, 'main.rs'))
    open(os.path.join(dest, 'Cargo.toml'), 'w').write('''[package]
name = "leafs"
version = "0.1.0"
edition = "2021"
[dependencies]
serde = { version = "1.0.130", features = ["derive"] }
bincode = "1.3.3"
[workspace]
''')
    return lost
if __name__ == '__main__':
    print(layout(sys.argv[1], sys.argv[2]))
