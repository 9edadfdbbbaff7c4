#!/usr/bin/env python3
"""Lays out a crate in build/inner whose root is /repo/src/lib.rs followed by native/inner/inner.rs.

Nothing of /repo is changed or copied except the text of lib.rs: the other source files are symbolic links."""
import os, shutil, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def layout(repo, dest, program=os.path.join(HERE, 'native/inner/inner.rs'), extra=''):
    src = os.path.join(dest, 'src')
    if os.path.isdir(src):
        shutil.rmtree(src)
    os.makedirs(src)
    for e in sorted(os.listdir(os.path.join(repo, 'src'))):
        if e in ('lib.rs', 'main.rs'):
            continue
        os.symlink(os.path.join(repo, 'src', e), os.path.join(src, e))
    root = open(os.path.join(repo, 'src/lib.rs')).read()
    with open(os.path.join(src, 'main.rs'), 'w') as f:
        # inner attributes must come first, doc comments of the root stay in front of them
        f.write(root + '\n#[allow(warnings)]\n#[path = "%s"]\nmod verif_inner;\nfn main() { verif_inner::main() }\n' % program)
    with open(os.path.join(dest, 'Cargo.toml'), 'w') as f:
        f.write('''[package]
name = "inner"
version = "0.1.0"
edition = "2021"
[dependencies]
oracle = { path = "%s/native" }
serde = { version = "1.0.130", features = ["derive"] }
bincode = "1.3.3"
%s
[profile.dev]
opt-level = 2
debug = 1
overflow-checks = true
debug-assertions = true
[workspace]
''' % (HERE, extra))
    lock = os.path.join(HERE, 'native/Cargo.lock')
if __name__ == '__main__':
    layout(sys.argv[1], sys.argv[2])
