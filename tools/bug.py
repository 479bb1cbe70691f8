#!/usr/bin/env python3
"""bug.py SPEC_DIR ID...: turns bug specs into /verif/seeded/<id>/ after confirming them in a scratch copy.
A spec is a python file defining PROPERTY, NEEDS, BREAKS, FEATURES (optional), EDITS [(file, old, new)],
KIND ('lib' or 'ffi'), DEMO (rust main.rs text, PRELUDE is put in front)."""
import sys, os, subprocess, shutil, json, tempfile
PRELUDE = open(os.path.join(os.path.dirname(__file__), 'demo_prelude.rs')).read()
DEMO_SH = r'''#!/bin/bash
# Run with cwd = the repository. Exit 0: behaves as documented; nonzero: the defect shows.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src"
cp "$here/main.rs" "$w/src/main.rs"
cat > "$w/Cargo.toml" <<EOF
@MANIFEST@
EOF
@EXTRA@
cp "$repo/Cargo.lock" "$w/Cargo.lock" 2>/dev/null
export CARGO_TARGET_DIR="$w/target" CARGO_NET_OFFLINE=true
unset RUSTFLAGS
cargo build --offline @PROFILE@ --manifest-path "$w/Cargo.toml" >"$w/log" 2>&1 || { tail -20 "$w/log"; exit 3; }
cd "$w" && timeout 120 "$w/target/@PDIR@/demo"
'''
def manifest(kind, features, deps):
    s = '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2018"\n[workspace]\n[dependencies]\n'
    f = ', features = [%s]' % ', '.join('"%s"' % x for x in features) if features else ''
    s += 'rtbvh = { path = "$repo"%s }\nglam = { version = ">=0.34", features = [%s] }\n' % (f, '"serde"' if 'serde' in features else '')
    if kind == 'ffi':
        s += 'ffi = { path = "$w/ffi" }\n'
    for d in deps: s += d + '\n'
    return s
FFI_EXTRA = r'''mkdir -p "$w/ffi"
cat > "$w/ffi/Cargo.toml" <<EOF
[package]
name = "ffi"
version = "0.1.0"
edition = "2018"
[lib]
path = "$repo/rtbvh_ffi/src/lib.rs"
[dependencies]
rtbvh = { path = "$repo" }
glam = ">=0.34"
lazy_static = "1.4.0"
parking_lot = "0.11"
EOF'''
def sh(cmd, cwd, timeout=600):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
def main():
    spec_dir, ids = sys.argv[1], sys.argv[2:]
    for id in ids:
        ns = {'FEATURES': [], 'DEPS': [], 'KIND': 'lib', 'PROFILE': '--release'}
        exec(open(f'{spec_dir}/{id}.py').read(), ns)
        scratch = '/tmp/bug' + os.environ.get('SLOT', '0')
        repo = scratch + '/repo'
        try:
            if not os.path.exists(repo):
                os.makedirs(scratch); sh(f'cp -a /repo {repo}', '/')
            head = sh('git rev-parse HEAD', '/repo').stdout.strip()
            sh(f'git fetch -q /repo HEAD; git checkout -q -f {head}; git clean -fdq -e target', repo)
            out = f'/tmp/bugs/out/{id}'
            shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
            open(out + '/main.rs', 'w').write(PRELUDE + ns['DEMO'])
            prof = ns['PROFILE']
            d = DEMO_SH.replace('@MANIFEST@', manifest(ns['KIND'], ns['FEATURES'], ns['DEPS'])).replace('@EXTRA@', FFI_EXTRA if ns['KIND'] == 'ffi' else '').replace('@PROFILE@', prof).replace('@PDIR@', 'release' if prof else 'debug')
            open(out + '/demo.sh', 'w').write(d); os.chmod(out + '/demo.sh', 0o755)
            json.dump({'property': ns['PROPERTY'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(out + '/meta.json', 'w'), indent=1)
            r = sh(f'bash {out}/demo.sh', repo)
            if r.returncode != 0:
                print(id, 'DEMO FAILS ON CLEAN', r.returncode, r.stdout[-1500:]); continue
            for f, old, new in ns['EDITS']:
                p = f'{repo}/{f}'; t = open(p).read()
                n = t.count(old)
                if n != 1: print(id, 'EDIT matches', n, f, old[:60]); raise SystemExit(1)
                open(p, 'w').write(t.replace(old, new))
            p = sh('git diff', repo).stdout
            open(out + '/patch.diff', 'w').write(p)
            r = sh(f'bash {out}/demo.sh', repo)
            if r.returncode == 0 or r.returncode == 3:
                print(id, 'DEMO DOES NOT FAIL WITH PATCH', r.returncode, r.stdout[-1500:]); continue
            demo_out = r.stdout[-200:].strip().replace('\n', ' | ')
            # build and stable tests, in the scratch copy
            tests = ''
            ok = True
            for c in ['cargo build --workspace --offline', 'cargo check --lib --features serde --offline', 'cargo test --workspace --no-fail-fast --offline -- --test-threads 8', 'cd rtbvh_ffi && cargo test --no-fail-fast --offline -- --test-threads 8']:
                r = sh('. /opt/vp/env.sh; unset CARGO_TARGET_DIR; ' + c, repo, 900)
                tests += r.stdout
                if 'test' not in c and r.returncode: ok = False; print(id, 'BUILD', r.stdout[-1500:])
            failed = [l for l in tests.splitlines() if l.startswith('test ') and l.rstrip().endswith('FAILED')]
            passed = [l for l in tests.splitlines() if l.startswith('test ') and l.rstrip().endswith('... ok')]
            if not ok or failed or len(passed) < 20:
                print(id, 'TESTS', len(passed), failed); continue
            dst = f'/verif/seeded/{id}'
            shutil.rmtree(dst, ignore_errors=True); shutil.copytree(out, dst)
            print(id, 'OK', len(passed), demo_out, flush=True)
        finally:
            sh('git checkout -q -f HEAD', repo)
main()
