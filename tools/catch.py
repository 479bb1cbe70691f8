#!/usr/bin/env python3
"""catch.py [-a] [-s SEED] [ID...]: runs the harness (a snapshot of the working tree) against planted bugs in a
scratch copy of the repository, and records in tools/caught.json which checks report each.
-a: run every property's check, not just the bug's own. Nothing in /repo is touched."""
import sys, os, subprocess, json, time, shutil
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
allp = '-a' in args
if allp: args.remove('-a')
seed = '1'
if '-s' in args:
    i = args.index('-s'); seed = args[i + 1]; del args[i:i + 2]
ids = args or sorted(os.listdir(root + '/seeded'))
ids = [i for i in ids if os.path.exists(f'{root}/seeded/{i}/meta.json')]
W = '/tmp/cv'
def sh(c, t=1800):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
os.makedirs(W, exist_ok=True)
sh(f'mkdir -p {W}/verif; rsync -a --delete --exclude target --exclude work --exclude .git --exclude seeded --exclude evidence --exclude replays {root}/ {W}/verif/ || (cd {root} && cp -a harness ffi_shim check.sh properties.jsonl known-findings.json corpus {W}/verif/)')
if not os.path.exists(W + '/repo'): sh(f'git clone -q /repo {W}/repo; cp /repo/Cargo.lock {W}/repo/ 2>/dev/null')
sh(f'cd {W}/repo && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD')
r = sh(f"cd {W}/verif && sed -i 's#\"/repo#\"{W}/repo#g' harness/Cargo.toml ffi_shim/Cargo.toml && grep -l 'repo' ffi_shim/*.toml ffi_shim/src/* 2>/dev/null; sed -i 's#/repo/rtbvh_ffi#{W}/repo/rtbvh_ffi#' ffi_shim/src/*.rs ffi_shim/build.rs 2>/dev/null")
cj = root + '/tools/caught.json'
caught = json.load(open(cj)) if os.path.exists(cj) else {}
props = [json.loads(l)['id'] for l in open(root + '/properties.jsonl')]
for id in ids:
    d = f'{root}/seeded/{id}'; prop = json.load(open(d + '/meta.json'))['property']
    sh(f'cd {W}/repo && git checkout -q -f HEAD')
    r = sh(f'cd {W}/repo && git apply {d}/patch.diff')
    if r.returncode: print(id, 'DOES NOT APPLY', r.stdout); continue
    b = sh(f'{W}/verif/check.sh build')
    if b.returncode: print(id, 'BUILD', b.stdout[-800:]); continue
    res, got = [], []
    for p in (props if allp else [prop]):
        t = time.time(); r = sh(f'VERIF_SEED={seed} timeout 900 {W}/verif/check.sh {p}')
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        if r.returncode == 1 and v: got.append(p)
        if not allp: res.append(f'{p} rc={r.returncode} {time.time()-t:.0f}s {r.stdout.splitlines()[0][:140] if r.stdout else ""}')
        elif r.returncode not in (0, 1): res.append(f'{p}({r.returncode})')
    old = [x for x in caught.get(id, []) if allp is False and x != prop]
    caught[id] = sorted(set(got) | set(old))
    json.dump(caught, open(cj, 'w'), indent=0, sort_keys=True)
    print(id, prop, 'CAUGHT' if prop in got else 'MISSED', ' '.join(got if allp else res), flush=True)
sh(f'cd {W}/repo && git checkout -q -f HEAD')
