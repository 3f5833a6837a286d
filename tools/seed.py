#!/usr/bin/env python3
"""Create and confirm planted bugs (dev tool, no check uses it).
usage: seed.py DEFS.py [ID...]   creates /verif/seeded/ID from the definitions, confirms in /tmp/w
       seed.py --catch [ID...]   applies each to /repo, runs its check, restores
"""
import sys, os, json, subprocess, runpy, pathlib, shutil
ROOT = pathlib.Path('/verif/seeded')
W = '/tmp/w'
ENV = dict(os.environ, HOME='/root', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true',
           CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='')
DEMO = '''#!/bin/bash
# builds and runs main.rs against the crate in the current directory
export HOME=/root PATH=/usr/local/bin:/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
cat > "$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
termimad = { path = "$repo" }
%s
T
CARGO_TARGET_DIR="$tmp/target" cargo build --offline -q --manifest-path "$tmp/Cargo.toml" || exit 3
timeout 60 "$tmp/target/debug/demo"
'''
def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def fresh():
    if not os.path.isdir(W):
        r = sh(f'git clone -q /repo {W} && cp /repo/Cargo.lock {W}/ && cp -a /repo/target {W}/target'); assert r.returncode == 0, r.stdout
    r = sh('git fetch -q origin && git reset -q --hard origin/HEAD && git clean -qfd', cwd=W); assert r.returncode == 0, r.stdout
def build(id, d):
    fresh()
    p = ROOT / id
    p.mkdir(parents=True, exist_ok=True)
    for f, old, new in d['edits']:
        fp = pathlib.Path(W) / f
        t = fp.read_text()
        assert t.count(old) == 1, f'{id}: {f}: {t.count(old)} occurrences of {old!r}'
        fp.write_text(t.replace(old, new))
    diff = sh('git diff', cwd=W).stdout
    # blame of removed lines
    orig = mine = 0
    for f in set(e[0] for e in d['edits']):
        for h in sh(f'git diff -U0 -- {f}', cwd=W).stdout.splitlines():
            if h.startswith('@@'):
                a = h.split()[1][1:]
                s, n = (a.split(',') + ['1'])[:2]
                s, n = int(s), int(n)
                if n:
                    for l in sh(f'git blame -l -L {s},+{n} HEAD -- {f}', cwd=W).stdout.splitlines():
                        c = l.split()[0].lstrip('^')[:39]
                        o = sh(f'git merge-base --is-ancestor {c} e5b6345', cwd=W).returncode == 0
                        orig += o; mine += not o
    (p/'patch.diff').write_text(diff)
    (p/'main.rs').write_text(d['demo'])
    (p/'demo.sh').write_text(DEMO % d.get('deps', ''))
    os.chmod(p/'demo.sh', 0o755)
    (p/'meta.json').write_text(json.dumps({'property': d['property'], 'needs': d['needs'], 'what_it_breaks': d['breaks']}, indent=1) + '\n')
    t = sh('cargo test --workspace --no-fail-fast --offline', cwd=W)
    passed = sum(int(l.split(' passed')[0].split()[-1]) for l in t.stdout.splitlines() if l.startswith('test result'))
    okt = t.returncode == 0
    db = sh(f'bash {p}/demo.sh', cwd=W)
    fresh()
    dg = sh(f'bash {p}/demo.sh', cwd=W)
    ok = okt and passed >= 29 and db.returncode not in (0, 3) and dg.returncode == 0 and orig > 0
    print(f'{id}: tests {"ok" if okt else "FAIL"} ({passed}) demo patched={db.returncode} clean={dg.returncode} lines orig={orig} mine={mine} -> {"CONFIRMED" if ok else "REJECTED"}', flush=True)
    if not ok:
        print(t.stdout[-1500:] if not okt else '', 'PATCHED:', db.stdout[-800:], 'CLEAN:', dg.stdout[-800:])
    return ok
def catch(id, tier='quick'):
    m = json.loads((ROOT/id/'meta.json').read_text())
    assert sh('git status --porcelain', cwd='/repo').stdout == ''
    r = sh(f'git apply /verif/seeded/{id}/patch.diff', cwd='/repo')
    if r.returncode: print(id, 'patch fails', r.stdout); return
    try:
        t = sh(f'timeout 900 bash /verif/run.sh {m["property"]} {tier}')
    finally:
        sh('git checkout -- .', cwd='/repo')
    hit = t.returncode == 1 and f'VIOLATION property={m["property"]} ' in t.stdout
    print(f'{id} [{m["property"]}]: {"caught" if hit else "MISSED rc=%d" % t.returncode}', flush=True)
    if hit:
        print('    ' + '\n    '.join(l[:250] for l in t.stdout.splitlines() if 'VIOLATION' in l or 'sig' in l)[:500])
    else:
        print(t.stdout[-600:])
if sys.argv[1] == '--catch':
    for i in (sys.argv[2:] or sorted(x.name for x in ROOT.iterdir())): catch(i)
else:
    defs = runpy.run_path(sys.argv[1])['DEFS']
    for i, d in defs.items():
        if len(sys.argv) <= 2 or i in sys.argv[2:]: build(i, d)
