#!/usr/bin/env python3
"""seed.py <spec.py>...: makes /verif/seeded/<id>/ from a spec and confirms it in a scratch copy of /repo.
A spec defines: id, prop, file, edits=[(old,new)], needs, breaks, demo (Rust source), kind ('vec2d'|'cart'|'native')."""
import os, sys, subprocess, shutil, json, tempfile, runpy
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = '''#!/bin/bash
# run with cwd at the repository's root
set -e
D="$(cd "$(dirname "$0")" && pwd)"; R="$PWD"
T="$(mktemp -d)"; trap 'rm -r -- "$T"' EXIT
'''
KIND = {
'vec2d': 'rustc --edition 2021 -A warnings -O -C overflow-checks=on --crate-type rlib --crate-name gearley_vec2d -o "$T/libgearley_vec2d.rlib" "$R/gearley-vec2d/src/lib.rs"\nrustc --edition 2021 -A warnings --extern gearley_vec2d="$T/libgearley_vec2d.rlib" -o "$T/demo" "$D/demo.rs"\n"$T/demo"\n',
'cart': 'sed "s#@REPO@#$R#" "$D/demo.rs" > "$T/demo.rs"\nrustc --edition 2021 -A warnings -o "$T/demo" "$T/demo.rs"\n"$T/demo"\n',
'native': 'cp -r "$D/native" "$T/native"\nfind "$T/native" -name Cargo.toml -exec sed -i "s#@REPO@#$R#g" {} +\nmkdir -p "$T/native/demo/src"\nsed "s#@REPO@#$R#g" "$D/demo.rs" > "$T/native/demo/src/main.rs"\nexport CARGO_TARGET_DIR="$T/target" CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings\ncargo build --offline --locked --quiet --manifest-path "$T/native/demo/Cargo.toml"\n"$T/target/debug/demo"\n',
}
def demo_native(o, crates, extra=''):
    """Manifests and stubs to build /repo's crates natively, and a crate `demo`."""
    N = os.path.join(H, 'native')
    for a in ('crates', 'stubs', 'shared'): shutil.copytree(os.path.join(N, a), o + '/' + a, ignore=shutil.ignore_patterns('target', 'Cargo.lock'))
    shutil.copy(N + '/common.rs', o + '/common.rs')
    for dp, _, fs in os.walk(o):
        for f in fs:
            if f == 'Cargo.toml':
                t = open(dp + '/' + f).read(); open(dp + '/' + f, 'w').write(t.replace('/repo', '@REPO@'))
    os.makedirs(o + '/demo/src')
    dep = ''.join(f'{c} = {{ path = "../crates/{c}" }}\n' for c in crates) + ''.join(f'{c} = {{ path = "../stubs/{c}" }}\n' for c in ('cfg-symbol', 'cfg-history', 'bit-matrix')) + extra
    open(o + '/demo/Cargo.toml', 'w').write('[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\n' + dep + 'gearley-vec2d = { path = "@REPO@/gearley-vec2d", default-features = false }\n[profile.dev]\nopt-level = 1\noverflow-checks = true\ndebug-assertions = true\n')
    # lock file
    t = tempfile.mkdtemp(prefix='lock-'); shutil.rmtree(t); shutil.copytree(o, t)
    for dp, _, fs in os.walk(t):
        for f in fs:
            if f == 'Cargo.toml': x = open(dp + '/' + f).read(); open(dp + '/' + f, 'w').write(x.replace('@REPO@', '/repo'))
    open(t + '/demo/src/main.rs', 'w').write('fn main() {}')
    r = sh('cargo generate-lockfile --offline', t + '/demo')
    if r.returncode: print(r.stdout)
    shutil.copy(t + '/demo/Cargo.lock', o + '/demo/Cargo.lock'); shutil.rmtree(t)
def sh(c, cwd, **k): return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def scratch():
    d = tempfile.mkdtemp(prefix='seed-'); shutil.rmtree(d); subprocess.run(['cp', '-a', '/repo', d], check=True); return d
def base_lines(f):
    return set(subprocess.run(['git', '-C', '/repo', 'show', f'ecc6d21:{f}'], stdout=subprocess.PIPE, text=True).stdout.split('\n'))
for spec in sys.argv[1:]:
    s = runpy.run_path(spec); sid = s['id']; out = os.path.join(H, 'seeded', sid)
    d = scratch()
    try:
        edits = s['edits']
        if edits and len(edits[0]) == 2: edits = [(s['file'], a, b) for a, b in edits]
        ok = True
        for f, a, b in edits:
            p = os.path.join(d, f); t = open(p).read()
            if t.count(a) != 1: print(sid, 'edit matches', t.count(a), 'times:', a); ok = False; break
            open(p, 'w').write(t.replace(a, b))
        if not ok: continue
        diff = sh('git diff', d).stdout
        bl = {f: base_lines(f) for f, _, _ in edits}
        cur = None; removed_ok = True
        for l in diff.split('\n'):
            if l.startswith('--- a/'): cur = l[6:]
            elif l.startswith('-') and not l.startswith('---') and l[1:] not in bl.get(cur, ()): removed_ok = False; print(sid, 'line not of the original:', l)
        b = sh('mkdir -p x; for v in 1; do cargo build --offline -q --manifest-path gearley-vec2d/Cargo.toml; done', d) if False else None
        if os.path.isdir(out): shutil.rmtree(out)
        os.makedirs(out)
        open(out + '/patch.diff', 'w').write(diff); open(out + '/demo.sh', 'w').write(PRE + KIND[s['kind']]); os.chmod(out + '/demo.sh', 0o755)
        open(out + '/demo.rs', 'w').write(s['demo'])
        if s['kind'] == 'native': demo_native(out + '/native', s.get('crates', ['gearley-forest', 'gearley-grammar', 'gearley-recognizer', 'compact-bocage', 'simple-bocage']), s.get('extra', ''))
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(out + '/meta.json', 'w'), indent=1)
        r1 = sh(f'bash {out}/demo.sh', '/repo'); r2 = sh(f'bash {out}/demo.sh', d)
        good = r1.returncode == 0 and r2.returncode != 0 and removed_ok
        print(sid, 'OK' if good else 'BAD', 'clean', r1.returncode, 'patched', r2.returncode, '|', r2.stdout.strip()[-150:].replace('\n', ' '))
        if r1.returncode != 0: print(r1.stdout[-1500:])
    finally: shutil.rmtree(d)
