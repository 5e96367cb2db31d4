#!/usr/bin/env python3
"""Make and confirm planted bugs. Usage: bug.py SPEC.py [--noconfirm]
SPEC defines BUGS = [dict(id, property, edits=[(file, old, new[, count])], needs, breaks, main)]"""
import json, os, subprocess, sys, tempfile, shutil
SEED='/verif/seeded'
DEMO='''#!/bin/bash
# Builds the small program beside this script against the crate in the current directory and runs it.
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd)
T=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src"; cp "$D/main.rs" "$T/src/main.rs"
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
fundsp = { path = "$R", default-features = false, features = ["std"@FEAT@] }
[profile.dev]
debug = false
incremental = false
opt-level = 1
EOF
cp "$R/Cargo.lock" "$T/Cargo.lock" 2>/dev/null
cd "$T" && CARGO_TARGET_DIR="$T/target" CARGO_NET_OFFLINE=true cargo build --offline --quiet 2>"$T/err" || { rm -f Cargo.lock; CARGO_TARGET_DIR="$T/target" cargo build --offline --quiet 2>"$T/err" || { cat "$T/err"; exit 99; }; }
timeout 120 "$T/target/debug/demo"
'''
from edits import edit
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
spec={}; exec(open(sys.argv[1]).read(),spec)
only=[a for a in sys.argv[2:] if not a.startswith('--')]
for b in spec['BUGS']:
    if only and b['id'] not in only: continue
    assert sh('git -C /repo status --porcelain').stdout=='' , 'dirty'
    d=f"{SEED}/{b['id']}"; os.makedirs(d,exist_ok=True)
    try:
        for e in b['edits']:
            edit('/repo/',e)
        diff=sh('git -C /repo diff').stdout
    finally: sh('git -C /repo checkout -- .')
    open(d+'/patch.diff','w').write(diff); open(d+'/main.rs','w').write(b['main'])
    open(d+'/demo.sh','w').write(DEMO.replace('@FEAT@',', "files"' if b.get('files') else '')); os.chmod(d+'/demo.sh',0o755)
    json.dump({"property":b['property'],"needs":b['needs'],"what_it_breaks":b['breaks']},open(d+'/meta.json','w'),indent=1)
    if '--noconfirm' in sys.argv: continue
    r0=sh(f'bash {d}/demo.sh',cwd='/repo')
    if r0.returncode!=0: print(b['id'],'DEMO FAILS ON CLEAN',r0.stdout[-800:],r0.stderr[-300:]); continue
    try:
        a=sh(f'git -C /repo apply {d}/patch.diff'); assert a.returncode==0,a.stderr
        r1=sh(f'bash {d}/demo.sh',cwd='/repo')
        t=sh('bash /opt/vp/test.sh /tmp/bugout.json')
        try: o=json.load(open('/tmp/bugout.json')); tests=(len(o['passed']) if isinstance(o['passed'],list) else o['passed'], o['failed'] if not isinstance(o['failed'],list) else o['failed'][:5])
        except Exception as ex: tests=str(ex)+t.stderr[-300:]
        c=sh(f'bash /verif/run.sh {b["property"]} quick',cwd='/verif')
        lines=[l for l in c.stdout.splitlines() if 'VIOLATION' in l or l.startswith('    ')][:3]
        print(b['id'],'demo:',r1.returncode,(r1.stdout+r1.stderr)[-160:].strip().replace('\n',' | '),'tests:',tests,'CHECK rc',c.returncode,lines,flush=True)
    finally: sh('git -C /repo checkout -- .')
