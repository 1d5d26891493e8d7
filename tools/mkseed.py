#!/usr/bin/env python3
"""mkseed.py SPEC.py : make /verif/seeded/<id> from a spec defining
id, prop, needs, breaks, edits=[(file, old, new)], main (Rust source of the demo), files=[paths]
and try the demonstration on a scratch copy with and without the change."""
import sys, os, subprocess, json, shutil
spec={}; exec(open(sys.argv[1]).read(),spec)
S=spec
d='/verif/seeded/'+S['id']; os.makedirs(d,exist_ok=True)
scratch='/tmp/seedrepo'
if not os.path.isdir(scratch):
    subprocess.check_call(['git','clone','-q','/repo',scratch])
else:
    subprocess.check_call(['git','-C',scratch,'fetch','-q','origin'])
    subprocess.check_call(['git','-C',scratch,'checkout','-q','-f','origin/HEAD'])
for f,a,b in S['edits']:
    p=scratch+'/'+f; s=open(p).read()
    if s.count(a)!=1: sys.exit(f'{f}: {s.count(a)} matches of {a!r}')
    # must touch original lines
    open(p,'w').write(s.replace(a,b))
diff=subprocess.check_output(['git','-C',scratch,'diff']).decode()
# the removed lines must be original ones
orig=subprocess.check_output(['git','-C',scratch,'rev-list','--max-parents=0','HEAD']).decode().strip()
base='bed9af8'
for f,a,b in S['edits']:
    o=subprocess.check_output(['git','-C',scratch,'show',f'{base}:{f}']).decode()
    rem=[l[1:] for l in subprocess.check_output(['git','-C',scratch,'diff','--',f]).decode().split('\n') if l.startswith('-') and not l.startswith('---')]
    miss=[l for l in rem if l not in o.split('\n')]
    if miss: print('WARNING: not original lines:',miss)
    if not rem: print('note: only adds lines',f)
open(d+'/patch.diff','w').write(diff)
json.dump({'property':S['prop'],'needs':S['needs'],'what_it_breaks':S['breaks']},open(d+'/meta.json','w'),indent=1)
open(d+'/main.rs','w').write(S['main'])
shutil.copy('/tmp/seedlock',d+'/Cargo.lock')
for f in S.get('files',[]): shutil.copy(f,d)
open(d+'/demo.sh','w').write('''#!/bin/bash
# Builds main.rs against the library in the current directory and runs it.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -r "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$here/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
libopenraw = { path = "$repo" }
[profile.dev]
debug = false
[workspace]
T
cd "$d"
CARGO_NET_OFFLINE=true RUSTFLAGS="--cfg libopenraw_verif -Awarnings" CARGO_TARGET_DIR="$d/target" cargo build -q --offline
timeout 120 "$d/target/debug/demo" "$here"
''')
os.chmod(d+'/demo.sh',0o755)
# use a cached target dir for the local trial
def trial(label):
    t=subprocess.run(['bash','-c',f'set -e; d=/tmp/seeddemo; mkdir -p $d/src; cp {d}/main.rs $d/src/; cp /tmp/seedlock $d/Cargo.lock; printf \'[package]\\nname="demo"\\nversion="0.1.0"\\nedition="2021"\\n[dependencies]\\nlibopenraw={{path="{scratch}"}}\\n[profile.dev]\\ndebug=false\\n[workspace]\\n\' > $d/Cargo.toml; cd $d; RUSTFLAGS="--cfg libopenraw_verif -Awarnings" cargo build -q --offline && timeout 120 target/debug/demo {d}'],capture_output=True,text=True)
    print(label,t.returncode,(t.stdout+t.stderr)[-600:])
    return t.returncode
bad=trial('with change:')
subprocess.check_call(['git','-C',scratch,'checkout','-q','--','.'])
good=trial('unchanged:')
print('OK' if bad!=0 and good==0 else 'NOT OK')
