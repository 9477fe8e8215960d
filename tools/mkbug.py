"""mkbug.py <spec.py>...: makes /verif/seeded/<id>/ from specs and confirms each in a scratch copy.
spec: dict id, property, needs, what_it_breaks, edits=[(file, old, new)], main=rust source of the demonstration (exit nonzero on violation)"""
import sys, os, json, subprocess, shutil
S='/tmp/w/seed/repo'
DEMO='''#!/bin/bash
# cwd: the repository. Builds a small program against it and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
venial = { path = "$repo" }
proc-macro2 = { version = "1", features = ["span-locations"] }
quote = "1"
EOF
cd "$d" || exit 3
export CARGO_TARGET_DIR="$d/target"
cargo build --offline -q || exit 3
timeout 60 "$d/target/debug/demo"
'''
def sh(c,cwd=S,**k): return subprocess.run(c,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
if not os.path.exists(S):
    subprocess.run("cp -a /repo %s"%S,shell=True,check=True)
ns={}
for f in sys.argv[1:]: exec(open(f).read(),ns)
for b in ns['BUGS']:
    d='/verif/seeded/'+b['id']
    if os.path.exists(d+'/patch.diff') and not os.environ.get('FORCE'): continue
    sh('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD')
    ok=True
    for (fn,o,n) in b['edits']:
        p=S+'/'+fn; s=open(p).read()
        if s.count(o)!=1: print(b['id'],'edit count',s.count(o),repr(o)[:60]); ok=False; break
        open(p,'w').write(s.replace(o,n))
    if not ok: continue
    os.makedirs(d,exist_ok=True)
    open(d+'/main.rs','w').write(b['main'])
    open(d+'/demo.sh','w').write(DEMO); os.chmod(d+'/demo.sh',0o755)
    json.dump({k:b[k] for k in('property','needs','what_it_breaks')},open(d+'/meta.json','w'),indent=1)
    open(d+'/patch.diff','w').write(sh('git diff').stdout)
    t=sh('cargo test --offline --lib 2>&1 | tail -30')
    passed='test result: ok' in t.stdout
    r1=sh('bash %s/demo.sh'%d)
    sh('git checkout -q -- .')
    r0=sh('bash %s/demo.sh'%d)
    good=passed and r1.returncode not in(0,3) and r0.returncode==0
    print(b['id'],b['property'],'tests',passed,'with',r1.returncode,'without',r0.returncode,'OK' if good else 'BAD')
    if not good:
        print(t.stdout[-600:] if not passed else '', r1.stdout[-800:], r0.stdout[-800:])
        shutil.rmtree(d)
