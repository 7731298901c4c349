"""Usage: mk.py [ids...]: creates /verif/seeded/<id>, verifies it (build, tests, demo both ways) and runs the check."""
import json, os, subprocess, sys, shutil, tempfile
sys.path.insert(0,"/verif/tools")
from seeds import SEEDS
REPO='/repo'
H=open('/verif/tools/h.rs').read()
CARGO='''[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[workspace]

[dependencies]
redscript = { path = "/repo/core" }
redscript-decompiler = { path = "/repo/decompiler" }
bpaf = "=0.7.10"
'''
DEMO='''#!/usr/bin/env bash
# Exit 0: the property holds for the inputs below; 1: it does not; see src/main.rs.
set -e
here=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=1.77.2 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS=--cap-lints=warn
export PATH="$PATH:/usr/local/bin:/root/.cargo/bin"
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cp -r "$here/demo" "$tmp/demo"
cd "$tmp/demo"
CARGO_TARGET_DIR="$tmp/target" cargo run -q --offline
'''
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def lock():
    s=open('/verif/harness/core/Cargo.lock').read()
    return s.replace('name = "vh-core"','name = "demo"').replace(' "hashbrown 0.14.5",\n "redscript"',' "redscript"')
base=json.load(open('/opt/vp/BASELINE.json'))['stable']; base=set(base if isinstance(base,list) else base.keys())
def main():
    sel=sys.argv[1:]
    for s in SEEDS:
        if sel and s['id'] not in sel: continue
        d=f"/verif/seeded/{s['id']}"
        assert not sh(f'git -C {REPO} status --porcelain').stdout.strip(), 'dirty'
        os.makedirs(d+'/demo/src',exist_ok=True)
        for f,old,new in s['edits']:
            p=f'{REPO}/{f}'; t=open(p).read(); assert t.count(old)==1,(s['id'],f,t.count(old),old); open(p,'w').write(t.replace(old,new))
        open(d+'/patch.diff','w').write(sh(f'git -C {REPO} diff').stdout)
        json.dump({"property":s['prop'],"needs":s['needs'],"what_it_breaks":s['breaks']},open(d+'/meta.json','w'),indent=1)
        open(d+'/demo/Cargo.toml','w').write(CARGO); open(d+'/demo/Cargo.lock','w').write(lock())
        open(d+'/demo/src/main.rs','w').write((H if s.get('h',True) else '')+s['main']); open(d+'/demo.sh','w').write(DEMO); os.chmod(d+'/demo.sh',0o755)
        try:
            b=sh('bash /opt/vp/build.sh'); 
            r=sh('bash /opt/vp/test.sh /tmp/seed-out.json'); o=json.load(open('/tmp/seed-out.json')); ps=set(o['passed']) if isinstance(o['passed'],list) else set(o['passed'].keys())
            bad=sh(f'bash {d}/demo.sh',cwd=REPO)
            checks=s.get('checks',[s['prop']]); res=[]
            for c in checks:
                k=sh(f'cd /verif && python3 check.py {c} quick'); res.append((c,k.returncode,[l for l in k.stdout.splitlines() if 'VIOLATION' in l or l.startswith('  ')][:2], k.stderr[-300:] if k.returncode==2 else ''))
        finally:
            sh(f'git -C {REPO} checkout -- .')
        print(s['id'],'build',b.returncode,'missing',len(base-ps),'demo-with-patch',bad.returncode,(bad.stderr or bad.stdout)[-200:].replace('\n',' ') ,'\n   checks',res,flush=True)
    # clean tree
    for s in SEEDS:
        if sel and s['id'] not in sel: continue
        good=sh(f"bash /verif/seeded/{s['id']}/demo.sh",cwd=REPO)
        print(s['id'],'demo-clean',good.returncode,good.stderr[-600:] if good.returncode else '',flush=True)
main()
