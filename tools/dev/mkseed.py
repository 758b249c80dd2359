import os,subprocess,json,shutil,sys
W='/tmp/seedwt'
def wt():
    if not os.path.isdir(W): subprocess.check_call(['git','clone','-q','/repo',W])
    subprocess.check_call(['git','-C',W,'fetch','-q','origin']); subprocess.check_call(['git','-C',W,'reset','-q','--hard','origin/HEAD'])
DEMO='''#!/bin/bash
# Run in the repository's root after its build.
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
tmp="$(mktemp -d)"; trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src" "$tmp/data"; cp "$here/main.rs" "$tmp/src/main.rs"
sed "s#@REPO@#$repo#" "$here/manifest.in" > "$tmp/Cargo.toml"
cp /opt/vp/ws/Cargo.lock "$tmp/"
cd "$tmp" || exit 99
unset CARGO_TARGET_DIR RUSTFLAGS RUSTC_WRAPPER
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable
cargo build -q --offline || exit 98
timeout 120 "$tmp/target/debug/demo" "$tmp/data"
'''
def seed(id,prop,needs,breaks,edits,main,deps,extra={},demo=DEMO):
    wt()
    for f,a,b in edits:
        p=f'{W}/{f}'; s=open(p).read(); assert s.count(a)==1,(id,f,s.count(a)); open(p,'w').write(s.replace(a,b))
    d=f'/verif/seeded/{id}'; os.makedirs(d,exist_ok=True)
    open(f'{d}/patch.diff','w').write(subprocess.check_output(['git','-C',W,'diff']).decode())
    open(f'{d}/demo.sh','w').write(demo); os.chmod(f'{d}/demo.sh',0o755)
    open(f'{d}/main.rs','w').write(main)
    m='[package]\nname = "demo"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[dependencies]\n'+''.join(f'{k} = {v}\n' for k,v in deps.items())
    open(f'{d}/manifest.in','w').write(m)
    for k,v in extra.items():
        os.makedirs(os.path.dirname(f'{d}/{k}'),exist_ok=True); open(f'{d}/{k}','w').write(v)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(f'{d}/meta.json','w'),indent=1)
    # blame: changed lines must be original
    print(id,'ok')
FR={'fraos':'{ path = "@REPO@/fraos" }'}
IL={'indexed-log-map':'{ path = "@REPO@/indexed-log-map" }','serde':'"1"'}
MV={'multiverse':'{ path = "@REPO@/multiverse" }','dcspark-core':'{ path = "@REPO@/core" }','serde':'{ version = "1", features = ["derive"] }'}
