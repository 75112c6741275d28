#!/usr/bin/env python3
"""tools/plant.py: helper used to create /verif/seeded/<id> from an edit of /repo (left unchanged afterwards)."""
import subprocess,os,json,sys,shutil
def sh(c,**k): return subprocess.run(c,shell=True,text=True,capture_output=True,**k)
CARGO='''[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[workspace]

[dependencies]
tlsn-tls-core = { path = "/repo/crates/tls-core", features = ["serde"] }
%s
[profile.dev]
debug = false
'''
DEMO='''#!/bin/sh
# exit 0: behaves; nonzero: broken
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$t"' EXIT
cp -r "$d/demo" "$t/demo"
CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target" cargo run --offline -q --manifest-path "$t/demo/Cargo.toml"
'''
def plant(id,prop,needs,breaks,edits,main,deps=""):
    d=f'/verif/seeded/{id}'
    os.makedirs(d+'/demo/src',exist_ok=True)
    assert sh('git -C /repo status --porcelain').stdout=='' , 'repo dirty'
    try:
        for f,a,b in edits:
            p=f'/repo/crates/{f}'; s=open(p).read()
            assert s.count(a)==1,(id,f,s.count(a))
            open(p,'w').write(s.replace(a,b))
        open(d+'/patch.diff','w').write(sh('git -C /repo diff').stdout)
    finally:
        sh('git -C /repo checkout -- .')
    open(d+'/demo/Cargo.toml','w').write(CARGO%deps)
    shutil.copy('/verif/records/Cargo.lock',d+'/demo/Cargo.lock')
    open(d+'/demo/src/main.rs','w').write(main)
    open(d+'/demo.sh','w').write(DEMO); os.chmod(d+'/demo.sh',0o755)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
