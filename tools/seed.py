#!/usr/bin/env python3
"""Seeded-change workshop (never used by a check).
  mk(id, prop, edits, deps, demo_rs, needs, breaks)  creates seeded/<id>/ from exact-once text edits of /repo's HEAD
  try_(id): patched: builds, baseline passes, demo fails, check's verdict; clean: demo passes
"""
import json, os, subprocess, sys, re
V="/verif"; R="/repo"
DEMO='''#!/bin/bash
# exit 0: the property holds on this input; non-zero: it does not.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
unset RUSTFLAGS
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"; cp "$here/demo.rs" "$d/src/main.rs"
printf '%s\\n' "$(cat "$here/deps.txt")" > "$d/Cargo.toml"
[ -f "$here/Cargo.lock.txt" ] && cp "$here/Cargo.lock.txt" "$d/Cargo.lock"
cd "$d" && CARGO_TARGET_DIR="$d/t" cargo run --offline --quiet
'''
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def mk(id,prop,edits,deps,demo,needs,breaks):
    d=f"{V}/seeded/{id}"; os.makedirs(d,exist_ok=True)
    assert sh("git -C /repo status --porcelain").stdout=="" 
    for f,o,n in edits:
        p=f"{R}/{f}"; t=open(p).read()
        if t.count(o)!=1:
            sh("git -C /repo checkout -- ."); raise SystemExit(f"{id}: {f}: {t.count(o)} matches of {o!r}")
        open(p,"w").write(t.replace(o,n))
    open(d+"/patch.diff","w").write(sh("git -C /repo diff").stdout)
    sh("git -C /repo checkout -- .")
    toml='[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\n'
    for x in deps.split():
        if x.startswith("sip-identity"): toml+='sip-identity = { path = "/repo/crates/sip-identity", features = ["sign"] }\n'
        elif x.startswith("sip-"): toml+=f'{x} = {{ path = "/repo/crates/{x}" }}\n'
        elif x=="tokio": toml+='tokio = { version = "1", features = ["full", "test-util"] }\n'
        else: toml+=x.replace("@",' = "')+'"\n'
    open(d+"/deps.txt","w").write(toml+'[profile.dev]\ndebug = 0\noverflow-checks = true\n')
    open(d+"/demo.rs","w").write(demo)
    open(d+"/demo.sh","w").write(DEMO); os.chmod(d+"/demo.sh",0o755)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+"/meta.json","w"),indent=1)
def try_(id,test=True):
    d=f"{V}/seeded/{id}"; prop=json.load(open(d+"/meta.json"))["property"]
    assert sh("git -C /repo status --porcelain").stdout=="" 
    r={}
    c=sh(f"bash {d}/demo.sh",cwd=R); r["clean_demo"]=c.returncode
    if c.returncode: print(c.stdout[-1500:],c.stderr[-2500:])
    a=sh(f"git -C /repo apply {d}/patch.diff"); assert a.returncode==0,a.stderr
    try:
        if test:
            b=sh("bash /opt/vp/build.sh"); r["build"]=b.returncode
            if b.returncode: print(b.stderr[-3000:])
            sh("bash /opt/vp/test.sh /tmp/t.json")
            base=json.load(open("/opt/vp/BASELINE.json")); t=json.load(open("/tmp/t.json"))
            r["test"]=summ(base,t)
        c=sh(f"bash {d}/demo.sh",cwd=R); r["bug_demo"]=c.returncode; r["demo_msg"]=(c.stdout+c.stderr)[-300:]
        c=sh(f"VERIF_SEED=1 VERIF_TIER=quick ./check.sh {prop}",cwd=V); r["check"]=c.returncode
        r["out"]=[l[:400] for l in (c.stdout+c.stderr).splitlines()][-6:]
    finally:
        sh("git -C /repo checkout -- .")
    print(id,json.dumps(r,indent=0))
    return r
def summ(base,t):
    if isinstance(t,dict):
        p=t.get("passed"); f=t.get("failed")
        return f"passed {len(p) if hasattr(p,'__len__') else p} failed {f if not hasattr(f,'__len__') or len(f)<6 else len(f)}"
if __name__=="__main__":
    for i in sys.argv[1:]: try_(i)
