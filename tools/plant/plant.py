import os, subprocess, json, sys, shutil
SEED="/verif/seeded"
GEN='''#!/bin/bash
# exit 0: as declared; anything else: broken
set -e
here=$(cd "$(dirname "$0")" && pwd)
t=/tmp/wayfinder-demo-%(id)s
rm -rf /tmp/wayfinder-demo-%(id)s
mkdir -p $t
export CARGO_TARGET_DIR=$t/target CARGO_INCREMENTAL=0
cargo build --offline --quiet -p wayfinder -p wayfinder-cmd 2>$t/cargo.log || { cat $t/cargo.log; exit 3; }
'''
MATCH=GEN+'''$t/target/debug/wayfinder-cmd "$here/demo.routes" > $t/routes.rs
cp "$here/demo.rs" $t/demo.rs
cd $t
rustc --edition 2018 -A warnings demo.rs -o demo
timeout 60 ./demo
'''
API=GEN+'''cp "$here/demo.rs" $t/demo.rs
cd $t
rustc --edition 2018 -A warnings --extern wayfinder=target/debug/libwayfinder.rlib -L dependency=target/debug/deps demo.rs -o demo
timeout 60 ./demo
'''
def sh(cmd, **k): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def plant(id, prop, edits, kind, files, needs, breaks):
    d=os.path.join(SEED,id); os.makedirs(d,exist_ok=True)
    w="/tmp/plant/work"
    if not os.path.isdir(w):
        sh("cp -a /repo "+w)
    sh("git checkout -q -- . && git clean -fdq && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", cwd=w)
    for f,old,new in edits:
        p=os.path.join(w,f); s=open(p).read()
        assert s.count(old)>=1,(id,f,old)
        assert s.count(old)==1,(id,"ambiguous",f,old,s.count(old))
        open(p,"w").write(s.replace(old,new))
    diff=subprocess.run("git diff",shell=True,cwd=w,stdout=subprocess.PIPE).stdout
    open(d+"/patch.diff","wb").write(diff)
    script=(MATCH if kind=="match" else API if kind=="api" else GEN+kind)%{"id":id}
    open(d+"/demo.sh","w").write(script); os.chmod(d+"/demo.sh",0o755)
    for n,t in files.items(): open(os.path.join(d,n),"w").write(t)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+"/meta.json","w"),indent=1)
    # tests in the copy
    env=dict(os.environ,CARGO_TARGET_DIR=w+"/target",CARGO_INCREMENTAL="1",CARGO_PROFILE_DEV_DEBUG="line-tables-only",RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
    r=sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8",cwd=w,env=env)
    out=r.stdout.decode()
    import re
    ok=sum(int(x) for x in re.findall(r"(\d+) passed",out)); bad=sum(int(x) for x in re.findall(r"(\d+) failed",out))
    a=sh("bash %s/demo.sh"%d,cwd=w); 
    b=sh("bash %s/demo.sh"%d,cwd="/repo")
    good = r.returncode==0 and ok==64 and a.returncode!=0 and b.returncode==0
    print(("OK  " if good else "BAD ")+id, prop, "tests",ok,bad,"demo patched",a.returncode,"clean",b.returncode, flush=True)
    if not good:
        if r.returncode: print(out[-1500:])
        print("patched:",a.stdout.decode()[-800:]); print("clean:",b.stdout.decode()[-1500:])
    else: print("     ", a.stdout.decode().strip().split("\n")[-1][:200] if a.stdout else "")
    shutil.rmtree("/tmp/wayfinder-demo-"+id, ignore_errors=True)
    return good
GENRS="wayfinder/src/gen/gen.rs"; FLAT="wayfinder/src/gen/flat.rs"; TRIE="wayfinder/src/gen/trie.rs"; PARSE="wayfinder/src/parse/mod.rs"
ERR="wayfinder/src/parse/errors.rs"; CORE="wayfinder/src/core/mod.rs"; MAC="wayfinder/src/core/macros.rs"; BUILD="wayfinder/src/build/mod.rs"
