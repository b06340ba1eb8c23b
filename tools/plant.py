"""mk(id, prop, edits=[(file, old, new)], demo=(kind, text), needs, breaks)"""
import os, subprocess, json, sys
SEED="/verif/seeded"
REPO=os.environ.get("PLANT_REPO","/repo")   # a copy of /repo can be used while /repo is busy
HEAD='''#!/bin/bash
# exit 0: the property holds; nonzero: broken
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/opt/veriftools/go1.24.13/bin:/root/.cargo/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CARGO_NET_OFFLINE=true
repo=$PWD
T=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$T"' EXIT
'''
GO=HEAD+'''echo '{"Replace":{"'$repo'/%(dir)szz_demo_test.go":"'$here'/demo_test.go.txt"}}' > $T/o.json
cd $repo/%(dir)s && go test -vet=off %(flags)s -overlay $T/o.json -run '^TestDemo$' -count=1 .
'''
TS=HEAD+'''/opt/veriftools/node/node_modules/.bin/esbuild $repo/index.ts --bundle --format=esm --platform=neutral --outfile=$T/polyglot.mjs '--tsconfig-raw={"compilerOptions":{"target":"es2020"}}' --log-level=warning || exit 3
cp $here/demo.mjs.txt $T/demo.mjs && node $T/demo.mjs
'''
RS=HEAD+'''mkdir -p $T/src $T/lib && cp $here/demo.rs.txt $T/src/main.rs && cp $here/Cargo.lock.txt $T/Cargo.lock
sed -e '/^num_enum[ =]/d' -e "s|^path = \\"lib.rs\\"|path = \\"$repo/lib.rs\\"|" $repo/Cargo.toml > $T/lib/Cargo.toml
printf '[package]\\nname="demo"\\nversion="0.1.0"\\nedition="2021"\\n[dependencies]\\npolyglot_rs={path="lib"}\\n' > $T/Cargo.toml
cd $T && CARGO_TARGET_DIR=$T/target cargo run --offline -q
'''
C=HEAD+'''cp -r $repo/c_bindings $T/c_bindings 2>/dev/null; rm -rf "$T/c_bindings/target"
mkdir -p $T/p && cp $repo/Cargo.toml $repo/*.rs $T/ 
sed -i -e '/^num_enum[ =]/d' $T/Cargo.toml
(cd $T/c_bindings && CARGO_TARGET_DIR=$T/target cargo build --offline -q) || exit 3
gcc -g -I$repo -I$here -o $T/demo -x c $here/demo.c.txt -L$T/target/debug -lpolyglot -Wl,-rpath,$T/target/debug || exit 3
%(run)s
'''
def sh(c, cwd=REPO): return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True)
def mk(id, prop, edits, demo, needs, breaks, **kw):
    d=f"{SEED}/{id}"; os.makedirs(d, exist_ok=True)
    assert sh("git status --porcelain").stdout=="", "repo dirty"
    try:
        for f,o,n in edits:
            p=REPO+"/"+f; s=open(p).read(); 
            assert s.count(o)==1, (id,f,o,s.count(o))
            open(p,"w").write(s.replace(o,n))
        open(d+"/patch.diff","w").write(sh("git diff").stdout)
        k,text=demo
        if k in("go","go2"):
            dd={"go":"","go2":"v2/"}[k] if "dir" not in kw else kw["dir"]
            open(d+"/demo_test.go.txt","w").write(text); s=GO%{"dir":dd,"flags":kw.get("flags","")}
        elif k=="ts": open(d+"/demo.mjs.txt","w").write(text); s=TS
        elif k=="rs":
            open(d+"/demo.rs.txt","w").write(text); s=RS
            L=open("/verif/harness/rust/Cargo.lock").read().replace('name = "codec_rs"','name = "demo"')
            open(d+"/Cargo.lock.txt","w").write(L)
        elif k=="c": open(d+"/demo.c.txt","w").write(text); s=C%{"run":kw.get("run","$T/demo")}
        elif k=="sh":
            s=HEAD+text
            for fn,t in kw.get("files",{}).items(): open(d+"/"+fn,"w").write(t)
        open(d+"/demo.sh","w").write(s); os.chmod(d+"/demo.sh",0o755)
        json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+"/meta.json","w"),indent=1)
        r=sh("bash /tmp/t.sh" if REPO=="/repo" else "go build ./... && go test -vet=off -count=1 -parallel 1 ./... && cd v2 && go build ./... && go test -vet=off -count=1 -parallel 1 ./... 2>&1 | tail -3"); print(id,"tests:",r.stdout.strip()[-200:])
        r=sh(f"bash {d}/demo.sh"); print(id,"demo with bug:",r.returncode,(r.stdout+r.stderr)[-300:])
        c=subprocess.run(f"python3 check.py {prop}",shell=True,cwd=os.environ.get("PLANT_VERIF","/verif"),env=dict(os.environ,VERIF_REPO=REPO),capture_output=True,text=True)
        print(id,"CHECK",c.returncode,c.stdout[:400],c.stderr[-600:])
    finally:
        sh("git checkout -- .")
    r=sh(("bash /opt/vp/build.sh >/dev/null 2>&1; " if REPO=="/repo" else "")+"bash "+d+"/demo.sh"); print(id,"demo clean:",r.returncode,(r.stdout+r.stderr)[-400:] if r.returncode else "")
    print("git:",sh("git status --porcelain").stdout)

def gen(id, prop, edits, schema, test, needs, breaks, v="v2", flags=""):
    """A bug in a code generator.  The demonstration generates and compiles the code of a schema
    (given to the same small tool the checks use) and runs a Go test in the generated package."""
    tool=open("/verif/harness/gen/gentool/main.go").read()
    sub={"v1":".","v2":"v2"}[v]; lib="github.com/loopholelabs/polyglot"+("/v2" if v=="v2" else "")
    text='''mkdir -p $T/gentool $T/gen/p
cp $here/gentool.go.txt $T/gentool/main.go
echo '{"Replace":{"'$repo'/zzgentool/main.go":"'$T/gentool/main.go'"}}' > $T/o.json
(cd $repo/v2 && echo '{"Replace":{"'$repo'/v2/zzgentool/main.go":"'$T/gentool/main.go'"}}' > $T/o.json && go build -mod=readonly -overlay $T/o.json -o $T/gentool.bin ./zzgentool) || exit 3
(cd $repo/%s && go build -mod=readonly -o $T/plugin ./protoc-gen-go-polyglot) || exit 3
$T/gentool.bin $T/plugin $T/gen < $here/schema.json > $T/result || exit 3
cat $T/result
grep -q '"ok":true,"same":true' $T/result || exit 1
grep -q '"ok":false\\|"same":false' $T/result && exit 1
cp $here/demo_test.go.txt $T/gen/p/demo_test.go
cp $repo/%s/go.sum $T/gen/go.sum
printf 'module gen\\ngo 1.20\\nrequire %s %s\\nreplace %s => %%s\\n' $repo/%s > $T/gen/go.mod
cd $T/gen && go test -mod=mod -vet=off %s -run '^TestDemo$' -count=1 ./p
'''%(sub,sub,lib,"v2.0.0" if v=="v2" else "v0.0.0",lib,sub,flags)
    mk(id,prop,edits,("sh",text),needs,breaks,files={"gentool.go.txt":tool,"schema.json":"".join(json.dumps(s)+"\n" for s in (schema if isinstance(schema,list) else [schema])),"demo_test.go.txt":test})

def rgen(id, prop, edits, schema, test, needs, breaks, v="v1"):
    """A bug in a Rust code generator.  The demonstration generates the code of a schema, compiles it
    together with test (which sees private fields, and defines pub fn demo) and runs that."""
    H="/verif/harness/gen/"
    plugin=open(H+"rsplugin/main.go").read()
    text='''mkdir -p $T/gen $T/src $T/lib $T/num_enum/src
(cd $repo/v2 && echo '{"Replace":{"'$repo'/v2/zzgentool/main.go":"'$here'/gentool.go.txt","'$repo'/v2/zzplugin/main.go":"'$here'/plugin.go.txt"}}' > $T/o.json && go build -mod=readonly -overlay $T/o.json -o $T/gentool.bin ./zzgentool && go build -mod=readonly -overlay $T/o.json -o $T/plugin2 ./zzplugin) || exit 3
(cd $repo && go build -mod=readonly -o $T/plugin1 ./protoc-gen-rs-polyglot) || exit 3
timeout 60 $T/gentool.bin $T/plugin%s $T/gen < $here/schema.json > $T/result || exit 1
cat $T/result
grep -q '"ok":true,"same":true' $T/result || exit 1
grep -q '"ok":false\\|"same":false' $T/result && exit 1
cp $T/gen/p/*.rs $T/src/p.rs; cp $here/demo.rs.txt $T/src/t.rs; cp $here/num_enum.rs.txt $T/num_enum/src/lib.rs; cp $here/Cargo.lock.txt $T/Cargo.lock
printf '[package]\\nname="num_enum"\\nversion="0.7.0"\\nedition="2021"\\n[lib]\\nproc-macro=true\\n' > $T/num_enum/Cargo.toml
sed -e '/^num_enum[ =]/d' -e "s|^path = \\"lib.rs\\"|path = \\"$repo/lib.rs\\"|" $repo/Cargo.toml > $T/lib/Cargo.toml
printf '[package]\\nname="demo"\\nversion="0.1.0"\\nedition="2021"\\n[dependencies]\\npolyglot_rs={path="lib"}\\nnum_enum={path="num_enum"}\\n' > $T/Cargo.toml
printf '#![allow(warnings)]\\nmod p { include!("p.rs"); include!("t.rs"); }\\nfn main() { p::demo() }\\n' > $T/src/main.rs
cd $T && CARGO_TARGET_DIR=$T/target timeout 200 cargo run --offline -q
''' % v[1]
    mk(id,prop,edits,("sh",text),needs,breaks,files={"gentool.go.txt":open(H+"gentool/main.go").read(),"plugin.go.txt":plugin,
        "schema.json":"".join(json.dumps(s)+"\n" for s in (schema if isinstance(schema,list) else [schema])),"demo.rs.txt":test,
        "num_enum.rs.txt":open(H+"rsdrv/num_enum/src/lib.rs").read(),"Cargo.lock.txt":open(H+"rsdrv/Cargo.lock").read().replace('name = "rsdrv"','name = "demo"')})
