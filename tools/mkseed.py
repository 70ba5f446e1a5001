"""Development helper: mkseed.py SPEC.py - writes seeded/<id>/ from a list SEEDS of dicts
(id, property, needs, breaks, edits=[(file, old, new)], demo=Go test source of package errorx_test)."""
import json, os, subprocess, sys, tempfile, shutil
SEEDS=[]
exec(open(sys.argv[1]).read())
only=sys.argv[2:]
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","seeded")
DEMO='''#!/bin/bash
# runs in the repository: the demonstration is compiled into the folder errorx (as a test package of its own) through an overlay
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
T="$(mktemp -d)" || exit 2
trap 'rm -rf -- "$T"' EXIT
printf '{"Replace":{"%s/errorx/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$HERE" > "$T/overlay.json"
go test RACE-vet=off -count=1 -run TestDemo -timeout 240s -overlay "$T/overlay.json" ./errorx
'''
for s in SEEDS:
    if only and s["id"] not in only: continue
    d=os.path.join(root,s["id"]); os.makedirs(d,exist_ok=True)
    w=tempfile.mkdtemp()
    subprocess.run(f"(cd /repo && tar -c --exclude=./.git --exclude=./test .) | tar -x -C {w} && cd {w} && rm -f .gitattributes && git init -q . && git add -A -f && git -c user.email=a -c user.name=a commit -qm x",shell=True,check=True)
    for fn,old,new in s["edits"]:
        p=os.path.join(w,fn); t=open(p).read()
        assert t.count(old)==1,(s["id"],fn,t.count(old),old)
        open(p,"w").write(t.replace(old,new))
    subprocess.run(["gofmt","-l"]+[os.path.join(w,e[0]) for e in s["edits"]])
    diff=subprocess.run(["git","-C",w,"diff"],capture_output=True,text=True).stdout
    shutil.rmtree(w)
    open(d+"/patch.diff","w").write(diff)
    open(d+"/demo_test.go","w").write(s["demo"].lstrip())
    open(d+"/demo.sh","w").write(DEMO.replace("RACE","-race " if s.get("race") else "")); os.chmod(d+"/demo.sh",0o755)
    json.dump({"property":s["property"],"needs":s["needs"],"what_it_breaks":s["breaks"]},open(d+"/meta.json","w"),indent=1)
    print(s["id"])
