"""Development helper: mutation testing of the checks.
mutate.py OUT.jsonl N FILE:PROP[,PROP...] ...   - samples N mutants over the files (relative to /repo),
runs the quick checks of the named properties against each and, for survivors, the packages' tests."""
import sys, os, re, random, subprocess, json, shutil, tempfile
out, n, specs = sys.argv[1], int(sys.argv[2]), sys.argv[3:]
R = random.Random(int(os.environ.get("MSEED","1")))
env=dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOSUMDB="off")
W=tempfile.mkdtemp(prefix="mut_"); T=W+"/repo"; os.mkdir(T)
subprocess.run(f"cd /repo && tar -c --exclude=./.git . | tar -x -C {T}",shell=True,check=True)
shutil.copytree("/verif/harness",W+"/harness"); V=W+"/v"; os.makedirs(V+"/evidence")
for f in ("known_findings.json","properties.jsonl"): shutil.copy("/verif/"+f,V)
gm=open(W+"/harness/go.mod").read().replace("=> /repo","=> "+T); open(W+"/harness/go.mod","w").write(gm)
OPS=[(r' < ',' <= '),(r' <= ',' < '),(r' > ',' >= '),(r' >= ',' > '),(r' == ',' != '),(r' != ',' == '),(r' && ',' || '),(r' \|\| ',' && '),
 (r'\+1\b','+0'),(r'-1\b','-0'),(r' \+ 1\b',''),(r' - 1\b',''),(r'\btrue\b','false'),(r'\bfalse\b','true'),(r' \+ ',' - '),(r' - ',' + '),(r'!([a-z(])',r'\1'),(r'\bleft\b','right'),(r'\bright\b','left'),
 (r'\bcontinue\b','break'),(r' \^ 1\b',''),(r'\.Negate\(fac\)',''),(r'\b0\b','1'),(r'\b1\b','2'),(r'\b2\b','1'),(r' \+= ',' -= ')]
def mutants(fn):
    t=open(T+"/"+fn).read(); ms=[]
    pos=0
    for ln,line in enumerate(t.split("\n")):
        s=line.strip()
        if s and not s.startswith(("//","import","package","func","type","panic","return unsat")) and '"' not in s:
            for a,b in OPS:
                for m in re.finditer(a,line):
                    new=line[:m.start()]+m.expand(b)+line[m.end():]
                    if new!=line: ms.append((fn,ln,line,new))
            if re.match(r'^[\w.\[\]()&*]+(\(.*\)|\s*=\s*.*|\+\+|--)$',s) and not s.startswith(("return","if","for")):
                ms.append((fn,ln,line,"// "+s))
        pos+=len(line)+1
    return ms
allm=[]
for sp in specs:
    fn,props=sp.split(":")
    for m in mutants(fn): allm.append((m,props.split(",")))
R.shuffle(allm)
done=0
UNSEEN={} # tests whose pass events get lost in their own output
def tests(pk):
    try: r=subprocess.run(["go","test","-json","-timeout","200s" if pk=="../..." or pk=="..." or pk=="./..." else "60s",pk],cwd=T,env=env,capture_output=True,text=True,timeout=700)
    except subprocess.TimeoutExpired: return ["timeout"]
    ok=set()
    for l in r.stdout.split("\n"):
        try: d=json.loads(l)
        except Exception: continue
        if d.get("Action")=="pass" and d.get("Test"): ok.add(d["Package"]+"/"+d["Test"])
    pre="github.com/booleworks/logicng-go/"
    st=json.load(open("/opt/vp/BASELINE.json"))["stable"]
    if pk!="./...": st=[x for x in st if x.startswith(pre+pk[2:]+"/") and "/" not in x[len(pre+pk[2:]+"/"):]]
    return [x for x in st if x not in ok and x not in UNSEEN.get(pk,())]
FAST=os.environ.get("MFAST")
for pk in {'./'+os.path.dirname(m[0][0]) for m in allm}|({'./...'} if not FAST else set()): UNSEEN[pk]=set(tests(pk))
for (fn,ln,old,new),props in allm:
    if done>=n: break
    t=open(T+"/"+fn).read(); L=t.split("\n"); assert L[ln]==old
    L[ln]=new; open(T+"/"+fn,"w").write("\n".join(L))
    try:
        b=subprocess.run(["go","build","-o",W+"/lc","."],cwd=W+"/harness",env=env,capture_output=True)
        if b.returncode: continue
        done+=1
        rec=dict(file=fn,line=ln+1,old=old.strip(),new=new.strip())
        miss=None if FAST else tests("./"+os.path.dirname(fn))
        if miss: rec["tests"]=miss[:2]; rec["caught"]="own tests"
        else:
            res=None
            for p in props:
                e=dict(env,LNG_VERIF=V,VERIF_SEED="1",LNG_WORKERS=os.environ.get("LNG_WORKERS","4"))
                if "MCASES" in os.environ: e["LNG_CASES"]=os.environ["MCASES"]
                try: r=subprocess.run([W+"/lc","run",p,"quick"],env=e,capture_output=True,text=True,timeout=600)
                except subprocess.TimeoutExpired: res=p+": timeout"; break
                if r.returncode: res=p+": "+(r.stdout+r.stderr).strip().split("\n")[0][:160]; break
            rec["caught"]=res
            rec["tests"]=["not run"] if FAST and res else tests("./"+os.path.dirname(fn) if FAST else "./...")[:3]
        open(out,"a").write(json.dumps(rec)+"\n")
    finally:
        open(T+"/"+fn,"w").write(t)
shutil.rmtree(W)
