#!/bin/bash
# development helper: seedtest.sh ID [notests]  - validates seeded/ID in a scratch copy and runs the check of its property against it
source /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
ID=$1; S=/verif/seeded/$ID
PROP=${PROP:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
W=/tmp/sw_$ID; rm -rf "$W"; mkdir "$W"
(cd /repo && tar -c --exclude=./.git .) | tar -x -C "$W"
D=/tmp/sd_$ID; rm -rf "$D"; mkdir "$D"; cp -r "$S"/. "$D"; rm -f "$D"/*.diff "$D"/meta.json
(cd "$W" && timeout 300 bash "$D/demo.sh" >"$W.clean.log" 2>&1); a=$?
(cd "$W" && git init -q . && git apply "$S/patch.diff") || echo "PATCH DOES NOT APPLY"
(cd "$W" && go build ./... ) || echo "BUILD FAILS"
(cd "$W" && timeout 300 bash "$D/demo.sh" >"$W.bug.log" 2>&1); b=$?
t=skipped
if [ "$2" != notests ]; then
 (cd "$W" && python3 /opt/vp/run_tests.py "$W.work" >/dev/null 2>&1; cp "$W.work/log.json" "$W.tests.json"; rm -rf "$W.work")
 t=$(python3 - "$W.tests.json" <<'P'
import json,sys
base=json.load(open('/opt/vp/BASELINE.json'))
ok=set()
for l in open(sys.argv[1]):
    try: d=json.loads(l)
    except: continue
    if d.get('Action')=='pass' and d.get('Test'): ok.add(d['Package']+'::'+d['Test']); ok.add(d['Package']+'.'+d['Test']); ok.add(d['Package']+'/'+d['Test'])
st=base.get('stable') or base.get('stable_tests') or base.get('passed') or base
if isinstance(st,dict): st=list(st)
miss=[x for x in st if x not in ok]
print("missing",len(miss),miss[:5])
P
)
fi
cp /verif/harness/go.mod "/tmp/sm_$ID.mod"; cp /verif/harness/go.sum "/tmp/sm_$ID.sum"
sed -i "s#=> /repo#=> $W#" "/tmp/sm_$ID.mod"
V=/tmp/sv_$ID; rm -rf "$V"; mkdir -p "$V/evidence"; cp /verif/known_findings.json /verif/properties.jsonl "$V"
RACE=; [ "$PROP" = P31 ] && RACE=-race
(cd /verif/harness && go build $RACE -modfile="/tmp/sm_$ID.mod" -o "$V/lc" .) || echo "HARNESS BUILD FAILS"
s=$(date +%s)
LNG_VERIF="$V" VERIF_SEED=1 VERIF_TIER=quick timeout 900 "$V/lc" run "$PROP" quick > "$V.log" 2>&1; c=$?
e=$(date +%s)
echo "$ID $PROP: demo clean=$a bug=$b tests: $t check rc=$c $((e-s))s: $(grep -a "case\|probe" "$V.log" | head -1 | cut -c1-220)"
rm -rf "$W" "$D" "$V" "/tmp/sm_$ID.mod" "/tmp/sm_$ID.sum" "$W.tests.json"
