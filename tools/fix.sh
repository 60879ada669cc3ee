#!/bin/bash
# fix.sh "message": build, run the stable tests, commit all changes of /repo
set -e
cd /repo
gofmt -l *.go pkg cmd | grep . && { echo gofmt; exit 1; } || true
go vet . ./pkg/... ./cmd/... >/dev/null 2>&1 || true
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { tail -20 /tmp/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/out.json >/tmp/test.log 2>&1 || true
python3 - <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/out.json'))
def passed(d):
    for k in ('passed','pass','stable','tests','stable_passing'):
        if k in d: 
            v=d[k]
            return set(v if isinstance(v,list) else v.keys())
    print(d.keys()); sys.exit(1)
m=passed(b)-passed(o)
if m: print("NOW FAILING:",m); sys.exit(1)
print("ok",len(passed(b)))
P
[ -n "$1" ] && git add -A && git commit -qm "$1" && git log --oneline | head -1
