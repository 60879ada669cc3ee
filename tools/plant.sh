#!/bin/bash
# plant.sh ID PROP: takes the change made in /tmp/plant/repo (a copy of /repo) as the planted bug ID,
# whose demo.sh and meta.json lie in /verif/seeded/ID, and confirms it: it builds, the tests pass,
# only original lines change, the demo passes without it and fails with it. Then runs the check.
id=$1 prop=$2
d=/verif/seeded/$id
. /opt/vp/env.sh
cd /tmp/plant/repo || exit 1
gofmt -l *.go cmd pkg
git diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no change"; exit 1; }
# removed lines must be original
base=$(git -C /repo rev-list --max-parents=0 HEAD)
git -C /repo diff --quiet || { echo "/repo is dirty"; exit 1; }
python3 - $d/patch.diff $base <<'P' || exit 1
import re,subprocess,sys
f=None;bad=0;rem=0
for l in open(sys.argv[1]):
    if l.startswith('--- a/'): f=l[6:].strip()
    elif l.startswith('@@'):
        n=int(re.match(r'@@ -(\d+)',l).group(1))
    elif l.startswith('-') and not l.startswith('---'):
        rem+=1
        b=subprocess.run(['git','-C','/repo','blame','-s','-l','-L%d,%d'%(n,n),f],capture_output=True,text=True).stdout
        if sys.argv[2] not in b: print('NOT ORIGINAL',f,n,l.rstrip()); bad+=1
        n+=1
    elif l.startswith(' '): n+=1
if not rem: print('no removed line')
sys.exit(1 if rem==0 or bad==rem else 0)
P
cd /repo
bash $d/demo.sh >/tmp/plant/demo0.txt 2>&1 || { echo "demo fails on the unchanged tree"; cat /tmp/plant/demo0.txt; exit 1; }
git apply $d/patch.diff || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh || { echo "does not build"; exit 1; }
bash /opt/vp/test.sh /tmp/plant/t.json >/dev/null 2>&1
python3 - <<'P' || exit 1
import json
t=json.load(open('/tmp/plant/t.json')); b=json.load(open('/opt/vp/BASELINE.json'))
base=b.get('stable') or b.get('passed') or b.get('tests') or b
base=[x if isinstance(x,str) else x.get('id') for x in base]
p=t.get('passed') or [k for k,v in t.items() if v in('pass','passed',True)]
miss=[x for x in base if x not in p]
print('stable tests failing:',miss[:5],len(base)); sys=__import__('sys'); sys.exit(1 if miss else 0)
P
bash $d/demo.sh >/tmp/plant/demo1.txt 2>&1 && { echo "demo passes with the change"; cat /tmp/plant/demo1.txt; exit 1; }
tail -3 /tmp/plant/demo1.txt
cd /verif && timeout 900 ./check.sh $prop 2>&1 | grep -a "^VIOL\|^OK\|^INCON\|KNOWN\|harness err" | head -3
