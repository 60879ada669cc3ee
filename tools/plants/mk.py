#!/usr/bin/env python3
"""mk.py SPEC.py [ID...]: makes /verif/seeded/<id>/ for the planted bugs of SPEC and confirms each of
them: patch applies, changes original lines, builds, the stable tests pass, the demo passes without
and fails with the change; then runs the check of its property and records the outcome in
/verif/tools/plants/caught.json."""
import json, os, re, shutil, subprocess, sys, tempfile, concurrent.futures as cf

REPO = '/repo'
SEEDED = '/verif/seeded'
ENV = dict(os.environ, GOTOOLCHAIN='local', GOSUMDB='off', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off')
BASE = subprocess.run(['git', '-C', REPO, 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True, text=True).stdout.strip()

LISP_DEMO = '''#!/bin/bash
# Runs demo.lsp with the command built from the current tree and compares what it prints.
export GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
go build -o "$d/g" ./cmd/gmnlisp || exit 2
mkdir "$d/w" && cd "$d/w" || exit 2
timeout 60 "$d/g" "$here/demo.lsp" > "$d/out" 2>&1 < /dev/null
echo "status $?" >> "$d/out"
diff "$here/expect.txt" "$d/out"
'''
GO_DEMO = '''#!/bin/bash
# Builds demo.go as a program of the current tree's module and runs it: it exits 0 when all is well.
export GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
cp "$here/demo.go.txt" "$d/demo.go"
go build -o "$d/demo" "$d/demo.go" || exit 2
cd "$d" || exit 2
timeout 120 "$d/demo"
'''
SH_DEMO = '''#!/bin/bash
export GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
go build -o "$d/g" ./cmd/gmnlisp || exit 2
mkdir "$d/w" && cd "$d/w" || exit 2
'''

def sh(cmd, cwd=None, timeout=900):
    return subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, env=ENV, capture_output=True, text=True, timeout=timeout, errors='replace')

def original_lines(patch):
    f = None; rem = 0; mine = 0
    for l in open(patch, errors='replace', newline='\n'):
        if l.startswith('--- a/'): f = l[6:].strip()
        elif l.startswith('@@'): n = int(re.match(r'@@ -(\d+)', l).group(1))
        elif l.startswith('-') and not l.startswith('---'):
            rem += 1
            b = sh(['git', '-C', REPO, 'blame', '-s', '-l', '-L%d,%d' % (n, n), 'HEAD', '--', f]).stdout.lstrip('^')
            if not BASE.startswith(b.split()[0][:30]): mine += 1; print('   not original:', f, n, l.rstrip())
            n += 1
        elif l.startswith(' '): n += 1
    return rem - mine > 0

def one(p):
    id = p['id']; d = os.path.join(SEEDED, id)
    w = tempfile.mkdtemp(prefix='plant-')
    r = os.path.join(w, 'repo')
    new = tempfile.mkdtemp(prefix='plantd-')
    try:
        sh(['cp', '-a', REPO, r])
        sh('git checkout -q -- . && git clean -fdq', cwd=r)
        for f, old, newtext in p['edits']:
            path = os.path.join(r, f)
            s = open(path, newline='').read()
            if '\r\n' in s: old = old.replace('\n', '\r\n'); newtext = newtext.replace('\n', '\r\n')
            if s.count(old) < 1: return id, 'EDIT NOT FOUND in %s: %r' % (f, old)
            if s.count(old) > 1: return id, 'EDIT AMBIGUOUS in %s: %r' % (f, old)
            open(path, 'w', newline='').write(s.replace(old, newtext))
        g = sh('gofmt -l *.go cmd pkg', cwd=r).stdout.strip()
        if g: sh('gofmt -w ' + ' '.join(g.split()), cwd=r)
        diff = subprocess.run(['git', 'diff'], cwd=r, capture_output=True).stdout
        open(os.path.join(new, 'patch.diff'), 'wb').write(diff)
        if not original_lines(os.path.join(new, 'patch.diff')): return id, 'NO ORIGINAL LINE CHANGED'
        json.dump({'property': p['property'], 'needs': p['needs'], 'what_it_breaks': p['breaks']}, open(os.path.join(new, 'meta.json'), 'w'), indent=1)
        demo = os.path.join(new, 'demo.sh')
        if 'lisp' in p:
            open(os.path.join(new, 'demo.lsp'), 'w').write(p['lisp'].lstrip('\n'))
            open(os.path.join(new, 'expect.txt'), 'w').write(p.get('expect') or '')
            open(demo, 'w').write(LISP_DEMO)
        elif 'go' in p:
            open(os.path.join(new, 'demo.go.txt'), 'w').write(p['go'].lstrip('\n'))
            open(demo, 'w').write(GO_DEMO)
        else:
            open(demo, 'w').write(SH_DEMO + p['sh'].lstrip('\n'))
        os.chmod(demo, 0o755)
        clean = os.path.join(w, 'clean')
        sh(['git', 'clone', '-q', REPO, clean])
        if 'lisp' in p and not p.get('expect'):
            # what the unchanged tree prints; the author of the spec has to review it
            sh('go build -o %s/cg ./cmd/gmnlisp' % w, cwd=clean)
            os.mkdir(w + '/ww')
            x = sh('timeout 60 %s/cg %s/demo.lsp 2>&1 < /dev/null; echo "status $?"' % (w, new), cwd=w + '/ww').stdout
            open(os.path.join(new, 'expect.txt'), 'w').write(x)
            print('  %s expects: %s' % (id, x.replace(chr(10), ' / ')[:300]))
        a = sh(['bash', demo], cwd=clean, timeout=300)
        if a.returncode != 0: return id, 'DEMO FAILS ON THE UNCHANGED TREE\n' + (a.stdout + a.stderr)[:1500]
        ap = sh(['git', 'apply', '--check', os.path.join(new, 'patch.diff')], cwd=clean)
        if ap.returncode: return id, 'PATCH DOES NOT APPLY\n' + ap.stderr[:300]
        # build
        b = sh('go build ./... && go build -o %s/g ./cmd/gmnlisp' % w, cwd=r)
        if b.returncode: return id, 'DOES NOT BUILD\n' + b.stderr[:800]
        # stable tests, on the copy
        env = 'sed "s#/repo#%s#g" /opt/vp/env.sh > %s/env.sh; sed "s#/opt/vp/env.sh#%s/env.sh#; s#/repo#%s#g" /opt/vp/test.sh > %s/test.sh; bash %s/test.sh %s/t.json' % (r, w, w, r, w, w, w)
        sh(env, cwd=r)
        t = json.load(open(w + '/t.json')); base = json.load(open('/opt/vp/BASELINE.json'))
        st = base.get('stable') or base.get('passed') or base.get('tests') or base
        st = [x if isinstance(x, str) else x.get('id') for x in st]
        ps = t.get('passed') or [k for k, v in t.items() if v in ('pass', 'passed', True)]
        miss = [x for x in st if x not in ps]
        if miss: return id, 'STABLE TESTS FAIL: %s' % miss[:4]
        a = sh(['bash', demo], cwd=r, timeout=300)
        if a.returncode == 0: return id, 'DEMO PASSES WITH THE CHANGE'
        if os.path.isdir(d): shutil.rmtree(d)
        os.makedirs(SEEDED, exist_ok=True)
        shutil.copytree(new, d)
        return id, 'ok demo: ' + ' / '.join((a.stdout + a.stderr).split('\n')[:4])[:200]
    finally:
        shutil.rmtree(w); shutil.rmtree(new)

def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    plants = spec['plants']
    ids = sys.argv[2:]
    plants = [p for p in plants if not ids or p['id'] in ids]
    with cf.ThreadPoolExecutor(4) as ex:
        for id, msg in ex.map(one, plants): print(id, msg, flush=True)

main()
