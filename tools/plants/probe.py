#!/usr/bin/env python3
"""probe.py SPEC.py [N...]: a development aid. SPEC defines probes = [(prop, file, old, new), ...]: each
small change is made in a scratch copy of /repo; if it builds and passes the tests, the check of its
property (quick tier, or NCASES) runs on the copy. Prints which are caught."""
import os, sys, subprocess, shutil, tempfile, concurrent.futures as cf, re
spec = {}; exec(open(sys.argv[1]).read(), spec)
probes = spec['probes']
sel = [int(x) for x in sys.argv[2:]] or range(len(probes))
ENV = dict(os.environ, GOTOOLCHAIN='local', GOSUMDB='off', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off')
JOBS = int(os.environ.get('JOBS', '3'))
def sh(c, cwd, t=900, **kw):
    try: p = subprocess.run(c, shell=True, cwd=cwd, env=dict(ENV, **kw), capture_output=True, text=True, timeout=t, errors='replace')
    except subprocess.TimeoutExpired: return 99, 'timeout'
    return p.returncode, p.stdout + p.stderr
def one(i):
    prop, f, old, new = probes[i]
    w = tempfile.mkdtemp(prefix='probe-')
    try:
        r, h = w + '/repo', w + '/harness'
        sh(f'cp -a /repo {r}; cd {r} && git checkout -q -- . ; cp -a /verif/harness {h}; mkdir {w}/root; cp /verif/known_findings.jsonl {w}/root/', '/')
        gm = open(h + '/go.mod').read().replace('=> /repo', '=> ' + r); open(h + '/go.mod', 'w').write(gm)
        p = r + '/' + f; s = open(p, newline='').read()
        if '\r\n' in s: old = old.replace('\n', '\r\n'); new = new.replace('\n', '\r\n')
        if s.count(old) != 1: return i, 'EDIT %d matches' % s.count(old)
        open(p, 'w', newline='').write(s.replace(old, new))
        rc, o = sh('go build ./... && go vet . >/dev/null 2>&1; go build ./...', r)
        if rc: return i, 'NOBUILD ' + o[:200]
        rc, o = sh('go test ./... 2>&1 | grep -E "^(---|FAIL|panic)" | head -5', r, 120)
        if o.strip(): return i, 'TESTS ' + o.replace('\n', ' ')[:150]
        res = []
        for pr in prop.split():
            kw = dict(VMON_ROOT=w + '/root', VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER='quick')
            rc, o = sh(f'go build -o {w}/vmon .', h)
            if rc: return i, 'HARNESS ' + o[:200]
            if pr in ('C26', 'C29'): sh(f'go build -o {w}/g ./cmd/gmnlisp', r); kw['VMON_CLI'] = w + '/g'
            if pr == 'C28': sh(f'go build -race -o {w}/vmon-race .', h); kw['VMON_RACE'] = w + '/vmon-race'
            rc, o = sh(f'{w}/vmon check {pr}', w, **kw)
            n = re.findall(r'VIOLATION property=(\S+)', o)
            res.append('%s:%s' % (pr, 'CAUGHT(%d)' % len(n) if n else 'missed rc=%d' % rc))
        return i, ' '.join(res)
    finally: shutil.rmtree(w, ignore_errors=True)
with cf.ThreadPoolExecutor(JOBS) as ex:
    for i, r in ex.map(one, sel):
        print(i, probes[i][0], probes[i][1], repr(probes[i][3][:50]), '=>', r, flush=True)
