#!/usr/bin/env python3
"""Mutation runs (a development aid, no check uses it): plants small changes one after another in a
scratch copy of /repo, drops those that do not build or that the tests notice, and runs the monitors
with reduced case counts on the rest.  usage: mutate.py WORKDIR FROM TO SEED"""
import json, os, random, re, shutil, subprocess, sys, glob, time
work, lo, hi, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
here = os.path.dirname(os.path.abspath(__file__))
repo, har = work + "/repo", work + "/harness"
os.makedirs(work, exist_ok=True)
subprocess.run(["rm", "-rf", repo, har]); subprocess.run(["cp", "-a", "/repo", repo]); subprocess.run(["cp", "-a", here + "/../../harness", har])
gm = open(har + "/go.mod").read().replace("=> /repo", "=> " + repo); open(har + "/go.mod", "w").write(gm)
env = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOWORK="off")
files = [f for f in glob.glob(repo + "/*.go") + glob.glob(repo + "/pkg/*/*.go") + [repo + "/cmd/gmnlisp/main.go"] if not f.endswith("_test.go") and not f.endswith("mkmanifest.go")]
subprocess.run(["go", "build", "-o", work + "/mutants", here + "/mutants.go"], env=env, check=True)
out = subprocess.run([work + "/mutants"] + sorted(files), capture_output=True, text=True, env=env, cwd=repo)
ms = [json.loads(l) for l in out.stdout.splitlines()]
lsp = []
for f in sorted(glob.glob(repo + "/embed/*.lsp")) + [repo + "/startup.lsp"]:
    t = open(f).read()
    for m in re.finditer(r"(?<=[(\s'])(car|cdr|null|not|and|or|\+|-|<|>|<=|>=|=|1|0|let|let\*|cons|list|append|nil|t|first|second|elt|eql|equal|setq|progn|if|cadr|cddr|caar|caddr)(?=[)\s])", t):
        sw = {"not": "list", "car": "cdr", "cdr": "car", "null": "not", "and": "or", "or": "and", "+": "-", "-": "+", "<": "<=", ">": ">=", "<=": "<", ">=": ">", "=": "/=", "1": "2", "0": "1", "let": "let*", "let*": "let", "cons": "list", "list": "vector", "append": "list", "nil": "t", "t": "nil", "first": "second", "second": "first", "elt": "list", "eql": "equal", "equal": "eql", "setq": "list", "progn": "list", "if": "and", "cadr": "car", "cddr": "cdr", "caar": "car", "caddr": "cadr"}[m.group(1)]
        if sw != m.group(1):
            lsp.append(dict(file=f, Start=len(t[:m.start()].encode()), End=len(t[:m.end()].encode()), New=sw, Op=m.group(1) + " -> " + sw, Line=t[:m.start()].count("\n") + 1))
ms += lsp
def dull(m):  # error paths: read once, mostly equivalent
    if re.search(r"return (nil error|Null, err)", m["Op"]): return True
    line = open(m["file"]).read().split("\n")[m["Line"] - 1]
    return m["Op"].startswith("if ") and bool(re.search(r"err != nil|wc\.Try|; !?ok|if !?ok", line))
if os.environ.get("MUT_SKIP"):
    ms = [m for m in ms if not dull(m)]
random.Random(seed).shuffle(ms)
print(len(ms), "mutants", flush=True)
rel = {"array.go": "C11 C16 C02 C22", "atom.go": "C12 C02 C16 C17", "builtinclass.go": "C14 C15 C01", "class.go": "C14 C15", "cmds.go": "C30 C17 C16 C09 C23", "cond.go": "C08 C06 C18 C25", "cons.go": "C02 C10 C16 C23", "convert.go": "C12", "error.go": "C08 C25 C01", "format.go": "C20 C02", "functionref.go": "C04 C23 C16", "generic.go": "C15", "hash.go": "C13 C22", "io.go": "C19 C03 C07", "lambda.go": "C05 C04 C23 C25 C21", "list.go": "C10 C22", "macro.go": "C17", "misc.go": "C01", "number.go": "C09", "operator.go": "C23 C09", "parse.go": "C03 C02", "progn.go": "C06 C23 C08", "sequence.go": "C10 C12", "setq.go": "C04 C07 C23 C22", "string.go": "C12 C02", "utils.go": "C18 C01", "world.go": "C25 C21 C20", "newtypes.go": "C12 C09", "main.go": "C26 C29 C27 C03", "tokenize.go": "C03 C02", "startup.lsp": "C24 C21"}
N = {"C01": 14000, "C02": 30000, "C03": 30000, "C04": 12000, "C05": 9000, "C06": 12000, "C07": 15000, "C08": 12000, "C09": 30000, "C10": 8000, "C11": 15000, "C12": 20000, "C13": 12000, "C14": 10000, "C15": 16000, "C16": 3000, "C17": 15000, "C18": 2000, "C19": 12000, "C20": 15000, "C21": 16000, "C22": 6000, "C23": 12000, "C24": 8000, "C25": 15000, "C26": 1500, "C27": 12000, "C29": 600, "C30": 4000, "C31": 10000}
os.makedirs(work + "/root", exist_ok=True)
shutil.copy(here + "/../../known_findings.jsonl", work + "/root/")
def sh(cmd, cwd=repo, t=300, **kw):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, env=dict(env, **kw), capture_output=True, text=True, timeout=t)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 99, "timeout"
log = open(f"{work}/log-{seed}-{lo}.txt", "a")
stat = dict(nobuild=0, tests=0, caught=0, survived=0)
for i, m in enumerate(ms[lo:hi], lo):
    src = open(m["file"], "rb").read()
    new = src[:m["Start"]] + m["New"].encode() + src[m["End"]:]
    if "os.Args" in m["New"] and b'"os"' not in src:
        new = new.replace(b"import (", b'import (\n\t"os"', 1) if b"import (" in new else new
    open(m["file"], "wb").write(new)
    name = f'{os.path.relpath(m["file"], repo)}:{m["Line"]} {m["Op"]}'
    try:
        rc, o = sh("go build ./... && go build -o %s/gmnlisp ./cmd/gmnlisp" % work)
        if rc:
            stat["nobuild"] += 1; continue
        rc, o = sh("go test -vet=off -count=1 -timeout 60s ./... >/dev/null 2>&1 || exit 1; python3 /opt/vp/lisptests.py %s/gmnlisp %s | grep -q '^FAIL' && exit 1; exit 0" % (work, work), t=200)
        if rc:
            stat["tests"] += 1; continue
        rc, o = sh("go build -o %s/vmon ." % work, cwd=har)
        if rc:
            stat["nobuild"] += 1; continue
        order = rel.get(os.path.basename(m["file"]), "C22 C17 C23 C09 C10" if m["file"].endswith(".lsp") else "").split()
        order += [p for p in ["C23", "C01", "C04", "C06", "C08", "C16", "C17", "C25", "C30", "C31"] if p not in order]
        order = list(dict.fromkeys(order))
        by = None
        for p in order:
            rc, o = sh("%s/vmon check %s" % (work, p), t=240, VMON_ROOT=work + "/root", VMON_CASES=str(N[p]), VMON_CLI=work + "/gmnlisp")
            if rc == 1 and "VIOLATION" in o:
                by = p; break
            if rc not in (0, 1):
                log.write(f"?? {p} rc={rc} {name} {o[-300:]!r}\n")
        if by:
            stat["caught"] += 1; log.write(f"ok {by} (rel {order.index(by)}) {name}\n")
        else:
            stat["survived"] += 1
            log.write(f"SURVIVED {i} {name}\n   new: {new[max(0,m['Start']-150):m['Start']+len(m['New'])+150].decode(errors='replace')!r}\n")
    finally:
        open(m["file"], "wb").write(src)
        log.flush()
    if i % 20 == 0:
        print(time.strftime("%H:%M"), i, stat, flush=True)
print(stat)
