#!/usr/bin/env python3
"""Regenerates and confirms /verif/seeded (planted bugs) from tools/seeds/*.py.  usage: seeds.py [ID...]
Every bug: applied in a scratch copy of /repo; must build, pass the stable tests, and its demo must pass
on the unchanged tree and fail with the change.  No check reads any of this."""
import glob, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUGS = {}
def bug(id, prop, pkg, needs, breaks, edits, test, race=False):
    assert id not in BUGS, id
    BUGS[id] = dict(prop=prop, pkg=pkg, needs=needs, breaks=breaks, edits=edits, test=test, race=race)
for f in sorted(glob.glob(V + "/tools/seeds/*.py")):
    exec(compile(open(f).read(), f, "exec"))
def sh(cmd, cwd=None, t=300, env=None):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, text=True, executable="/bin/bash", env=env)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 124, str(e.stdout)
DEMO = r'''#!/bin/bash
# run with cwd = the repository; exit 0 when the property holds for the demonstrated case
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export GOFLAGS=-mod=readonly
ov=$(mktemp)
printf '{"Replace":{"%s/{PKG}demo_verif_test.go":"%s/demo_test.go"}}' "$PWD" "$here" > "$ov"
go test {RACE}-vet=off -count=1 -timeout 100s -run '^TestDemo' -overlay "$ov" ./{PKG} 2>&1
rc=$?
rm -f "$ov"
exit $rc
'''
only = sys.argv[1:]
bad = 0
for id, b in BUGS.items():
    if only and id not in only: continue
    w = tempfile.mkdtemp(prefix="seed-")
    msg = ""
    try:
        shutil.copytree(REPO, w + "/r", symlinks=True)
        r = w + "/r"
        sh("git checkout -q -- . && git clean -fdq", r)
        for f, old, new in b["edits"]:
            s = open(f"{r}/{f}").read()
            if s.count(old) != 1: msg += f" [{f}: {s.count(old)} matches for {old!r}]"; continue
            open(f"{r}/{f}", "w").write(s.replace(old, new))
        d = sh("git diff --no-color", r)[1]
        # removed lines must be lines of the original repository
        base = sh("git rev-list --max-parents=0 HEAD", r)[1].strip()
        removed = 0
        for f in {e[0] for e in b["edits"]}:
            bl = sh(f"git blame -s -l --abbrev=39 HEAD -- {f}", r)[1].splitlines()
            for l in sh(f"git diff -U0 --no-color -- {f}", r)[1].splitlines():
                if l.startswith("@@"):
                    a = l.split()[1][1:].split(",")
                    st, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
                    for i in range(st, st + n):
                        removed += 1
                        if not bl[i-1].lstrip("^").startswith(base[:30]): msg += f" [{f}:{i} is not an original line]"
        if not removed: msg += " [changes no original line]"
        o = V + "/seeded/" + id
        os.makedirs(o, exist_ok=True)
        open(o + "/patch.diff", "w").write(d)
        open(o + "/demo_test.go", "w").write(b["test"].lstrip())
        pk = "" if b["pkg"] == "." else b["pkg"] + "/"
        open(o + "/demo.sh", "w").write(DEMO.replace("{PKG}", pk).replace("{RACE}", "-race " if b["race"] else ""))
        os.chmod(o + "/demo.sh", 0o755)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(o + "/meta.json", "w"), indent=1)
        rc, out = sh(". /opt/vp/env.sh; go build ./... && go vet ./... 2>&1 | grep -v '^#' | head -3; go test -vet=off -count=1 ./... 2>&1 | grep -E 'FAIL|panic'", r)
        if out.strip(): msg += " [build/test: " + out.strip()[:300] + "]"
        c1, o1 = sh(f"bash {o}/demo.sh", r)
        c0, o0 = sh(f"bash {o}/demo.sh", REPO)
        if c0 != 0: msg += " [demo fails on the unchanged tree: " + o0[-400:] + "]"
        if c1 == 0: msg += " [demo passes with the change]"
        elif "build failed" in o1 or "setup failed" in o1: msg += " [demo does not build with the change: " + o1[-300:] + "]"
    finally:
        shutil.rmtree(w)
    print(("ok   " if not msg else "BAD  ") + id, b["prop"], msg, flush=True)
    bad += bool(msg)
sys.exit(bad > 0)
