#!/usr/bin/env python3
"""Behaviour-preserving edits (tools/refactors/*.py): every check must stay quiet on each of them.
usage: refactors.py MC [NAME...]   (MC: analyzer binary)"""
import concurrent.futures as cf, glob, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = {}
def ref(name, *edits):
    assert name not in R, name
    R[name] = edits
for f in sorted(glob.glob(V + "/tools/refactors/*.py")):
    exec(compile(open(f).read(), f, "exec"))
mc, only = sys.argv[1], sys.argv[2:]
ids = os.environ.get("IDS", "all").split()
def sh(cmd, cwd, t=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, text=True, executable="/bin/bash")
    return p.returncode, p.stdout
def one(name):
    w = tempfile.mkdtemp(prefix="ref-")
    try:
        r = w + "/r"
        shutil.copytree("/repo", r, symlinks=True)
        for e in R[name]:
            f, old, new = e[:3]
            s = open(f"{r}/{f}").read() if os.path.exists(f"{r}/{f}") else ""
            n = s.count(old)
            if old == "":
                open(f"{r}/{f}", "w").write(s + new); continue
            if n == 0 or (n > 1 and len(e) < 4): return name, f"EDIT {f}: {n} matches for {old[:60]!r}"
            open(f"{r}/{f}", "w").write(s.replace(old, new))
        rc, out = sh(". /opt/vp/env.sh; export GOFLAGS=-mod=readonly; go build ./... && go test -vet=off -count=1 ./router ./tuna ./guard ./debug . 2>&1 | grep -E 'FAIL|panic'", r)
        if out.strip(): return name, "BUILD " + out[:500]
        rc, out = sh(f". /opt/vp/env.sh; export GOFLAGS=-mod=readonly; mkdir -p {w}/v; {mc} -repo {r} -verif {w}/v {' '.join(ids)}", w)
        bad = [l[:230] for l in out.splitlines() if not l.startswith("OK ") and not l.startswith("VIOLATION") and not l.startswith("KNOWN")]
        vio = sorted(set(re.findall(r"^VIOLATION property=(\S+)", out, re.M)))
        if rc: return name, f"ALARM {' '.join(vio)} rc={rc}\n     " + "\n     ".join(bad[:int(os.environ.get('N','6'))])
        return name, ""
    finally:
        shutil.rmtree(w)
names = [n for n in R if not only or n in only]
with cf.ThreadPoolExecutor(int(os.environ.get("J", "4"))) as ex:
    for name, msg in ex.map(one, names):
        print(("ok    " if not msg else "ALARM ") + name + " " + msg, flush=True)
