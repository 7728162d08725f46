#!/usr/bin/env python3
"""Runs all checks on every planted bug and writes tools/caught.json. usage: caught.py MC [SEED...] (default: those not in it)"""
import concurrent.futures as cf, glob, json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
mc, only = sys.argv[1], sys.argv[2:]
J = V + "/tools/caught.json"
got = json.load(open(J)) if os.path.exists(J) else {}
names = sorted(os.path.basename(os.path.dirname(d)) for d in glob.glob(V + "/seeded/*/meta.json"))
got = {k: v for k, v in got.items() if k in names}
def one(n):
    w = tempfile.mkdtemp(prefix="cg-")
    try:
        shutil.copytree("/repo", w + "/r", symlinks=True); os.mkdir(w + "/v")
        if subprocess.run(["git", "-C", w + "/r", "apply", f"{V}/seeded/{n}/patch.diff"]).returncode: return n, "patch does not apply"
        out = subprocess.run(f". /opt/vp/env.sh; GOFLAGS=-mod=readonly {mc} -repo {w}/r -verif {w}/v all", shell=True, executable="/bin/bash", text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT).stdout
        return n, ", ".join(re.findall(r"^VIOLATION property=(\S+)", out, re.M)) or "**missed**"
    finally: shutil.rmtree(w)
with cf.ThreadPoolExecutor(int(os.environ.get("J", "4"))) as ex:
    for n, r in ex.map(one, only or [n for n in names if n not in got]):
        got[n] = r; print(n, r, flush=True)
        json.dump(got, open(J, "w"), indent=0, sort_keys=True)
