#!/usr/bin/env python3
"""What do the checks react to?  sweep.py MC MUTANTS OUT [N]: analyses every variant written by tools/mutate (all, or N
random ones) and notes the first check that reports, BUILD when it does not compile, or SURVIVED."""
import concurrent.futures as cf, glob, os, random, subprocess, sys, tempfile, shutil
mc, mu, out = sys.argv[1:4]
env = dict(os.environ); 
ids = os.environ.get("IDS") or " ".join(l.split()[1] for l in open("/tmp/times.txt") if len(l.split()) > 1)
done = set(l.split("\t")[0] for l in open(out)) if os.path.exists(out) else set()
all_ = sorted(os.path.basename(d) for d in glob.glob(mu + "/[0-9]*"))
if len(sys.argv) > 4:
    random.Random(int(os.environ.get("SEED", "1"))).shuffle(all_); all_ = all_[:int(sys.argv[4])]
SLOW = "C50 C51 C49 C48 C47 C17 C18 C19 C20 C21 C22 C23 C24 C25 C35 C40".split()
FAST = [i for i in ids.split() if i not in SLOW]
PRUNE = os.environ.get("PRUNE")
def pruned(desc):
    return PRUNE and (desc.endswith("-> +x") or desc.endswith("-> empty") and len(desc.split('"')[1] if '"' in desc else desc) > 18)
def one(n):
    d = f"{mu}/{n}"; f = open(d + "/file").read(); desc = open(d + "/desc").read()
    if pruned(desc): return n, "PRUNED", desc, ""
    ids = " ".join(FAST + (SLOW if f.startswith(("tuna/", "html/")) and not f.endswith(("tls.go", "version.go")) else []))
    v = tempfile.mkdtemp(prefix="sw-")
    try:
        p = subprocess.run(f". /opt/vp/env.sh; export GOFLAGS=-mod=readonly GOMAXPROCS=2; exec timeout 400 {mc} -first -subst {f}={d}/src -verif {v} {ids}", shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, executable="/bin/bash")
        o = p.stdout
        if "cannot load" in o: return n, "BUILD", desc, ""
        vio = [l for l in o.splitlines() if l.startswith("VIOLATION")]
        if vio:
            first = [l for l in o.splitlines() if l and not l.startswith(("OK ", "VIOLATION"))]
            return n, vio[0].split()[1].split("=")[1], desc, (first[-1] if first else "")[:300].replace("\t", " ")
        if p.returncode == 0: return n, "SURVIVED", desc, ""
        return n, f"RC{p.returncode}", desc, o[-300:].replace("\n", " ").replace("\t", " ")
    finally:
        shutil.rmtree(v)
with cf.ThreadPoolExecutor(int(os.environ.get("J", "4"))) as ex, open(out, "a") as g:
    for r in ex.map(one, [n for n in all_ if n not in done]):
        g.write("\t".join(r) + "\n"); g.flush()
