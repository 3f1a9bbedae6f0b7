#!/usr/bin/env python3
"""Run the checks against the planted bugs in a scratch copy (development aid, not a check).
usage: seedrun.py BASE OUT.jsonl own|all [id...]   (VH_SCALE is passed on)"""
import os, sys, json, subprocess, time, glob
base, OUT, mode, ids = sys.argv[1], sys.argv[2], sys.argv[3], sys.argv[4:]
repo, verif = base + "/repo", base + "/verif"
os.makedirs(base, exist_ok=True)
if not os.path.exists(repo): subprocess.run(["cp", "-a", "/repo", repo], check=True)
os.makedirs(verif, exist_ok=True)
subprocess.run(["rsync", "-a", "--delete"] + [f"/verif/{f}" for f in ["build.inc", "check", "setup", "harness", "known_findings", "tools"]] + [verif + "/"]) if os.path.exists("/usr/bin/rsync") else subprocess.run(f"cd /verif && cp -a build.inc check setup harness known_findings tools {verif}/", shell=True)
for f in ["build.inc", "harness/Cargo.toml"]:
    p = f"{verif}/{f}"; s = open(p).read()
    if repo not in s: open(p, "w").write(s.replace("/repo", repo))
subprocess.run(f"mkdir -p {verif}/out {verif}/evidence", shell=True)
ids = ids or sorted(os.path.basename(p) for p in glob.glob("/verif/seeded/*"))
for i in ids:
    meta = json.load(open(f"/verif/seeded/{i}/meta.json"))
    subprocess.run(f"git -C {repo} checkout -q -- . && git -C {repo} apply /verif/seeded/{i}/patch.diff", shell=True, check=True)
    subprocess.run(f"touch $(git -C {repo} diff --name-only | sed 's#^#{repo}/#')", shell=True)
    checks = [meta["property"]] if mode == "own" else [f"C{k:02}" for k in range(1, 29)]
    for c in checks:
        t = time.time()
        p = subprocess.run(["./check", c], cwd=verif, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
        caught = p.returncode == 1 and f"VIOLATION property={c}" in p.stdout
        rec = dict(id=i, prop=meta["property"], check=c, rc=p.returncode, caught=caught, t=round(time.time() - t, 1), tail=p.stdout[-400:] if not caught and p.returncode else [l for l in p.stdout.split("\n") if l][-2:][0][:300] if caught else "")
        open(OUT, "a").write(json.dumps(rec) + "\n")
        if mode == "own" or caught or p.returncode: print(i, c, "CAUGHT" if caught else f"rc={p.returncode} MISSED", rec["t"], flush=True)
subprocess.run(f"git -C {repo} checkout -q -- .", shell=True)
