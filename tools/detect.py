#!/usr/bin/env python3
"""detect.py [id...]: runs the check of every planted bug's property against a scratch copy of /repo with the bug, in a scratch copy of /verif.
ALL=1: runs all checks for every bug."""
import json, os, shutil, subprocess, sys, time
D = os.environ.get("DETECT", "/tmp/detect"); S = D + "/repo"; V = D + "/verif"
def sh(c, cwd=None): return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
os.makedirs(D, exist_ok=True)
if os.path.exists(S): shutil.rmtree(S)
sh(f"cp -a /repo {S}"); sh("git checkout -q -- .", S)
os.makedirs(V, exist_ok=True)
sh(f"tar -C /verif --exclude=./build --exclude=./.git --exclude=./seeded --exclude=./evidence -cf - . | tar -C {V} -xf -")
sh(f"grep -rlE '/repo|/verif' --include=*.py --include=*.toml --include=*.rs --include=*.json . | xargs sed -i -E 's#/repo([^a-z]|$)#{S}\\1#g; s#/verif/#{V}/#g'", V)
ids = sys.argv[1:] or sorted(os.listdir("/verif/seeded"))
props = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
for i in ids:
    meta = json.load(open(f"/verif/seeded/{i}/meta.json"))
    sh("git checkout -q -- .", S); r = sh(f"git apply /verif/seeded/{i}/patch.diff", S)
    if r.returncode: print(i, "does not apply", r.stdout); continue
    for p in (props if os.environ.get("ALL") else [meta["property"]]):
        t = time.time(); r = sh(f"python3 check.py {p}", V)
        last = [l for l in r.stdout.split("\n") if l.startswith(("VIOLATION", "UNDECIDED"))]
        fail = ""
        try: fail = str(json.load(open(f"{V}/evidence/replays/{p}.json")).get("failed_obligations", ""))[:300]
        except Exception: pass
        print(i, p, "exit", r.returncode, f"{time.time()-t:.0f}s", " / ".join(x[:150] for x in last[:3]), fail, flush=True)
sh("git checkout -q -- .", S)
