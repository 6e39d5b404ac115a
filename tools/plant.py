#!/usr/bin/env python3
"""plant.py <bugs.py> [id...]: confirms planted bugs in a scratch copy of /repo and writes them to /verif/seeded.
bugs.py defines BUGS = [dict(id, property, file, edits=[(old,new)..], needs, breaks, main, kit=False)]."""
import json, os, runpy, shutil, subprocess, sys
S = "/tmp/plant/repo"
def sh(c, cwd=None, t=900): return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
bugs = runpy.run_path(sys.argv[1])["BUGS"]; only = sys.argv[2:]
os.makedirs("/tmp/plant", exist_ok=True)
if os.path.exists(S): shutil.rmtree(S)
sh(f"cp -a /repo {S}")
base = sh("git rev-list --max-parents=0 HEAD", S).stdout.split()[0]
base = sys.argv and os.environ.get("BASE", "2b21bd6")
test = open("/opt/vp/test.sh").read().replace("/repo", S)
open("/tmp/plant/test.sh", "w").write(test)
baseline = json.load(open("/opt/vp/BASELINE.json"))
for b in bugs:
    if only and b["id"] not in only: continue
    sh("git checkout -q -- .", S)
    for old, new in b["edits"]:
        p = f"{S}/{b['file']}"; t = open(p).read()
        if t.count(old) != 1: print(b["id"], "edit matches", t.count(old), "times:", old[:60]); break
        orig = sh(f"git show {base}:{b['file']}", S).stdout
        for l in old.split("\n"):
            if l.strip() and l not in new.split("\n") and l not in orig.split("\n"): print(b["id"], "NOT ORIGINAL:", l[:80])
        open(p, "w").write(t.replace(old, new))
    else:
        d = f"/verif/seeded/{b['id']}"
        os.makedirs(d, exist_ok=True)
        shutil.copy("/verif/tools/demo.sh", d + "/demo.sh"); os.chmod(d + "/demo.sh", 0o755)
        open(d + "/main.rs", "w").write(b["main"])
        if b.get("kit"): open(d + "/needs-tomlkit", "w").write("")
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        diff = sh("git diff", S).stdout
        open(d + "/patch.diff", "w").write(diff)
        r = sh("bash /tmp/plant/test.sh /tmp/plant/o.json")
        try: o = json.load(open("/tmp/plant/o.json"))
        except Exception as e: print(b["id"], "tests:", r.stdout[-300:]); continue
        fails = [k for k in ([x for x in o.get("failed", [])] if isinstance(o.get("failed"), list) else [])]
        dm = sh(f"bash {d}/demo.sh", S); sh("git checkout -q -- .", S); dc = sh(f"bash {d}/demo.sh", S)
        ok = not fails and dm.returncode != 0 and dc.returncode == 0
        print(b["id"], "OK" if ok else "BAD", "failed tests:", fails[:5], "passed:", len(o.get("passed", [])), "demo patched:", dm.returncode, "clean:", dc.returncode, dm.stdout.strip()[-150:].replace("\n", " | "), "" if dc.returncode == 0 else dc.stdout[-600:])
        if not ok: shutil.rmtree(d)
