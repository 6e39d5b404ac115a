#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's current working tree.

1. builds the harness (and tomlkit) from /repo's working tree into /verif/build,
2. extracts the functions of the property from the working tree, discharges their contracts (proof/),
3. runs the bounded check of the property on the real code,
4. writes evidence/<property>.json, prints KNOWN-FINDING / VIOLATION lines, exits 0 or 1.
"""
import json, os, re, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(ROOT, "build")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def build(kit):
    env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTFLAGS="-Awarnings")
    r = run(["cargo", "build", "--release", "--offline", "--target-dir", f"{BUILD}/harness"], cwd=f"{ROOT}/harness", env=env)
    if r.returncode != 0:
        print(r.stdout[-3000:]); print("the harness does not build against /repo"); sys.exit(2)
    if kit:
        # in a scratch copy of the manifest's directory nothing is written: only the target dir is ours
        r = run(["cargo", "build", "--release", "--offline", "--locked", "--target-dir", f"{BUILD}/kit", "--bin", "tomlkit"], cwd=REPO, env=env)
        if r.returncode != 0:
            r = run(["cargo", "build", "--release", "--offline", "--target-dir", f"{BUILD}/kit", "--bin", "tomlkit"], cwd=REPO, env=env)
        if r.returncode != 0:
            print(r.stdout[-3000:]); print("tomlkit does not build"); sys.exit(2)
        os.environ["VERIF_TOMLKIT"] = f"{BUILD}/kit/release/tomlkit"

def bounded(pid, secs, out):
    vh = f"{BUILD}/harness/release/vh"
    if os.path.isdir(out): shutil.rmtree(out)
    os.makedirs(out)
    r = run([vh, "run", pid, "--seed", str(SEED), "--secs", str(secs), "--threads", str(min(8, os.cpu_count() or 8)), "--out", out])
    frag = {}
    if os.path.exists(f"{out}/bounded.json"): frag = json.load(open(f"{out}/bounded.json"))
    if r.returncode in (0, 1) and frag: return r.returncode == 1, r.stdout, frag, f"{out}/replay.json"
    # the process died: replay the cases that were being run, one by one
    for f in sorted(os.listdir(out)):
        if not f.startswith("cur"): continue
        t = open(f"{out}/{f}").read().split()
        if len(t) != 2: continue
        cmd = [vh, "replay", pid, "--seed", str(SEED), "--kind", t[0], "--n", t[1], "--out", out + "/r"]
        try: q = run(cmd, timeout=120); rc = q.returncode; so = q.stdout
        except subprocess.TimeoutExpired: rc, so = "timeout", ""
        if rc not in (0, 3):
            rep = {"property": pid, "seed": SEED, "kind": t[0], "n": int(t[1]), "failure": f"the process ends with {rc}", "output": so[-2000:], "replay_cmd": " ".join(cmd)}
            json.dump(rep, open(f"{out}/replay.json", "w"), indent=1)
            return True, f"process died: {rc}\n{so[-1500:]}", {"evaluations": 1, "distinct_nontrivial": 1}, f"{out}/replay.json"
    print(r.stdout[-2000:]); print("the bounded check gave no answer"); sys.exit(2)

def known(pid):
    out = []
    p = f"{ROOT}/known-findings.txt"
    for l in open(p):
        m = re.match(r"known: property=(\S+) (.*)", l.strip())
        if m and m.group(1) == pid: out.append(m.group(2))
    return out

def main():
    pid = sys.argv[1]
    t0 = time.time()
    sys.path.insert(0, f"{ROOT}/proof")
    try: import prove
    except ImportError: prove = None
    conf = json.load(open(f"{ROOT}/checks.json"))[pid]
    build(conf.get("kit", False))
    proof = prove.prove(pid, conf, TIER) if prove and conf.get("proof") else None
    secs = conf.get("secs", 40) if TIER == "quick" else conf.get("thorough_secs", 400)
    out = f"{BUILD}/out/{pid}"
    bad, text, frag, replay = bounded(pid, secs, out)
    print(text.strip()[-3500:])
    listed = known(pid)
    violations = 0; code = 0
    for k in frag.get("known", []):
        if k in listed: print(f"KNOWN-FINDING: property={pid} {k}")
        else: bad = True; json.dump({"property": pid, "failure": k}, open(replay, "w"))
    os.makedirs(f"{ROOT}/evidence/replays", exist_ok=True)
    dest = f"{ROOT}/evidence/replays/{pid}.json"
    if os.path.exists(dest): os.remove(dest)
    lines = []
    if bad:
        violations += 1; code = 1
        rep = json.load(open(replay))
        if proof: rep["failed_obligations"] = proof["failed"]
        json.dump(rep, open(dest, "w"), indent=1, ensure_ascii=False)
        lines.append(f"VIOLATION property={pid} replay={dest}")
    elif proof and proof["failed"]:
        violations += len(proof["failed"]); code = 1
        json.dump({"property": pid, "failed_obligations": proof["failed"], "verifier_output": proof["output"][-20000:], "no_failing_input_found": True, "bounded": frag}, open(dest, "w"), indent=1)
        lines.append(f"VIOLATION property={pid} replay={dest} no-failing-input-found")
    cov = {"evaluations": frag.get("evaluations", 0), "distinct_nontrivial": frag.get("distinct_nontrivial", 0), "rule": frag.get("rule", ""), "samples": frag.get("samples", []),
           "bounded": {"bound": frag.get("bound"), "exhaustive_items": frag.get("exhaustive_items"), "exhaustive_items_done": frag.get("exhaustive_done"), "seconds": secs}}
    level = conf["level"]
    assumptions = list(conf.get("assumptions", []))
    if proof:
        cov.update({k: proof[k] for k in ("obligations", "discharged", "checker_cmd", "trusted_base", "functions", "solver_s", "backend", "undecided", "language_facts") if k in proof})
        assumptions += proof.get("assumptions", [])
        for u in proof.get("undecided", []): print(f"UNDECIDED {u}")
    ev = {"property": pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": level, "coverage": cov, "assumptions": assumptions, "wall_s": round(time.time() - t0, 1), "violations": violations}
    json.dump(ev, open(f"{ROOT}/evidence/{pid}.json", "w"), indent=1, ensure_ascii=False)
    for l in lines: print(l)
    sys.exit(code)

main()
