"""Discharges the contracts of a property on /repo's current working tree.

expanded source (rustc) -> vx (functions and types, with the contracts of proof/*.vx) -> Verus
"""
import relang
import concurrent.futures, json, os, re, shutil, subprocess, time, hashlib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
B = f"{ROOT}/build"
VX = f"{B}/vx/release/vx"
RLIMIT = "30"

def run(cmd, env=None, cwd=None, timeout=None):
    e = dict(os.environ, CARGO_NET_OFFLINE="true")
    e.update(env or {})
    try: return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=e, cwd=cwd, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        r = subprocess.CompletedProcess(cmd, 124); r.stdout = (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or ""); r.stderr = "timeout"; return r

def build_vx():
    r = run(["cargo", "build", "--release", "--offline", "--target-dir", f"{B}/vx"], cwd=f"{ROOT}/tools/vx", env={"RUSTFLAGS": "-Awarnings"})
    return r.returncode == 0, r.stderr[-2000:]

def expand(kit):
    """the macro-expanded source of the library (and of tomlkit)"""
    os.makedirs(f"{B}/exp", exist_ok=True)
    out = []
    for name, args in [("lib", ["--lib"])] + ([("kit", ["--bin", "tomlkit"])] if kit else []):
        # a change of a file's content must always be seen
        r = run(["cargo", "+nightly", "rustc", "--offline", "--target-dir", f"{B}/exp/target", *args, "--", "-Zunpretty=expanded", "-Awarnings"], cwd=REPO)
        if r.returncode != 0 or not r.stdout.strip(): return None, r.stderr[-2000:]
        f = f"{B}/exp/{name}.rs"; open(f, "w").write(r.stdout)
        out.append(("kit::=" if name == "kit" else "") + f)
    return out, ""

UNDECIDED_MSG = ("rlimit", "Resource limit", "timed out", "could not prove termination", "cannot show invariant")

def errors_of(stderr):
    """rustc's json messages: (message, [line of every primary and secondary span])"""
    out = []
    for l in stderr.splitlines():
        if not l.startswith("{"): continue
        try: m = json.loads(l)
        except ValueError: continue
        if m.get("level") not in ("error",): continue
        if m["message"].startswith("aborting due to"): continue
        spans = [(s["line_start"], s["line_end"], s.get("label") or "", s["is_primary"]) for s in m.get("spans", []) if not s["file_name"].startswith("/")]
        out.append({"message": m["message"], "code": (m.get("code") or {}).get("code") if m.get("code") else None, "spans": spans, "text": m.get("rendered", "")})
    return out

class Unit:
    def __init__(self, name, files, work):
        self.name, self.files, self.work = name, files, work
        self.undecided, self.failed, self.cmd = [], [], ""
        self.verified = self.errors = 0; self.solver_s = 0.0; self.output = ""; self.map = None; self.breakdown = {}

    def extract(self, forced=(), probe=False, tag=""):
        rs, mp = f"{self.work}/{self.name}{tag}.rs", f"{self.work}/{self.name}{tag}.json"
        env = {"VX_EXTERN": ";".join(forced)}
        if probe: env["VX_PROBE"] = "1"
        r = run([VX, f"{ROOT}/proof/{self.name}.vx", rs, mp, *self.files], env=env)
        if r.returncode != 0: return None, None, r.stderr[-1500:]
        m = json.load(open(mp))
        try: self.facts = relang.add_facts(rs, m)
        except Exception as x: self.facts = {}; self.undecided.append(f"{self.name}: no facts about the regular expressions: {x}")
        return rs, m, ""

    def verus(self, rs, timeout=240, extra=(), query_ms=90000):
        cmd = ["verus", os.path.basename(rs), "--multiple-errors", "4", "--rlimit", RLIMIT, "--smt-option", f"timeout={query_ms}", "--output-json", "--time-expanded", *extra, "--", "--error-format=json"]
        r = run(cmd, cwd=self.work, timeout=timeout)
        try: js = json.loads(r.stdout[r.stdout.index("{"):]) if "{" in r.stdout else {}
        except ValueError: js = {}
        return " ".join(cmd), r, js

    def owner(self, fns, spans):
        """the function an error is about: the one with its primary span, else any"""
        for prim in (True, False):
            for s in spans:
                if s[3] != prim: continue
                for f in fns:
                    if f["start"] <= s[0] <= f["end"]: return f
        return None

    def run(self):
        shapes = json.load(open(f"{ROOT}/proof/shapes.json")) if os.path.exists(f"{ROOT}/proof/shapes.json") else {}
        forced = []
        for attempt in range(8):
            rs, mp, err = self.extract(forced)
            if rs is None: self.undecided.append(f"{self.name}: the extractor gives no answer: {err[:300]}"); return
            self.cmd, r, js = self.verus(rs)
            vr = js.get("verification-results", {})
            errs = errors_of(r.stderr)
            self.map = mp; fns = mp["functions"]
            # errors of the compiler have a code, failed obligations have none
            if "verified" in vr and not vr.get("encountered-vir-error") and not any(e["code"] for e in errs): break
            more = []
            for e in errs:
                f = self.owner(fns, e["spans"])
                if f and f["status"] == "verified" and f["fn"] not in forced and f["fn"] not in more and ("verified" not in vr or vr.get("encountered-vir-error") or e["code"]): more.append(f["fn"]); self.undecided.append(f"{f['fn']}: not accepted by the verifier: {e['message'][:160]}")
            if not more or r.returncode == 124:
                self.undecided.append(f"{self.name}: the verifier gives no answer: {(errs[0]['message'] if errs else r.stderr[-300:])[:300]}"); self.output = "\n".join(e["text"] for e in errs)[-6000:]
                for f in fns: f["status"] = "undecided" if f["status"] == "verified" else f["status"]
                return
            forced += sorted(set(more))
        else:
            self.undecided.append(f"{self.name}: no answer after several attempts"); return
        self.verified, self.errors = vr["verified"], vr["errors"]
        t = js.get("times-ms", {})
        self.solver_s = round((t.get("smt", {}) or {}).get("total", 0) / 1000.0, 2)
        for f in fns:
            if f["status"] == "unsupported" and f["fn"] not in forced: self.undecided.append(f"{f['fn']}: outside the extractor's reach: {'; '.join(f['bad'])[:200]}")
            if f["status"] == "lost": self.undecided.append(f"{f['fn']}: no such function any more")
        for e in errs:
            f = self.owner(fns, e["spans"])
            if f is None:
                self.undecided.append(f"{self.name}: a lemma is not proved: {e['message'][:160]}"); self.output += e["text"]; continue
            where = "; ".join(sorted({s[2] for s in e["spans"] if s[2]}))
            # a clause can belong to some of the properties of its function only
            props = f["props"].split(","); text = open(rs).read().split("\n")
            tags = [t for s in e["spans"] if s[1] - s[0] < 3 for l in range(s[0], s[1] + 1) for t in re.findall(r"//#(\S+)", text[l - 1])]
            if tags: props = [p for p in props if p in tags[0].split(",")]
            entry = {"function": f["fn"], "obligation": e["message"], "where": where, "props": props}
            lost_shape = shapes.get(f["fn"], f["loops"]) != f["loops"]
            if any(m in e["message"] for m in UNDECIDED_MSG) or lost_shape:
                self.undecided.append(f"{f['fn']}: {e['message'][:120]}" + (" (its loops are not the ones its invariants were written for)" if lost_shape else "")); f["status"] = "undecided"
            else: self.failed.append(entry); f["status"] = "failed"
            self.output += e["text"]

    def probe(self):
        """with `assert(false)` at its start no function may verify: otherwise its precondition is contradictory"""
        forced = [f["fn"] for f in self.map["functions"] if f["status"] in ("unsupported", "undecided")]
        rs, mp, err = self.extract(forced, probe=True, tag="_probe")
        if rs is None: return []
        cmd, r, js = self.verus(rs, timeout=90, query_ms=5000)
        if "verified" not in js.get("verification-results", {}) or any(e["code"] for e in errors_of(r.stderr)): return [f"{self.name}: the reachability probe gives no answer"]
        hit = set()
        for e in errors_of(r.stderr):
            for f in mp["functions"]:
                if any(f["start"] <= s[0] <= f["end"] for s in e["spans"]): hit.add(f["fn"])
        return [f"{f['fn']}: its precondition is contradictory (assert(false) verifies)" for f in mp["functions"] if f["status"] == "verified" and f["fn"] not in hit]

def trusted(rs):
    """every assumption left in the verified text"""
    out = []
    lines = open(rs).read().splitlines()
    infn = None
    for i, l in enumerate(lines):
        if l.startswith("//@@ "): infn = None if l == "//@@ end" else l.split(" ", 2)[1]
        m = re.search(r"external_body\]?\s*(.*)", l)
        if "external_body" in l and infn not in ("verified", "used"):
            t = " ".join(x.strip() for x in lines[i:i + 3])
            m = re.search(r"fn\s+([A-Za-z0-9_]+)\s*(\([^{]*)", t)
            if m: out.append("assumed contract: " + re.sub(r"\s+", " ", (m.group(1) + m.group(2)))[:220])
        if re.search(r"\b(assume|admit)\s*\(", l): out.append("assume: " + l.strip()[:160])
        m = re.search(r"(?:axiom fn|uninterp spec fn)\s+([A-Za-z0-9_]+)", l)
        if m: out.append(("axiom " if "axiom" in l else "uninterpreted ") + m.group(1))
    return out

def prove(pid, conf, tier):
    t0 = time.time()
    res = {"failed": [], "output": "", "obligations": 0, "discharged": 0, "checker_cmd": "", "trusted_base": [], "functions": [], "solver_s": 0.0, "backend": "Verus 0.2026.09.13 (Z3)", "undecided": [], "assumptions": []}
    ok, err = build_vx()
    if not ok: res["undecided"].append(f"the extractor does not build: {err[-300:]}"); return res
    work = f"{B}/proof/{pid}"
    os.makedirs(work, exist_ok=True)
    files, err = expand(any(u.startswith("u_kit") for u in conf["proof"]))
    if files is None: res["undecided"].append(f"the source does not expand: {err[-300:]}"); return res
    tb = set(); cmds = []
    def one(name):
        u = Unit(name, files, work); u.run()
        return u, (u.probe() if u.map is not None else [])
    with concurrent.futures.ThreadPoolExecutor(4) as ex: units = list(ex.map(one, conf["proof"]))
    for u, probed in units:
        name = u.name; cmds.append(u.cmd)
        if u.map is None: res["undecided"] += u.undecided; continue
        mine = [f for f in u.map["functions"] if pid in f["props"].split(",")]
        other = u.verified + u.errors - len([f for f in u.map["functions"] if f["status"] in ("verified", "failed", "undecided")])
        bad = [f for f in u.failed if pid in f["props"]]
        names = {f["fn"] for f in mine}
        res["failed"] += [{k: v for k, v in f.items() if k != "props"} | {"unit": name} for f in bad]
        res["undecided"] += [x for x in u.undecided if x.split(": ")[0] in names or x.startswith(name + ":")]
        # a contract in the unit that belongs to other properties and fails: their checks report it
        res["undecided"] += [f"{f['function']}: its contract ({', '.join(f['props'])}) is not met: {f['obligation']}" for f in u.failed if pid not in f["props"]]
        res["output"] += u.output
        res["solver_s"] += u.solver_s
        nf = sum(len(x) for x in u.facts.values())
        if nf: res["language_facts"] = res.get("language_facts", 0) + nf; res["assumptions"].append(f"{nf} facts about {len(u.facts)} regular expressions of the source are decided on the expressions themselves (proof/relang.py, automata); that the regex engine implements them is trusted")
        used = [f["fn"] for f in u.map["functions"] if f["status"] == "used"]
        if used: res["assumptions"].append(f"{name}: the contracts of {len(used)} functions are taken from the unit that proves them")
        nd = sum(f["dropped"] for f in mine)
        if nd: res["assumptions"].append(f"{name}: {nd} statements of parser bookkeeping are left out of the extracted text: " + ", ".join(f["fn"] for f in mine if f["dropped"]))
        done = [f for f in mine if f["status"] == "verified"]
        res["obligations"] += len([f for f in mine if f["status"] not in ("assumed", "used")]) + max(other, 0)
        res["discharged"] += len(done) + max(other, 0)
        res["functions"] += [{"fn": f["fn"], "status": f["status"]} for f in mine]
        tb.update(trusted(f"{work}/{name}.rs"))
        tb.update("derived by the compiler: " + d for d in u.map["derived"] if d.startswith("PartialEq"))
        res["undecided"] += [x for x in probed if x.split(": ")[0] in names or x.startswith(name + ":")]
    res["trusted_base"] = sorted(tb)
    res["checker_cmd"] = "vx (extraction from rustc -Zunpretty=expanded), then " + "; ".join(cmds)
    if not res["functions"] or res["discharged"] == 0: res["undecided"].append("no obligation was generated")
    res["solver_s"] = round(res["solver_s"], 2)
    res["proof_wall_s"] = round(time.time() - t0, 1)
    return res

def record(units):
    """notes the loop structure the invariants were written for"""
    ok, err = build_vx(); assert ok, err
    files, err = expand(True); assert files, err
    p = f"{ROOT}/proof/shapes.json"; sh = {}
    for n in units:
        rs, mp, err = Unit(n, files, f"{B}/proof").extract(); assert rs, err
        for f in mp["functions"]: sh[f["fn"]] = f["loops"]
    json.dump(sh, open(p, "w"), indent=0, sort_keys=True)

if __name__ == "__main__":
    import sys
    if sys.argv[1] == "record": os.makedirs(f"{B}/proof", exist_ok=True); record(sys.argv[2:])
    else:
        conf = json.load(open(f"{ROOT}/checks.json"))[sys.argv[1]]
        if len(sys.argv) > 2: conf["proof"] = sys.argv[2:]
        r = prove(sys.argv[1], conf, "quick")
        r["trusted_base"] = len(r["trusted_base"]); r["output"] = r["output"][-3000:]
        print(json.dumps(r, indent=1))
