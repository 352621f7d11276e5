#!/usr/bin/env python3
"""Decides one property of cfg-noodle on /repo's current source.

  check.py PROP [--tier quick|thorough]     exit 0: holds; exit 1: VIOLATION line
  check.py --replay FILE                    reruns the concrete input a replay file names

1. extract/ pulls the functions under contract out of /repo's source, mechanically, into one
   Verus file per layer (specs/), and Verus has to accept every obligation generated from it.
2. A failed obligation of a function (or contract clause) this property rests on is a violation;
   the native harness (/verif/harness, linked against /repo's crate) searches an input that shows
   it on the real code.  The harness also stands in, bounded, for functions out of Verus' reach.
"""
import argparse, fcntl, glob, json, os, re, shutil, signal, struct, subprocess, sys, threading, time
V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo/crates/cfg-noodle"
WORK = os.path.join(V, "work")
EXTRACT = os.path.join(V, "extract", "target", "release", "extract")
VERUS_ARGS = ["--edition=2024", "--triggers-mode", "silent", "--multiple-errors", "6", "--output-json", "--time", "--error-format=json"]
RLIMIT = "100"
from layers import LAYERS, PROPS   # noqa: E402  (static description of layers and properties)

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)

class Lock:
    def __init__(self, name): os.makedirs(WORK, exist_ok=True); self.f = open(os.path.join(WORK, name + ".lock"), "w")
    def __enter__(self): fcntl.flock(self.f, fcntl.LOCK_EX); return self
    def __exit__(self, *a): fcntl.flock(self.f, fcntl.LOCK_UN)

def cargo_env():
    e = dict(os.environ); e["CARGO_NET_OFFLINE"] = "true"; e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""; e["RUST_MIN_STACK"] = "16777216"
    e["PATH"] = os.path.expanduser("~/.cargo/bin") + ":" + e.get("PATH", "")
    return e

# ------------------------------------------------------------------------------- verifier side
class Layer:
    """result of verifying one layer"""
    def __init__(self, name):
        self.name = name; self.cfg = LAYERS[name]; self.obligations = []; self.external = {}; self.tool = None
        self.fns = []; self.items = {}; self.verified = 0; self.errors = 0; self.smt_ms = 0; self.log = ""; self.lost = []
        self.rlimited = set(); self.probes = None; self.trusted = []; self.cmd = ""; self.wall = 0; self.renamed = []

def items_of(text):
    """(name, first line, last line) of the items of a generated file, in order; methods as Type::name"""
    out = []; cur = None; depth_impl = None
    for i, l in enumerate(text.split("\n"), 1):
        m = re.match(r"\s*impl(?:<.*?>)?\s+(?:[\w:<>, ']+\s+for\s+)?&?(?:'\w+ )?(\w+)", l)
        if m and not l.startswith("  "): cur = m.group(1)
        elif re.match(r"\S", l) and l.startswith(("pub ", "proof", "spec", "fn", "struct", "enum", "mod", "}")): 
            if not l.startswith("}"): cur = None
        m = re.match(r"(\s*)(?:#\[\w+\]\s*)?(?:pub )?(?:open |closed |uninterp )?(?:broadcast )?(?:(proof|spec|axiom|exec) )?(?:const )?fn (\w+)", l)
        if m:
            out.append([(cur + "::" if cur and m.group(1) else "") + m.group(3), m.group(2) or "exec", i, None])
    for a, b in zip(out, out[1:]): a[3] = b[2] - 1
    if out: out[-1][3] = 10**9
    return out

def run_layer(name, probe=None, budget=600):
    L = Layer(name); cfg = L.cfg; t0 = time.time()
    d = os.path.join(WORK, f"{name}-{os.getpid()}" + (f"-{probe}" if probe else "")); os.makedirs(d, exist_ok=True)
    gen, rep = os.path.join(d, name + ".rs"), os.path.join(d, name + ".json")
    specs = [os.path.join(V, "specs", s) for s in cfg["specs"]]
    ext = {}
    try:
        for attempt in range(8):
            cmd = [EXTRACT, "--repo", REPO + "/src", "--out", gen, "--report", rep, "--anchors", os.path.join(V, "specs", cfg["anchors"])]
            for s in specs: cmd += ["--spec", s]
            if ext: cmd += ["--external", ",".join(sorted(ext))]
            if probe: cmd += ["--probe", probe]
            p = sh(cmd)
            if p.returncode != 0:
                L.tool = "extraction failed: " + (p.stderr or p.stdout)[-2000:]; break
            r = json.load(open(rep)); L.fns = r["fns"]; L.lost = r["lost"]; L.renamed = r.get("renamed", [])
            lostfns = [l for l in r["lost"] if l["fn"] not in ext and not l["fn"].startswith(("type ", "const "))]
            new = {}
            for l in lostfns: new[l["fn"]] = l["why"]
            if new:
                ext.update(new); continue
            if any(l["fn"].startswith(("type ", "const ")) for l in r["lost"]):
                L.tool = "; ".join(f"{l['fn']}: {l['why']}" for l in r["lost"]); break
            text = open(gen).read(); lines = text.split("\n"); items = items_of(text)
            rl = "2" if probe else RLIMIT
            L.cmd = "verus <generated from /repo>/" + name + ".rs " + " ".join(VERUS_ARGS) + f" --rlimit {rl}"
            vc = ["verus", gen] + VERUS_ARGS + ["--rlimit", rl, "--num-threads", "8"]
            if probe: vc[vc.index("--multiple-errors") + 1] = "0"
            try: v = sh(vc, timeout=budget, cwd=d)
            except subprocess.TimeoutExpired: L.tool = "verifier ran out of time"; break
            except FileNotFoundError: L.tool = "verus not found"; break
            try: js = json.loads(v.stdout)
            except ValueError: js = {}
            diags = []
            for l in v.stderr.split("\n"):
                if l.startswith("{"):
                    try: diags.append(json.loads(l))
                    except ValueError: pass
            errs = [x for x in diags if x.get("level") == "error" and not x["message"].startswith("aborting")]
            def where(x):
                sp = [s for s in x["spans"] if s["is_primary"]] or x["spans"]
                while sp and sp[0].get("expansion") and sp[0]["file_name"] != gen: sp = [sp[0]["expansion"]["span"]]
                sp = [s for s in sp if s["file_name"] == gen]
                if not sp: return None, (0, 0)
                a, b = sp[0]["line_start"], sp[0]["line_end"]
                for r_ in r["ranges"]:
                    if r_["start"] <= a <= r_["end"]: return ("fn", r_["fn"]), (a, b)
                it = [i for i in items if i[2] <= a <= i[3]]
                return ("item", it[0][0] if it else "?"), (a, b)
            if v.returncode != 0 and not js.get("verification-results", {}).get("verified") and not js.get("verification-results", {}).get("errors"):
                # front-end error: the construct is outside the verifier's reach
                new = {}
                for x in errs:
                    w, _ = where(x)
                    if w and w[0] == "fn" and w[1] not in ext: new[w[1]] = "front end: " + x["message"][:200]
                if not new:
                    L.tool = "front end: " + "; ".join(x["message"][:200] for x in errs[:3]) + (v.stderr[-500:] if not errs else ""); L.log = "\n".join(x.get("rendered") or x["message"] for x in errs[:20]); break
                ext.update(new); L.log += "\n".join(x.get("rendered") or "" for x in errs[:8]); continue
            vr = js.get("verification-results", {})
            L.verified, L.errors = vr.get("verified", 0), vr.get("errors", 0)
            for m in js.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
                for f in m.get("function-breakdown", []):
                    nm = f["function"].split("::", 1)[1] if "::" in f["function"] else f["function"]
                    q = L.items.setdefault(nm, dict(mode=f.get("mode:", ""), ms=0, ok=True))
                    q["ms"] += f.get("time", 0); q["ok"] &= bool(f.get("success")); L.smt_ms += f.get("time", 0)
            for x in errs:
                w, (a, b) = where(x)
                if w is None: w = ("item", "?")
                if "rlimit" in x["message"] or "Resource limit" in x["message"] or "timed out" in x["message"] or "canceled" in x["message"]:
                    L.rlimited.add(w[1]); continue
                tags = set()
                for ln in lines[max(0, a - 1):b]:
                    m = re.search(r"//\s*@((?:C\d\d[ ,]*)+)", ln)
                    if m: tags |= set(re.findall(r"C\d\d", m.group(1)))
                L.obligations.append(dict(fn=w[1], kind=w[0], msg=x["message"], tags=sorted(tags), clause=" ".join(z.strip() for z in lines[max(0, a - 1):min(b, a + 6)]),
                                          rendered=x.get("rendered") or ""))
            L.trusted = trusted_in(text, r)
            L.probe_fns = [f["fn"] for f in r["fns"] if not f["external"]]
            break
        else:
            L.tool = "no extraction accepted after 8 attempts"
    finally:
        L.external = ext
        L.text = open(gen).read() if os.path.exists(gen) else ""
        shutil.rmtree(d, ignore_errors=True)
    L.wall = time.time() - t0
    return L

def trusted_in(text, rep):
    out = []; ls = text.split("\n")
    for i, l in enumerate(ls):
        if "external_body" in l or "external_type_specification" in l or "assume_specification" in l or re.search(r"\baxiom fn\b|\badmit\(|\bassume\(", l):
            j = i
            while j < len(ls) and not re.search(r"(fn|struct|enum|assume_specification)\s*[<\[]?", ls[j].replace("external_body", "")) and j < i + 6: j += 1
            m = re.search(r"(?:fn|struct|enum)\s+(\w+)|assume_specification.*?\[(.*?)\]", ls[j]) if j < len(ls) else None
            out.append((m.group(1) or m.group(2)).strip() if m else l.strip()[:80])
    return sorted(set(out))

def relevant(L, prop):
    """failed obligations of this layer on which the property rests"""
    res = []
    props = {f["fn"]: f["props"] for f in L.fns}
    weak = {f["fn"] for f in L.fns if f["weak"]}
    for o in L.obligations:
        if o["kind"] == "fn":
            ps = o["tags"] or props.get(o["fn"], [])
            if prop in ps: (res.append(dict(o, weak=o["fn"] in weak)))
        else:
            t = L.cfg["theorems"].get(o["fn"])
            if t is None or prop in t: res.append(dict(o, weak=False))
    return res

# ------------------------------------------------------------------------------- harness side
HBIN = None
def build_harness():
    global HBIN
    with Lock("harness"):
        env = cargo_env(); env["CARGO_TARGET_DIR"] = os.path.join(WORK, "ht")
        lock = os.path.join(V, "harness", "Cargo.lock"); keep = open(lock).read() if os.path.exists(lock) else None
        p = sh(["cargo", "build", "--offline", "--manifest-path", os.path.join(V, "harness", "Cargo.toml")], env=env)
        if keep is not None and open(lock).read() != keep: open(lock, "w").write(keep)
        if p.returncode != 0: return p.stderr[-3000:]
        dst = os.path.join(WORK, f"harness-{os.getpid()}")
        shutil.copy(os.path.join(WORK, "ht", "debug", "harness"), dst); HBIN = dst
    return None

def build_extract():
    with Lock("extract"):
        p = sh(["cargo", "build", "--release", "--offline", "--manifest-path", os.path.join(V, "extract", "Cargo.toml")], env=cargo_env())
        return p.stderr[-3000:] if p.returncode else None

def run_harness(plan, seed, secs, prop, base=0):
    """plan: engine of each process; returns (fails {prop: (engine, seed, msg)}, totals)"""
    procs = []
    n = len(plan); scratch = os.path.join(WORK, f"h-{os.getpid()}"); os.makedirs(scratch, exist_ok=True)
    for i, e in enumerate(plan):
        s0 = (seed * 1_000_003 + base + i + 1) & 0x7FFFFFFFFFFFFFFF
        pf = os.path.join(scratch, f"prog{i}")
        procs.append((e, s0, pf, subprocess.Popen([HBIN, "run", "--engine", e, "--seed", str(s0), "--stride", str(n), "--secs", str(secs), "--until", prop, "--progress", pf],
                      stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, cwd=scratch)))
    fails = {}; tot = dict(histories=0, operations=0, checks=0, by_engine={})
    for e, s0, pf, p in procs:
        try: out, _ = p.communicate(timeout=secs + 60)
        except subprocess.TimeoutExpired: p.kill(); out, _ = p.communicate()
        for l in out.split("\n"):
            m = re.match(r"FAIL (\w+) (\w+) (\d+) (.*)", l)
            if m: fails.setdefault(m.group(1), (m.group(2), int(m.group(3)), m.group(4)))
            m = re.match(r"DONE engine=(\w+) runs=(\d+) ops=(\d+) checks=(\d+)", l)
            if m:
                tot["histories"] += int(m.group(2)); tot["operations"] += int(m.group(3)); tot["checks"] += int(m.group(4))
                tot["by_engine"][e] = tot["by_engine"].get(e, 0) + int(m.group(2))
        if p.returncode not in (0, 1):
            # the process died: which history was it, and does it die again?
            try: s = struct.unpack("<Q", open(pf, "rb").read(8))[0]
            except Exception: s = s0
            q = sh([HBIN, "replay", "--engine", e, "--seed", str(s)], timeout=120)
            if q.returncode not in (0, 1):
                for pr in ("C19", "C15"): fails.setdefault(pr, (e, s, f"the process dies (status {q.returncode})"))
    shutil.rmtree(scratch, ignore_errors=True)
    return fails, tot

def replay_text(e, s):
    p = sh([HBIN, "replay", "--engine", e, "--seed", str(s)], timeout=120)
    return p.stdout

def do_replay(path):
    t = open(path).read(); m = re.search(r"^# input: engine=(\w+) seed=(\d+)", t, re.M)
    if not m: print(t); print("(no concrete input in this replay)"); return 0
    err = build_harness()
    if err: print(err); return 2
    p = sh([HBIN, "replay", "--engine", m.group(1), "--seed", m.group(2)]); print(p.stdout); os.remove(HBIN)
    return p.returncode

# ------------------------------------------------------------------------------- main
def known_findings():
    out = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(C\d\d) match=(\S+) (.*)", l)
            if m: out.append(m.groups())
    return out

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("prop", nargs="?"); ap.add_argument("--tier"); ap.add_argument("--replay"); ap.add_argument("--no-verus", action="store_true")
    a = ap.parse_args()
    if a.replay: return do_replay(a.replay)
    prop = a.prop; tier = a.tier or os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if tier not in ("quick", "thorough"): tier = "quick"
    P = PROPS[prop]; t0 = time.time()
    os.makedirs(WORK, exist_ok=True); os.makedirs(os.path.join(V, "replays"), exist_ok=True); os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    for f in glob.glob(os.path.join(V, "replays", prop + "-*")): os.remove(f)
    herr = {}
    th = threading.Thread(target=lambda: herr.update(e=build_harness())); th.start()
    layers = {}; probes = {}
    eerr = build_extract()
    if not a.no_verus:
        for n in P["layers"]:
            if eerr: layers[n] = Layer(n); layers[n].tool = "extractor did not build: " + eerr[-500:]
            else: layers[n] = run_layer(n)
        if not eerr:
            for n in P["layers"]:
                if layers[n].tool: continue
                for k in (("entry", "loop") if tier == "thorough" else ("entry",)): probes[n, k] = run_layer(n, probe=k)
    th.join()
    have_h = herr.get("e") is None
    if not have_h and all(L.tool for L in layers.values()):
        print("check could not run: neither the verifier nor the harness can process this tree\n" + str(herr["e"])[-1500:]); return 2
    # --- verdict of the verifier
    obl = []; undecided = []
    for n, L in layers.items():
        for o in relevant(L, prop):
            (undecided if o["weak"] else obl).append(dict(o, layer=n))
        props = {f["fn"]: f["props"] for f in L.fns}
        if L.tool: undecided.append(dict(layer=n, fn="*", msg=L.tool))
        for f, why in L.external.items():
            if f not in props or prop in props[f] : undecided.append(dict(layer=n, fn=f, msg=why))
        for f in L.rlimited:
            if f not in props or prop in props[f]: undecided.append(dict(layer=n, fn=f, msg="resource limit"))
    # --- vacuity probes: assert(false) must fail everywhere
    vac = []
    nprobe = 0
    for (n, k), L in probes.items():
        if L.tool: continue
        failed = {o["fn"] for o in L.obligations} | L.rlimited
        for f in (L.probe_fns if k == "entry" else []):
            nprobe += 1
            if f not in failed: vac.append(f"{n}: the contract of {f} admits assert(false) at {k}")
        if k == "loop": nprobe += len(failed)
    for v in vac: undecided.append(dict(layer="probe", fn="*", msg=v))
    # --- the native harness
    fails, tot = {}, {}
    q = P["harness"]
    if have_h:
        secs = q["secs"][0 if tier == "quick" else 1]
        fails, tot = run_harness(q["plan"], seed, secs, prop)
        if (obl or undecided) and prop not in fails:      # look harder for a concrete input
            f2, t2 = run_harness(q["plan"], seed, 60 if tier == "quick" else 240, prop, base=500_000_000)
            fails.update({k: v for k, v in f2.items() if k not in fails})
            for k in ("histories", "operations", "checks"): tot[k] += t2[k]
    known = [(p_, m_, w_) for p_, m_, w_ in known_findings() if p_ == prop]
    rc = 0; nviol = 0
    if prop in fails:
        e, s, msg = fails[prop]
        k = [x for x in known if re.search(x[1], msg)]
        if k: print(f"KNOWN-FINDING: property={prop} {k[0][2]}")
        else:
            path = os.path.join(V, "replays", f"{prop}-{e}-{s}.txt")
            with open(path, "w") as f:
                f.write(f"# property {prop}: {msg}\n# input: engine={e} seed={s}\n# rerun: python3 /verif/check.py --replay {path}\n")
                for o in obl: f.write(f"# failed obligation: {o['layer']}::{o['fn']}: {o['msg']}: {o['clause']}\n")
                f.write("\n--- the failing history on the real code\n" + replay_text(e, s))
                for o in obl: f.write("\n--- verifier output\n" + o["rendered"])
            print(f"failing input: engine={e} seed={s}: {msg}")
            for o in obl[:6]: print(f"failed obligation: {o['layer']}::{o['fn']}: {o['msg']}: {o['clause'][:160]}")
            print(f"VIOLATION property={prop} replay={path}"); rc = 1; nviol = 1
    elif obl:
        path = os.path.join(V, "replays", f"{prop}-obligation.txt")
        with open(path, "w") as f:
            f.write(f"# property {prop}: the verifier rejects these obligations, generated from /repo's current source\n")
            for o in obl: f.write(f"# failed obligation: {o['layer']}::{o['fn']}: {o['msg']}: {o['clause']}\n")
            f.write(f"# no failing input found by the native harness: {json.dumps(tot)}\n")
            for o in obl: f.write("\n--- verifier output\n" + o["rendered"])
        for o in obl[:8]: print(f"failed obligation: {o['layer']}::{o['fn']}: {o['msg']}: {o['clause'][:160]}")
        print(f"VIOLATION property={prop} replay={path} no-failing-input-found"); rc = 1; nviol = len(obl)
    for u in undecided: print(f"not proved on this tree ({u['layer']}::{u['fn']}): {u['msg'][:300]}")
    # --- evidence
    fns = []; nobl = ndis = 0; smt = 0; trusted = []; assumptions = list(P.get("assumptions", []))
    for n, L in layers.items():
        bad = {o["fn"] for o in L.obligations} | L.rlimited
        cnt = dict(L.items)
        for f in L.fns:
            if prop in f["props"] or f["fn"].split("::")[-1] in P.get("functions", []):   # the latter: one tagged clause of the contract
                fns.append(dict(layer=n, fn=f["fn"], file=f["file"], line=f["line"], source_hash=f["hash"], proved=not f["external"] and f["fn"] not in bad,
                                back_end="verus/z3", loops=f["loops"], await_points=f["awaits"], inlined_callees=f["inlined"], normalisations=f["dropped"]))
                nobl += 1; ndis += (not f["external"] and f["fn"] not in bad)
        for nm, it in cnt.items():
            short = nm.split("::")[-1]
            if it["mode"] != "proof" and short not in L.cfg["theorems"]: continue
            t = L.cfg["theorems"].get(short)
            if t is not None and prop not in t: continue
            nobl += 1; ndis += it["ok"]
        smt += L.smt_ms; trusted += [f"{n}: {t}" for t in L.trusted]; assumptions += L.cfg.get("assumptions", [])
        if L.tool: nobl += 1
    level = P["level"]
    cov = dict(obligations=nobl, discharged=ndis, checker_cmd="; ".join(L.cmd for L in layers.values() if L.cmd) or "none",
               trusted_base=trusted or ["see assumptions"], functions_under_contract=fns,
               verifier_items={n: dict(verified=L.verified, errors=L.errors, wall_s=round(L.wall, 1)) for n, L in layers.items()},
               solver_s=round(smt / 1000, 2), undecided=[f"{u['layer']}::{u['fn']}: {u['msg'][:200]}" for u in undecided],
               theorems=P.get("theorems", []), must_fail_probes=nprobe, renamed=[r for L in layers.values() for r in L.renamed],
               bounded_harness=dict(tot, engines=q["plan"], seeds_from=seed * 1_000_003 + 1, note="concrete random histories on the compiled crate; bounded, never counted as proved", available=have_h),
               bounded_parts=P.get("bounded", []))
    cov["evaluations"] = tot.get("histories", 0)
    if level != "proof":
        cov["distinct_nontrivial"] = tot.get("histories", 0); cov["rule"] = "one seed = one history; seeds are distinct; every history performs at least one library call and its checks"
        cov["samples"] = [replay_text(q["plan"][0], seed * 1_000_003 + 1)[:1500]] if have_h else []
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions, wall_s=round(time.time() - t0, 1), violations=nviol)
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print(f"{prop}: {ndis}/{nobl} obligations discharged, {len(fns)} functions under contract, {nprobe} must-fail probes; harness {tot.get('histories', 0)} histories; {time.time() - t0:.0f} s")
    if HBIN:
        try: os.remove(HBIN)
        except OSError: pass
    return rc

if __name__ == "__main__":
    sys.exit(main())
