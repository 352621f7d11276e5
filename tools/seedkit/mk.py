#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from bugs.py and demos/, and confirms each in a scratch copy.
mk.py [id...]   (confirms: applies, builds, tests pass, demo passes before and fails after)"""
import json, os, shutil, subprocess, sys
K = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(os.path.dirname(K))
sys.path.insert(0, K)
from bugs import BUGS
S = "/tmp/seedmk"
def sh(c, **k): return subprocess.run(c, shell=True, text=True, capture_output=True, **k)
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true")
def main():
    ids = [a for a in sys.argv[1:] if not a.startswith("-")] or list(BUGS)
    if os.path.exists(S): shutil.rmtree(S)
    sh(f"cp -a /repo {S}")
    ok = True
    for i in ids:
        b = BUGS[i]; d = f"{V}/seeded/{i}"
        sh(f"git -C {S} checkout -- .")
        for f, old, new in b["edits"]:
            p = f"{S}/crates/cfg-noodle/src/{f}"; t = open(p).read()
            if t.count(old) != 1: print(i, "edit matches", t.count(old), "times:", old[:60]); ok = False; break
            open(p, "w").write(t.replace(old, new))
        else:
            os.makedirs(d, exist_ok=True)
            open(f"{d}/patch.diff", "w").write(sh(f"git -C {S} diff").stdout)
            json.dump({k: b[k] for k in ("property", "needs", "what_it_breaks")}, open(f"{d}/meta.json", "w"), indent=1)
            for f in ("kit.rs", "med.rs", "util.rs", "vals.rs", "demo.sh", "Cargo.toml.in", "Cargo.lock"): shutil.copy(f"{K}/{f}", d)
            os.chmod(f"{d}/demo.sh", 0o755)
            body = open(f"{K}/demos/{i}.rs").read()
            open(f"{d}/main.rs", "w").write("mod kit;\nmod med;\nmod util;\nmod vals;\n#[allow(unused_imports)]\nuse kit::*;\n" + body)
            t = sh("cd crates/cfg-noodle && timeout 900 cargo test --locked --offline --features std --no-fail-fast -- --test-threads 8", cwd=S, env=ENV)
            r = sum(l.count("test result: ok") for l in t.stdout.splitlines()); fl = "FAILED" in t.stdout or t.returncode
            a = sh(f"bash {d}/demo.sh", cwd=S); sh(f"git -C {S} checkout -- .")
            u = sh(f"bash {d}/demo.sh", cwd=S)
            good = not fl and a.returncode not in (0, 8, 9) and u.returncode == 0
            ok &= good
            print(f"{i}: {'OK' if good else 'BAD'} tests {'pass' if not fl else 'FAIL'}; demo changed={a.returncode} unchanged={u.returncode}; {a.stderr.strip().splitlines()[-1:] }", flush=True)
            if not good: print((t.stdout + t.stderr)[-1500:] if fl else (a.stdout + a.stderr)[-1500:] + u.stdout[-1500:] + u.stderr[-800:])
    shutil.rmtree(S)
    sys.exit(not ok)
main()
