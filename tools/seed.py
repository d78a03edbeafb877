#!/usr/bin/env python3
"""Makes and confirms /verif/seeded/<id>/ from tools/bugs.py (scratch copy: /tmp/sc/repo; demo template: /tmp/dm).
usage: seed.py [ID...]"""
import json, os, re, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(__file__))
from bugs import BUGS
SC = "/tmp/sc/repo"; DM = "/verif/tools/demo"; OUT = "/verif/seeded"
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
DEMO = '''#!/bin/bash
# Run with the repository as working directory: exit 0 when the property holds.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf -- "$T"' EXIT
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
mkdir "$T/src"
sed "s,REPO,$R," "$D/Cargo.toml.in" >"$T/Cargo.toml"
cp "$D/Cargo.lock" "$T/"
cp "$D/main.rs" "$D/demo.rs" "$T/src/"
cd "$T" || exit 2
CARGO_TARGET_DIR=${DEMO_TARGET:-$T/target} timeout 280 cargo run --offline -q
'''
head = sh("git -C /repo rev-parse HEAD").stdout.strip()
sh(f"git -C {SC} checkout -q -- . && git -C {SC} pull -q /repo HEAD; git -C {SC} reset -q --hard {head}")
base = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.split()[0]
ids = sys.argv[1:] or list(BUGS)
for i in ids:
    b = BUGS[i]
    sh(f"git -C {SC} checkout -q -- .")
    ok = True
    for f, old, new in b["edits"]:
        p = f"{SC}/{f}"; s = open(p).read()
        if s.count(old) != 1: print(i, "EDIT does not match once:", f, s.count(old)); ok = False; break
        open(p, "w").write(s.replace(old, new))
    if not ok: continue
    diff = sh(f"git -C {SC} diff").stdout
    orig = sh(f"git -C {SC} diff {base} {head} -- " + " ".join({f for f, _, _ in b["edits"]})).stdout
    mine = {l[1:] for l in orig.splitlines() if l.startswith("+")}
    removed = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
    if not any(l.strip() and l not in mine for l in removed): print(i, "WARNING: removes no original line")
    t = sh(". /opt/vp/env.sh; cargo test --workspace --no-fail-fast --offline 2>&1", cwd=SC)
    passed = sum(int(x) for x in re.findall(r"(\d+) passed", t.stdout)); failed = sum(int(x) for x in re.findall(r"(\d+) failed", t.stdout))
    if t.returncode or passed < 37:
        print(i, "TESTS", passed, failed, "\n".join([l for l in t.stdout.splitlines() if l.startswith(("error", "test ")) and "ok" not in l][:8])); 
        if t.returncode and passed == 0: print(t.stdout[-1500:])
        continue
    d = f"{OUT}/{i}"; os.makedirs(d, exist_ok=True)
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/demo.sh", "w").write(DEMO); os.chmod(f"{d}/demo.sh", 0o755)
    for f in ("Cargo.toml.in", "Cargo.lock", "main.rs"): shutil.copy(f"{DM}/{f}", d)
    open(f"{d}/demo.rs", "w").write(b["demo"].strip() + "\n")
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    env = dict(os.environ, DEMO_TARGET="/tmp/dm-target")
    bad = sh(f"timeout 290 {d}/demo.sh", cwd=SC, env=env)
    sh(f"git -C {SC} checkout -q -- .")
    good = sh(f"timeout 290 {d}/demo.sh", cwd=SC, env=env)
    verdict = "OK" if bad.returncode and not good.returncode and "could not compile" not in bad.stderr else "BAD"
    print(i, b["property"], verdict, "tests", passed, "patched:", bad.returncode, bad.stderr.strip().splitlines()[-1:] , "clean:", good.returncode, "" if verdict == "OK" else good.stderr[-1500:] + bad.stderr[-1500:])
    if verdict != "OK": shutil.rmtree(d)
