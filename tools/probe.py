#!/usr/bin/env python3
"""Runs checks against many small source changes, in scratch copies of /repo and /verif (/tmp/pr/w<i>).
usage: probe.py FILE.py [-w WORKERS] [-c C01,C02|ALL|OWN] [ID...]
FILE.py defines P = {id: (property, [(file, old, new), ...])}. Bugs are run on their own property's check
(OWN); refactorings (property "none") on every check."""
import argparse, os, re, shutil, subprocess, sys, threading, queue, importlib.util, json
ap = argparse.ArgumentParser(); ap.add_argument("file"); ap.add_argument("-w", type=int, default=2); ap.add_argument("-c", default="OWN"); ap.add_argument("--no-tests", action="store_true"); ap.add_argument("ids", nargs="*")
a = ap.parse_args()
s = importlib.util.spec_from_file_location("p", a.file); m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
P = getattr(m, "P", None) or {i: (b["property"], b["edits"]) for i, b in m.BUGS.items()}
ALL = [c["property"] for c in json.load(open("/verif/MANIFEST.json"))["checks"]]
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def prepare(i):
    d = f"/tmp/pr/w{i}"; os.makedirs(d, exist_ok=True)
    if not os.path.exists(f"{d}/repo"): sh(f"cp -a /repo {d}/repo")
    head = sh("git -C /repo rev-parse HEAD").stdout.strip()
    sh(f"git -C {d}/repo fetch -q /repo HEAD; git -C {d}/repo checkout -q -- .; git -C {d}/repo reset -q --hard {head}")
    sh(f"rsync -a --delete --exclude target --exclude .git --exclude seeded --exclude replays --exclude evidence /verif/ {d}/verif/ || (rm -rf {d}/verif.new; mkdir -p {d}/verif; cd /verif && tar cf - --exclude=./target --exclude=./.git --exclude=./seeded --exclude=./replays --exclude=./evidence . | tar xf - -C {d}/verif)")
    sh(f"sed -i 's,\"/repo/,\"{d}/repo/,' {d}/verif/harness/Cargo.toml; sed -i 's,cd /repo,cd {d}/repo,' {d}/verif/check.sh")
    return d
q = queue.Queue()
for i in (a.ids or P): q.put(i)
def work(n):
    d = prepare(n); r = f"{d}/repo"
    while True:
        try: i = q.get_nowait()
        except queue.Empty: return
        prop, edits = P[i][:2]
        sh(f"git -C {r} checkout -q -- .")
        ok = True
        for f, old, new in edits:
            t = open(f"{r}/{f}").read()
            if t.count(old) != 1: print(f"{i}: EDIT in {f} matches {t.count(old)} times: {old[:50]!r}", flush=True); ok = False; break
            open(f"{r}/{f}", "w").write(t.replace(old, new))
        if not ok: continue
        tests = ""
        if not a.no_tests:
            t = sh(". /opt/vp/env.sh; cargo test --workspace --no-fail-fast --offline 2>&1", cwd=r)
            passed = sum(int(x) for x in re.findall(r"(\d+) passed", t.stdout))
            tests = f"tests {passed}"
            if t.returncode or passed < 37:
                print(f"{i}: TESTS FAIL {passed}", [l for l in t.stdout.splitlines() if l.startswith(("error", "test ")) and " ok" not in l][:4], flush=True)
                if passed == 0: print(t.stdout[-1200:], flush=True)
                continue
        checks = ALL if prop == "none" or a.c == "ALL" else [prop] if a.c == "OWN" else a.c.split(",")
        env = dict(os.environ, NO_TSAN="1", VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
        res = []
        for c in checks:
            t = sh(f"timeout 900 ./check.sh {c}", cwd=f"{d}/verif", env=env)
            v = re.search(r"VIOLATION.*", t.stdout)
            res.append((c, t.returncode, v.group(0) if v else (t.stdout + t.stderr)[-300:] if t.returncode else ""))
        bad = [x for x in res if x[1] != 0]
        if prop == "none": print(f"{i}: {tests} {'QUIET' if not bad else 'ALARM'} {[(x[0], x[1], x[2][:250]) for x in bad]}", flush=True)
        else:
            msg = ""
            print(f"{i}: {prop} {tests} {'caught' if any(x[1] == 1 for x in res) else 'MISSED'} {[(x[0], x[1], '' if x[1] == 1 else x[2][:300]) for x in bad]}", flush=True)
    sh(f"git -C {r} checkout -q -- .")
ts = [threading.Thread(target=work, args=(n,)) for n in range(a.w)]
[t.start() for t in ts]; [t.join() for t in ts]
