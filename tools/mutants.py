#!/usr/bin/env python3
"""Mechanical mutants: small textual changes to every line of /repo's non-test code, run in the scratch
copies of tools/probe.py. Each that compiles and passes the tests is shown to the checks (those of its file
first, stopping at the first that sees it).
usage: mutants.py [-w WORKERS] [--skip N] [--only FILE-SUBSTRING] [--list]"""
import argparse, os, re, subprocess, threading, queue, sys; ARGV = sys.argv[1:]
sys.argv = ["x", "/verif/tools/probes1.py", "none-of-them"]
src = open("/verif/tools/probe.py").read().split("q = queue.Queue()")[0]
exec(src.replace('a = ap.parse_args()', 'b = ap.parse_args()').replace('a.file', 'b.file'))
FILES = {
 "ucan/src/builder.rs": "C17 C04 C18 C16", "ucan/src/chain.rs": "C07 C08 C09 C10 C11 C12 C27 C26", "ucan/src/ucan.rs": "C01 C02 C03 C05 C06 C07 C04",
 "ucan/src/store.rs": "C21 C27", "ucan/src/time.rs": "C06 C17", "ucan/src/serde.rs": "C02 C05 C17", "ucan/src/capability/caveats.rs": "C14 C13", "ucan/src/capability/data.rs": "C16 C03 C02",
 "ucan/src/capability/proof.rs": "C11 C15 C13", "ucan/src/capability/semantics.rs": "C13 C15 C09 C11", "ucan/src/crypto/did.rs": "C19 C01 C26", "ucan/src/crypto/key.rs": "C20 C04",
 "ucan/src/ipld/principle.rs": "C24 C22", "ucan/src/ipld/signature.rs": "C23 C22", "ucan/src/ipld/ucan.rs": "C22", "ucan-key-support/src/ed25519.rs": "C20 C19 C01",
 "ucan-key-support/src/p256.rs": "C20 C19 C01", "ucan-key-support/src/rsa.rs": "C20 C19 C01",
}
SUB = [(r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" && ", " || "), (r" \|\| ", " && "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
 (r"\.any\(", ".all("), (r"\.all\(", ".any("), (r"\.max\(", ".min("), (r"\.min\(", ".max("), (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"), (r"\.is_empty\(\)", ".is_empty() == false"),
 (r"\.iter\(\)", ".iter().skip(1)"), (r"\.iter\(\)", ".iter().take(1)"), (r"\.iter\(\)", ".iter().rev()"), (r"\.into_iter\(\)", ".into_iter().take(1)"), (r"\.into_iter\(\)", ".into_iter().skip(1)"), (r"\.enumerate\(\)", ".enumerate().skip(1)"),
 (r"\bcontinue\b", "break"), (r"\bbreak\b", "continue"), (r" \+ ", " - "), (r" - ", " + "), (r"!(\w)", r"\1"), (r"\.to_string\(\)", ".to_string().to_lowercase()"), (r"\.to_string\(\)", ".trim().to_string()"),
 (r"\bif (.*) \{$", r"if true {"), (r"\bif (.*) \{$", r"if false {"), (r"\.saturating_add\(", ".wrapping_add("), (r"\.take\(2\)", ".take(3)"), (r"_ => false", "_ => true"), (r"_ => true", "_ => false"), (r"Some\((\w+)\)\s*$", "None"),
 (r"\.unwrap_or_default\(\)", ".unwrap()"), (r"\.filter\(", ".filter(|_| true).filter("), (r"=> return None", "=> ()"), (r"Some\(_\), None\) => false", "Some(_), None) => true")]
def mutants():
    out = []
    for f in FILES:
        L = open(f"/repo/{f}").read().split("\n")
        n = next((i for i, l in enumerate(L) if l.strip().startswith("#[cfg(test)]") or l.strip() == "mod tests {"), len(L))
        for i in range(n):
            l = L[i]; s = l.strip()
            if not s or s.startswith(("//", "use ", "#[", "pub use", "mod ", "pub mod", "///")): continue
            seen = set()
            def add(k, new):
                if new != l and new not in seen: seen.add(new); out.append((f"{os.path.basename(os.path.dirname(f))}/{os.path.basename(f)}:{i+1}:{k}", f, i, l, new))
            for k, (p, r) in enumerate(SUB):
                for m in re.finditer(p, l):
                    if "anyhow!(" in l and l.find("anyhow!(") < m.start(): continue
                    if "->" in l[max(0, m.start()-1):m.end()+1]: continue
                    add(f"s{k}", l[:m.start()] + m.expand(r) + l[m.end():])
            for m in re.finditer(r"(?<![\w.\"#])(0x[0-9a-f]+|\d+)(?![\w.\"])", l):
                if "anyhow!" in l: continue
                v = m.group(1); x = int(v, 0)
                for y in (x + 1, x - 1):
                    if y >= 0: add("n", l[:m.start()] + (hex(y) if v.startswith("0x") else str(y)) + l[m.end():])
            for m in re.finditer(r'"([^"{}]*)"', l):
                if any(w in l for w in ("anyhow!", "context(", "fail(", "warn!", "note =", ".field(", "expect(")): continue
                add("t", l[:m.start()] + '"' + m.group(1) + 'x"' + l[m.end():])
            if s.endswith(";") and not s.startswith(("let ", "return", "}", "type ", "const ", ")", ".")) and s.count("(") == s.count(")"):
                add("d", l[:len(l) - len(l.lstrip())] + ";")
            if s.endswith("?;") and s.count("(") == s.count(")") and not s.startswith(("let", ".", "}")): add("q", re.sub(r"\?;$", ".ok();", l))
            if s.endswith("?,") and s.count("(") == s.count(")"): pass
            if s.startswith("return Err(") and s.endswith(";"): add("r", l[:len(l) - len(l.lstrip())] + ";")
            if re.match(r"(Some\(.*\)|None) => .*,$", s):
                h, t = s[:-1].split(" => ", 1)
                if t in ("true", "false"): pass
    return out
import argparse as _a
ap = _a.ArgumentParser(); ap.add_argument("-w", type=int, default=4); ap.add_argument("--only", default=""); ap.add_argument("--list", action="store_true"); ap.add_argument("--ids", default=""); ap.add_argument("--all", action="store_true"); ap.add_argument("--done", default="")
a = ap.parse_args(ARGV)
M = [m for m in mutants() if a.only in m[1]]
if a.ids: M = [m for m in M if m[0] in a.ids.split(",")]
if a.list: print("\n".join(f"{m[0]}  {m[3].strip()}  ->  {m[4].strip()}" for m in M)); print(len(M)); sys.exit()
done = set(l.split(': ')[0] for l in open(a.done)) if a.done else set()
M = [m for m in M if m[0] not in done]
import random; random.Random(1).shuffle(M)
q = queue.Queue()
for m in M: q.put(m)
def work(n):
    d = prepare(n); r = f"{d}/repo"
    env = dict(os.environ, NO_TSAN="1", VERIF_SEED="1")
    while True:
        try: name, f, i, old, new = q.get_nowait()
        except queue.Empty: return
        sh(f"git -C {r} checkout -q -- .")
        L = open(f"{r}/{f}").read().split("\n"); assert L[i] == old; L[i] = new
        open(f"{r}/{f}", "w").write("\n".join(L))
        t = sh(". /opt/vp/env.sh; timeout 120 cargo test --workspace --no-fail-fast --offline 2>&1", cwd=r)
        passed = sum(int(x) for x in re.findall(r"(\d+) passed", t.stdout))
        if t.returncode or passed < 37: print(f"{name}: {'tests' if passed else 'compile'}", flush=True); continue
        first = FILES[f].split(); hit = None; odd = []
        for c in first + (a.all and [c for c in ALL if c not in first] or []):
            t = sh(f"timeout 300 ./check.sh {c}", cwd=f"{d}/verif", env=env)
            if t.returncode == 1: hit = c; break
            if t.returncode: odd.append((c, t.returncode))
        print(f"{name}: {'caught ' + hit if hit else 'SURVIVED'} {odd or ''} | {old.strip()}  ->  {new.strip()}", flush=True)
    
ts = [threading.Thread(target=work, args=(n,)) for n in range(a.w)]
[t.start() for t in ts]; [t.join() for t in ts]
