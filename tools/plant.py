#!/usr/bin/env python3
"""plant.py SPEC.py [id...]: makes planted bugs from a spec file and confirms each in a scratch copy.
A spec defines BUGS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo, features)].
A bug is kept in /verif/seeded/<id>/ if it builds, passes the tests, and its demo tells the trees apart."""
import json, os, re, shutil, subprocess, sys, runpy
V = "/verif/seeded"
COPY = "/tmp/plant/repo"
DEMO_SH = '''#!/bin/bash
# Run with the repository as working directory. Exit 0: behaves as it should.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
d="$(mktemp -d)" || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock" 2>/dev/null
cat > "$d/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[profile.dev]
debug = false
[dependencies]
vinezombie = {{ path = "$repo", default-features = false, features = [{features}] }}
{deps}TOML
cd "$d" || exit 3
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS
cargo build --offline -q 2>"$d/log" || {{ tail -n 40 "$d/log"; exit 3; }}
timeout 120 ./target/debug/demo
'''
def sh(cmd, cwd, timeout=900, env=None):
    e = dict(os.environ); e.update(env or {})
    return subprocess.run(cmd, shell=True, cwd=cwd, timeout=timeout, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
def fresh():
    os.makedirs("/tmp/plant", exist_ok=True)
    if not os.path.isdir(COPY):
        subprocess.run(["cp", "-a", "/repo", COPY], check=True)
    sh("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq", COPY)
base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if False else None
def tests():
    r = sh("cargo test --workspace --all-features --offline --no-fail-fast 2>&1 | grep -E '^test |error|FAILED|test result'", COPY)
    bad = [l for l in r.stdout.splitlines() if re.match(r"test .* FAILED", l) or l.startswith("error")]
    ok = "test result: ok" in r.stdout
    c = sh("cargo check --offline && cargo check --offline --no-default-features && cargo check --offline --no-default-features --features client", COPY)
    if c.returncode: bad.append(c.stdout[-1500:])
    return (ok and not bad), bad
spec = runpy.run_path(sys.argv[1])
want = set(sys.argv[2:])
for b in spec["BUGS"]:
    if want and b["id"] not in want: continue
    if not want and os.path.isdir(f"{V}/{b['id']}"): continue
    fresh()
    d = f"/tmp/plant/{b['id']}"
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    bad = False
    for f, old, new in b["edits"]:
        p = f"{COPY}/{f}"; s = open(p).read()
        if s.count(old) != 1:
            print(b["id"], "edit matches", s.count(old), "times in", f); bad = True; break
        open(p, "w").write(s.replace(old, new))
    if bad: continue
    ok, why = tests()
    if not ok:
        print(b["id"], "REJECTED by build/tests:", "\n".join(why)); continue
    patch = sh("git diff", COPY).stdout
    open(f"{d}/patch.diff", "w").write(patch)
    feats = ", ".join(f'"{x}"' for x in b.get("features", ["client", "base64"]))
    open(f"{d}/demo.sh", "w").write(DEMO_SH.format(features=feats, deps="".join(x + "\n" for x in b.get("deps", []))))
    os.chmod(f"{d}/demo.sh", 0o755)
    open(f"{d}/demo.rs", "w").write(b["demo"])
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    r1 = sh(f"bash {d}/demo.sh", COPY, 300)
    r0 = sh(f"bash {d}/demo.sh", "/repo", 300)
    if r0.returncode != 0 or r1.returncode in (0, 3):
        print(b["id"], "REJECTED demo: unchanged", r0.returncode, "patched", r1.returncode, "\n", r0.stdout[-1500:], "\n--\n", r1.stdout[-800:]); continue
    shutil.rmtree(f"{V}/{b['id']}", ignore_errors=True)
    shutil.move(d, f"{V}/{b['id']}")
    print(b["id"], "kept; patched demo says:", r1.stdout.strip().splitlines()[-3:] )
