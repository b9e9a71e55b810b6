#!/usr/bin/env python3
"""mk.py SPEC.py...: each SPEC defines id, prop, needs, breaks, edits=[(file,old,new)], demo (rust source of main.rs). Verifies in a scratch copy and writes /verif/seeded/<id>."""
import sys, os, subprocess, json, shutil, re
DEMO_SH = '''#!/bin/bash
# run with cwd = the repository; exit 0 if the property holds in the demonstrated situation
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$w"' EXIT
mkdir "$w/src" && cp "$here/demo.rs" "$w/src/main.rs" || exit 2
cat > "$w/Cargo.toml" <<END
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[dependencies]
metrix = { path = "$repo" }
futures = "0.3"
[workspace]
END
[ -f "$repo/Cargo.lock" ] && sed 's/^name = "metrix"$/name = "metrix"/' "$repo/Cargo.lock" > "$w/Cargo.lock"
cd "$w" && CARGO_TARGET_DIR="$w/target" cargo build --offline -q 2> "$w/build.log" || { cat "$w/build.log"; exit 3; }
timeout 200 "$w/target/debug/demo"
'''
def sh(cmd, cwd, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
base = json.load(open("/opt/vp/BASELINE.json")) if os.path.exists("/opt/vp/BASELINE.json") else None
for spec in sys.argv[1:]:
    ns = {}
    exec(open(spec).read(), ns)
    d = "/verif/seeded/" + ns["id"]
    os.makedirs(d, exist_ok=True)
    sr = "/tmp/seed/repo"
    shutil.rmtree(sr, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", sr], check=True)
    open(d + "/demo.sh", "w").write(DEMO_SH); os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.rs", "w").write(ns["demo"])
    ok = sh(d + "/demo.sh", sr)
    if ok.returncode != 0:
        print(ns["id"], "demo FAILS on the unchanged tree", ok.returncode, ok.stdout[-1500:]); continue
    for f, a, b in ns["edits"]:
        p = os.path.join(sr, f); s = open(p).read()
        assert s.count(a) == 1, (ns["id"], f, s.count(a), a)
        open(p, "w").write(s.replace(a, b))
    diff = sh("git diff", sr).stdout
    open(d + "/patch.diff", "w").write(diff)
    t = sh("cargo test --offline 2>&1 | tail -400", sr)
    m = re.findall(r"test result: (\w+)\. (\d+) passed; (\d+) failed", t.stdout)
    if not m or any(x[0] != "ok" for x in m):
        print(ns["id"], "TESTS", m, t.stdout[-1500:]); continue
    bad = sh(d + "/demo.sh", sr)
    if bad.returncode in (0, 2, 3):
        print(ns["id"], "demo PASSES with the change", bad.returncode, bad.stdout[-800:]); continue
    json.dump({"property": ns["prop"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print(ns["id"], "ok; demo with the change:", bad.returncode, bad.stdout.strip()[-200:])
