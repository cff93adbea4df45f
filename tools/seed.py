#!/usr/bin/env python3
"""seed.py ID PROPERTY EDITS.py: makes seeded/ID from a python file that defines
edits = [(file, old, new)], needs, breaks, demo (a rust program) or demo_py (a Python one). Everything is
confirmed in a scratch copy of /repo: compiles, passes the stable tests, and the
demo fails with the change only."""
import json, os, shutil, subprocess, sys, tempfile
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid, prop, spec = sys.argv[1:4]
ns = {}
exec(open(spec).read(), ns)
DEMO = '''#!/bin/bash
# exit 0: behaves as it should; 1: the property is broken
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
scratch="$(mktemp -d)"
trap 'rm -rf "${scratch:?}"' EXIT
mkdir -p "$scratch/src"
cp "$here/demo.rs" "$scratch/src/main.rs"
cp "$repo/Cargo.lock" "$scratch/Cargo.lock" 2>/dev/null
cat > "$scratch/Cargo.toml" <<EOT
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
rspolib = { path = "$repo/rust" }
[workspace]
EOT
cd "$scratch" || exit 2
CARGO_TARGET_DIR="$scratch/target" cargo build --offline --quiet 2> "$scratch/log" || { cat "$scratch/log"; exit 2; }
timeout 60 "$scratch/target/debug/demo"
rc=$?
[ $rc -eq 0 ] || exit 1
'''
DEMO_PY = '''#!/bin/bash
# exit 0: behaves as it should; 1: the property is broken
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
python="${PYO3_PYTHON:-/opt/vp/venv/bin/python}"
scratch="$(mktemp -d)"
trap 'rm -rf "${scratch:?}"' EXIT
PYO3_PYTHON="$python" cargo build -p py-rspolib --offline --quiet --manifest-path "$repo/Cargo.toml" --target-dir "$scratch/target" 2> "$scratch/log" || { cat "$scratch/log"; exit 2; }
mkdir "$scratch/lib"
cp "$scratch/target/debug/librspolib.so" "$scratch/lib/rspolib.so"
cd "$scratch" || exit 2
PYTHONPATH="$scratch/lib" PYTHONDONTWRITEBYTECODE=1 timeout 60 "$python" "$here/demo.py"
rc=$?
[ $rc -eq 0 ] || exit 1
'''
tmp = tempfile.mkdtemp(prefix="seed-")
try:
    subprocess.run(["cp", "-a", "/repo", f"{tmp}/repo"], check=True)
    repo = f"{tmp}/repo"
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) if "stable" in json.load(open("/opt/vp/BASELINE.json")) else None
    for f, a, b in ns["edits"]:
        p = f"{repo}/{f}"
        s = open(p).read()
        assert s.count(a) == 1, (f, a, s.count(a))
        open(p, "w").write(s.replace(a, b))
    d = f"{tmp}/seeded"
    os.makedirs(d)
    open(f"{d}/patch.diff", "w").write(subprocess.run(["git", "-C", repo, "diff"], capture_output=True, text=True, check=True).stdout)
    open(f"{d}/demo.sh", "w").write(DEMO_PY if "demo_py" in ns else DEMO)
    os.chmod(f"{d}/demo.sh", 0o755)
    if "demo_py" in ns:
        open(f"{d}/demo.py", "w").write(ns["demo_py"])
    else:
        open(f"{d}/demo.rs", "w").write(ns["demo"])
    json.dump({"property": prop, "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    # the change in place: build and tests run on /repo itself, then it is undone
    subprocess.run(["git", "-C", "/repo", "apply", f"{d}/patch.diff"], check=True)
    try:
        b = subprocess.run(["bash", "/opt/vp/build.sh"], capture_output=True, text=True)
        assert b.returncode == 0, b.stdout[-2000:] + b.stderr[-2000:]
        subprocess.run(["bash", "/opt/vp/test.sh", f"{tmp}/t.json"], capture_output=True)
        r1 = subprocess.run(["bash", f"{d}/demo.sh"], cwd="/repo", capture_output=True, text=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
    t = json.load(open(f"{tmp}/t.json"))
    r0 = subprocess.run(["bash", f"{d}/demo.sh"], cwd="/repo", capture_output=True, text=True)
    bl = json.load(open("/opt/vp/BASELINE.json"))
    def passed(x):
        for k in ("passed", "pass", "stable", "stable_pass"):
            if isinstance(x, dict) and k in x:
                return set(x[k])
        return None
    pb, pt = passed(bl), passed(t)
    missing = sorted(pb - pt) if pb is not None and pt is not None else f"? {list(bl)[:5]} {list(t)[:5]}"
    print("tests broken:", missing)
    print("demo unchanged:", r0.returncode, r0.stdout[-300:], r0.stderr[-300:])
    print("demo changed:", r1.returncode, r1.stdout[-300:], r1.stderr[-300:])
    if missing == [] and r0.returncode == 0 and r1.returncode == 1:
        dst = f"{R}/seeded/{sid}"
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(d, dst)
        print("kept", dst)
    else:
        print("NOT kept")
finally:
    shutil.rmtree(tmp, ignore_errors=True)
