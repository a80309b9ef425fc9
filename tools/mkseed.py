#!/usr/bin/env python3
"""Writes and verifies planted changes (/verif/seeded/<id>).

mk(...) writes patch.diff, meta.json, demo.sh, main.rs and Cargo.lock from a list of textual edits.
mkseed.py ID... verifies them in scratch copies of /repo: the patch applies, builds, passes the
stable tests, and the demonstration exits 0 without and nonzero with it.
"""
import json, os, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Run in the root of the repository: exit 0 if the demonstrated property holds.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
work="$(mktemp -d /tmp/granne-demo.XXXXXX)"
trap 'rm -rf "$work"' EXIT
mkdir "$work/src" "$work/scratch"
cp "$here/main.rs" "$work/src/main.rs"
cp "$here/Cargo.lock" "$work/Cargo.lock"
cat >"$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
granne = { path = "$repo", features = ["rw_granne"] }
ordered-float = "1.1.1"
rayon = "1.3"
serde_json = "1.0"
[profile.dev]
opt-level = 1
debug = 0
%s
EOF
export CARGO_TARGET_DIR="$work/target" CARGO_NET_OFFLINE=true
(cd "$work" && cargo build --offline --quiet) || { echo "demo does not build"; exit 3; }
cd "$work/scratch" || exit 3
timeout 200 "$work/target/debug/demo"
'''

PYDEMO = '''#!/bin/bash
# Run in the root of the repository: exit 0 if the demonstrated property holds.
# Builds the Python module (with a python3-sys made fit for the strings of Python 3.12) and runs demo.py with it.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
work="$(mktemp -d /tmp/granne-demo.XXXXXX)"
trap 'rm -rf "$work"' EXIT
mkdir "$work/scratch"
cp "$here/Cargo.lock" "$work/Cargo.lock"
cp -r "${CARGO_HOME:-$HOME/.cargo}"/registry/src/*/python3-sys-0.6.0 "$work/python3-sys" || exit 3
rm -rf "$work/python3-sys/examples"
python3 "$here/adapt.py" "$work/python3-sys/src/unicodeobject.rs" || exit 3
cat >"$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[lib]
name = "granne_python"
crate-type = ["cdylib"]
path = "$repo/py/src/lib.rs"
[dependencies]
granne = { path = "$repo" }
rayon = "1.3"
serde_json = "1.0"
cpython = { version = "0.6" }
[patch.crates-io]
python3-sys = { path = "python3-sys" }
[profile.dev]
opt-level = 1
debug = 0
EOF
export CARGO_TARGET_DIR="$work/target" CARGO_NET_OFFLINE=true PYTHON_SYS_EXECUTABLE=/usr/bin/python3
(cd "$work" && cargo build --offline --quiet 2>/dev/null) || { echo "demo does not build"; exit 3; }
cp "$work/target/debug/libgranne_python.so" "$work/granne.so"
cd "$work/scratch" || exit 3
PYTHONPATH="$work" RAYON_NUM_THREADS=1 timeout 200 /usr/bin/python3 "$here/demo.py"
'''
ADAPT = '''import sys

p = sys.argv[1]
s = open(p).read()
s = s.replace("    #[cfg(not(Py_LIMITED_API))]\\n    fn _PyUnicode_Ready(o: *mut PyObject) -> c_int;\\n", "")
s = s.replace("    pub wstr: *mut c_void,\\n", "").replace("    wstr_length: Py_ssize_t,\\n", "")
s = s.replace("        _PyUnicode_Ready(o)\\n", "        0\\n")
i = s.index("unsafe fn PyUnicode_IS_READY(")
j = s.index("{", i)
s = s[:j] + "{\\n    let _ = o;\\n    true" + s[s.index("\\n}", j):]
open(p, "w").write(s)
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def mk(id, prop, edits, needs, breaks, main, profile=""):
    d = f"{VERIF}/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="mkseed.")
    try:
        sh(f"git clone -q /repo {t}/r", "/")
        for f, old, new in edits:
            p = f"{t}/r/{f}"
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = sh("git diff", f"{t}/r").stdout
    finally:
        shutil.rmtree(t)
    open(f"{d}/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
    open(f"{d}/demo.sh", "w").write(DEMO % profile)
    os.chmod(f"{d}/demo.sh", 0o755)
    open(f"{d}/main.rs", "w").write(main)
    shutil.copy(f"{VERIF}/tools/demo.lock", f"{d}/Cargo.lock")


def mkpy(id, prop, edits, needs, breaks, demo):
    mk(id, prop, edits, needs, breaks, "")
    d = f"{VERIF}/seeded/{id}"
    os.remove(f"{d}/main.rs")
    open(f"{d}/demo.sh", "w").write(PYDEMO)
    open(f"{d}/demo.py", "w").write(demo)
    open(f"{d}/adapt.py", "w").write(ADAPT)
    lock = open(f"{VERIF}/pyharness/Cargo.lock").read().replace('name = "pyharness"', 'name = "demo"')
    open(f"{d}/Cargo.lock", "w").write(lock)


def verify(id):
    d = f"{VERIF}/seeded/{id}"
    t = tempfile.mkdtemp(prefix="seedcheck.", dir="/tmp")
    r = f"{t}/repo"
    try:
        sh(f"cp -a /repo {r}", "/")
        demo = tempfile.mkdtemp(prefix="demo.", dir=t)
        for f in os.listdir(d):
            if f not in ("patch.diff", "meta.json"):
                shutil.copy(f"{d}/{f}", demo)
        a = sh(f"bash {demo}/demo.sh", r)
        out = [f"demo unchanged: {a.returncode}"]
        if a.returncode != 0:
            out.append(a.stdout[-1500:])
        p = sh(f"git apply {d}/patch.diff", r)
        if p.returncode != 0:
            return id, False, "patch does not apply: " + p.stdout
        b = sh(f"bash {demo}/demo.sh", r)
        out.append(f"demo patched: {b.returncode}: {b.stdout.strip()[-300:]}")
        # the tests, as in /opt/vp/test.sh
        env = dict(os.environ, RAYON_NUM_THREADS="1", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=f"{r}/target")
        w = sh("cargo test --workspace --features rw_granne --no-run --offline", r, env=env)
        ok_build = w.returncode == 0
        u = sh("cargo nextest run -p granne --features rw_granne --offline --no-fail-fast --test-threads 4", r, env=env)
        v = sh("cargo test -p granne --features rw_granne --offline --no-fail-fast --doc -- --test-threads 4", r, env=env)
        out.append(f"build {ok_build} unit {u.returncode} doc {v.returncode}")
        if u.returncode:
            out.append("\n".join(l for l in u.stdout.splitlines() if "FAIL" in l or "SIG" in l)[:800])
        if v.returncode:
            out.append("\n".join(l for l in v.stdout.splitlines() if "FAILED" in l or "panicked" in l)[:800])
        good = a.returncode == 0 and b.returncode not in (0, 3) and ok_build and u.returncode == 0 and v.returncode == 0
        return id, good, "\n".join(out)
    finally:
        shutil.rmtree(t)


if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor
    ids = sys.argv[1:] or sorted(os.listdir(f"{VERIF}/seeded"))
    with ThreadPoolExecutor(3) as ex:
        for id, good, out in ex.map(verify, ids):
            print(("GOOD " if good else "BAD  ") + id + "\n   " + out.replace("\n", "\n   "), flush=True)
