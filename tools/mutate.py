#!/usr/bin/env python3
"""Measures the checks with small random changes of the source: mutate.py WORKER SEED COUNT [path prefix]

Works in /tmp/mut/wWORKER, on copies of /repo and of the harness. For every change that builds and passes the repository's
tests, runs the checks (at a fraction of their size) until one reports it, and appends a line to /tmp/mut/results.WORKER.
"""
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time

worker, seed, count = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3])
prefix = sys.argv[4] if len(sys.argv) > 4 else "src/"
cpus = os.environ.get("CPUS", "0-3")
scale = os.environ.get("SCALE", "0.3")
W = "/tmp/mut/w%d" % worker
REPO, VERIF = W + "/repo", W + "/verif"

ORDER = {
    "src/index/mod.rs": "P04 P05 P01 P02 P06 P08 P12 P15 P17 P22 P09 P18 P19 P03 P23",
    "src/index/reorder.rs": "P09 P17 P23 P04",
    "src/index/rw": "P15 P16 P17 P04 P03",
    "src/index/io.rs": "P06 P25 P18 P19 P15 P08",
    "src/slice_vector/rw": "P15 P16",
    "src/slice_vector": "P06 P25 P13 P21 P19 P04 P18 P07 P14 P15",
    "src/elements/embeddings": "P13 P14 P18 P07 P10 P19 P23",
    "src/elements": "P10 P11 P21 P07 P12 P13",
    "src/math.rs": "P10 P11 P12 P02 P03",
    "src/max_size_heap.rs": "P01 P02 P04",
    "src/odd_byte_int.rs": "P13 P14 P07 P25",
    "src/io.rs": "P07 P18 P19",
}


def order(path):
    best = max((k for k in ORDER if path.startswith(k)), key=len, default=None)
    first = ORDER[best].split() if best else []
    return first


def sh(command, timeout, cwd=None, env=None):
    e = dict(os.environ, **(env or {}))
    try:
        r = subprocess.run(["taskset", "-c", cpus] + command, cwd=cwd, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout, start_new_session=True, errors="replace")
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 99, "timeout"


def setup():
    if not os.path.exists(REPO):
        os.makedirs(W, exist_ok=True)
        subprocess.run(["cp", "-a", "/repo", REPO], check=True)
    subprocess.run(["git", "checkout", "-q", "--", "."], cwd=REPO, check=True)
    shutil.rmtree(VERIF + "/harness/src", ignore_errors=True)
    os.makedirs(VERIF + "/harness", exist_ok=True)
    shutil.copytree("/verif/harness/src", VERIF + "/harness/src")
    shutil.copy("/verif/harness/Cargo.lock", VERIF + "/harness/Cargo.lock")
    shutil.rmtree(VERIF + "/harness/vendor", ignore_errors=True)
    shutil.copytree("/verif/harness/vendor", VERIF + "/harness/vendor")
    shutil.copy("/verif/known_findings.json", VERIF)
    text = open("/verif/harness/Cargo.toml").read().replace("/repo", REPO)
    open(VERIF + "/harness/Cargo.toml", "w").write(text)


OPS = [
    (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
    (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" / ", " * "), (r" % ", " / "),
    (r" && ", " || "), (r" \|\| ", " && "), (r"\bmin\(", "max("), (r"\bmax\(", "min("), (r"\btrue\b", "false"),
    (r"\bfalse\b", "true"), (r"!self\.", "self."), (r"if !", "if "), (r"\bif ([^{]+) \{", "if false && (\\1) {"),
    (r"\bif ([^{]+) \{", "if true || (\\1) {"), (r"\.rev\(\)", ""), (r"\.skip\([^()]*\)", ""), (r"\.take\([^()]*\)", ""),
    (r"\.filter\([^()]*\([^()]*\)[^()]*\)", ""), (r"\.filter\([^()]*\)", ""), (r"\?;", ".ok();"), (r"\+= ", "-= "),
    (r"\.saturating_sub\(", ".wrapping_sub("), (r"\.cloned\(\)\.", ".cloned().map(|x| x)."), (r"\bbreak;", "continue;"),
    (r"\bcontinue;", "break;"), (r"\.abs\(\)", ""), (r"\.write\(\)", ".read()"), (r"<<", ">>"), (r">>", "<<"), (r" & ", " | "),
    (r"\.\.=", ".."), (r"\bfirst\(\)", "last()"), (r"\blast\(\)", "first()"), (r"\.dedup\(\)", ".len()"),
]


def candidates():
    out = []
    files = subprocess.run(["git", "ls-files", "src"], cwd=REPO, stdout=subprocess.PIPE, check=True).stdout.decode().split()
    for path in files:
        if not path.endswith(".rs") or not path.startswith(prefix) or path.endswith(("tests.rs", "test_helper.rs", "src/lib.rs")):
            continue
        lines = open(os.path.join(REPO, path)).read().split("\n")
        dead = False
        for n, line in enumerate(lines):
            if "#[cfg(test)]" in line:
                break
            if re.match(r"\s*pub (unsafe )?fn (read|read_with_capacity|write_as_variable_width_slice_vector)\b", line):
                dead = True  # not used
            elif re.match(r"\s*(pub )?(unsafe )?fn ", line):
                dead = False
            if dead or re.match(r"\s*(///|//!|# )", line):
                continue
            code = line.split("//")[0]
            if not code.strip() or re.match(r"\s*(use|pub use|mod|#|extern|impl|debug_assert|assert|pub fn|fn)\b", code):
                continue
            if "debug_assert" in code or "println" in code or "progress" in code or "step_size" in code:
                continue
            for pattern, replacement in OPS:
                for m in re.finditer(pattern, code):
                    new = code[:m.start()] + m.expand(replacement) + code[m.end():]
                    out.append((path, n, line, new))
            for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", code):
                for v in (int(m.group(1)) + 1, int(m.group(1)) - 1, int(m.group(1)) * 2):
                    if v >= 0 and v != int(m.group(1)):
                        out.append((path, n, line, code[:m.start()] + str(v) + code[m.end():]))
            if re.match(r"\s*[\w.&*:\[\]]+\(.*\);$", code) or re.match(r"\s*[\w.\[\]*]+ [-+*]?= .*;$", code):
                out.append((path, n, line, re.match(r"\s*", code).group(0)))
                out.append((path, n, line, re.match(r"\s*", code).group(0)))
    return out


def main():
    setup()
    rng = random.Random(seed)
    todo = candidates()
    print(len(todo), "candidates")
    rng.shuffle(todo)
    results = open("/tmp/mut/results.%d" % worker, "a")
    test_env = {"RAYON_NUM_THREADS": "1", "CARGO_NET_OFFLINE": "true", "RUSTUP_TOOLCHAIN": "stable-x86_64-unknown-linux-gnu",
                "CARGO_INCREMENTAL": "1", "CARGO_PROFILE_DEV_DEBUG": "line-tables-only", "PYTHON_SYS_EXECUTABLE": "/usr/bin/python3"}
    last = None
    for path, n, line, new in todo[:count]:
        full = os.path.join(REPO, path)
        if last is not None:
            subprocess.run(["git", "checkout", "-q", "--", last], cwd=REPO, check=True)
        last = path
        lines = open(full).read().split("\n")
        assert lines[n] == line
        lines[n] = new
        open(full, "w").write("\n".join(lines))
        os.utime(full)
        began = time.time()
        code, text = sh(["cargo", "nextest", "run", "-p", "granne", "--features", "rw_granne", "--offline", "--test-threads", "4",
                         "--tool-config-file", "vp:/opt/vp/nextest.toml", "--profile", "vp"], 240, REPO, test_env)
        verdict, detail = None, ""
        if code != 0:
            verdict = "invalid" if "could not compile" in text else "tests"
        else:
            code, text = sh(["cargo", "test", "-p", "granne", "--features", "rw_granne", "--offline", "--doc"], 240, REPO, test_env)
            if code != 0:
                verdict = "tests"
        if verdict is None:
            env = {"CARGO_TARGET_DIR": VERIF + "/target", "CARGO_NET_OFFLINE": "true"}
            code, text = sh(["cargo", "build", "--release", "--offline", "--quiet"], 600, VERIF + "/harness", env)
            if code != 0:
                verdict, detail = "harness does not build", text[-300:]
        if verdict is None:
            verdict = "UNDETECTED"
            env = {"GV_VERIF": VERIF, "GV_KNOWN": VERIF + "/known_findings.json", "GV_SCALE": scale, "GV_SHRINK_S": "1",
                   "VERIF_TIER": "quick", "VERIF_SEED": "1", "GV_WORKERS": "4"}
            for p in order(path):
                code, text = sh([VERIF + "/target/release/granne-verif", "run", p], 600, VERIF, env)
                if code == 1:
                    verdict = p
                    detail = next((l for l in text.split("\n") if l.startswith("property ")), "")[:150]
                    break
                if code != 0:
                    verdict, detail = "%s exits %d" % (p, code), text[-200:]
                    break
            shutil.rmtree(VERIF + "/replays", ignore_errors=True)
        record = [verdict, path, n + 1, line.strip(), new.strip(), round(time.time() - began), detail]
        results.write(json.dumps(record) + "\n")
        results.flush()
    subprocess.run(["git", "checkout", "-q", "--", "."], cwd=REPO, check=True)


main()
