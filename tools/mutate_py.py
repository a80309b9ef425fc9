#!/usr/bin/env python3
"""Like mutate.py, for the Python module: mutate_py.py SEED COUNT. Every changed module that can be built is given to P20."""
import json, os, random, re, shutil, subprocess, sys
import importlib.util
seed, count = int(sys.argv[1]), int(sys.argv[2])
cpus = os.environ.get("CPUS", "4-7")
W = "/tmp/mut/py"
REPO, VERIF = W + "/repo", W + "/verif"
source = open("/verif/tools/mutate.py").read()
OPS = eval(re.search(r"^OPS = (\[.*?^\])", source, re.S | re.M).group(1))
os.makedirs(W, exist_ok=True)
if not os.path.exists(REPO):
    subprocess.run(["cp", "-a", "/repo", REPO], check=True)
subprocess.run(["git", "checkout", "-q", "--", "."], cwd=REPO, check=True)
os.makedirs(VERIF, exist_ok=True)
subprocess.run(["rsync", "-a", "--exclude", "target", "/verif/pyharness", VERIF]) if shutil.which("rsync") else None
if not os.path.exists(VERIF + "/pyharness"):
    shutil.copytree("/verif/pyharness", VERIF + "/pyharness", ignore=shutil.ignore_patterns("target", "__pycache__"))
for f in ("p20.py", "worker.py"):
    shutil.copy("/verif/pyharness/" + f, VERIF + "/pyharness/" + f)
if not os.path.exists(VERIF + "/harness"):
    shutil.copytree("/verif/harness", VERIF + "/harness", ignore=shutil.ignore_patterns("target"))
shutil.copy("/verif/known_findings.json", VERIF)
for f in ("build.sh", "run.sh", "pyharness/Cargo.toml", "harness/Cargo.toml"):
    open(VERIF + "/" + f, "w").write(open("/verif/" + f).read().replace("/repo", REPO))
    os.chmod(VERIF + "/" + f, 0o755)
os.makedirs(VERIF + "/evidence", exist_ok=True)
todo = []
for path in ("py/src/lib.rs", "py/src/embeddings.rs"):
    for n, line in enumerate(open(REPO + "/" + path).read().split("\n")):
        code = line.split("//")[0]
        if not code.strip() or re.match(r"\s*(///|//!|# |use|mod|#|extern|impl|pub fn|fn)\b", line) or re.match(r"\s*///", line) or "progress" in code:
            continue
        for pattern, replacement in OPS:
            for m in re.finditer(pattern, code):
                todo.append((path, n, line, code[:m.start()] + m.expand(replacement) + code[m.end():]))
        for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", code):
            for v in (int(m.group(1)) + 1, int(m.group(1)) - 1):
                if v >= 0:
                    todo.append((path, n, line, code[:m.start()] + str(v) + code[m.end():]))
        if re.match(r"\s*[\w.&*:\[\]]+\(.*\);$", code) or re.match(r"\s*[\w.\[\]*]+ [-+*]?= .*;$", code):
            todo.append((path, n, line, re.match(r"\s*", code).group(0)))
print(len(todo), "candidates")
random.Random(seed).shuffle(todo)
out = open("/tmp/mut/results.py", "a")
for path, n, line, new in todo[:count]:
    subprocess.run(["git", "checkout", "-q", "--", "."], cwd=REPO, check=True)
    lines = open(REPO + "/" + path).read().split("\n")
    lines[n] = new
    open(REPO + "/" + path, "w").write("\n".join(lines))
    try:
        r = subprocess.run(["taskset", "-c", cpus, VERIF + "/run.sh", "P20"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600, errors="replace", start_new_session=True)
        verdict = {0: "UNDETECTED", 1: "P20", 2: "invalid"}.get(r.returncode, str(r.returncode))
    except subprocess.TimeoutExpired:
        verdict = "timeout"
    print(json.dumps([verdict, path, n + 1, line.strip(), new.strip()]), file=out, flush=True)
