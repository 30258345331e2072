"""
Make planted bugs:  newseed.py SPECS.py [ID ...] [--force]

SPECS.py defines SEEDS, a list of dicts with id, property, needs, breaks, edits
[(file, old, new), ...] and demo (code).  A bug is kept if the demonstration
passes without and fails with it, and the stable tests pass.
"""
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
BASE = subprocess.check_output(
    ["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"],
    text=True).split()[0]


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True,
                          env=dict(ENV, **kw.pop("env", {})), **kw)


def original(file, line):
    """Is the line (number) of /repo's file part of the original?"""
    out = sh(["git", "blame", "-l", "-s", "-L", f"{line},{line}", "HEAD",
              "--", file], "/repo").stdout
    return out.lstrip("^")[:39] == BASE[:39]


def stable(copy):
    b = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    r = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-rA",
            "--continue-on-collection-errors", "tests"], copy,
           env={"PYTHONPATH": copy})
    passed = set(re.findall(r"PASSED (\S+)", r.stdout))
    want = {t.replace(".", "/", 1).replace("::", ".py::") for t in b}
    return sorted(want - passed)


def overlay(copy):
    if not os.path.isdir("/tmp/ov"):
        return "?"
    tmp = tempfile.mkdtemp()
    shutil.copytree("/tmp/ov", tmp + "/ov")
    for n in os.listdir(copy + "/sofar"):
        if n.endswith(".py"):
            shutil.copy(copy + "/sofar/" + n, tmp + "/ov/sofar/" + n,
                        follow_symlinks=False) if not os.path.lexists(
                tmp + "/ov/sofar/" + n) else (
                os.remove(tmp + "/ov/sofar/" + n),
                shutil.copy(copy + "/sofar/" + n, tmp + "/ov/sofar/" + n))
    r = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"],
           tmp + "/ov", env={"PYTHONPATH": tmp + "/ov"})
    shutil.rmtree(tmp)
    return r.stdout.strip().splitlines()[-1]


def main():
    spec = importlib.util.spec_from_file_location("specs", sys.argv[1])
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    only = [a for a in sys.argv[2:] if not a.startswith("--")]
    for s in mod.SEEDS:
        target = os.path.join(VERIF, "seeded", s["id"])
        if only and s["id"] not in only:
            continue
        if not only and os.path.isdir(target):
            continue
        tmp = tempfile.mkdtemp(prefix="seed_")
        copy = os.path.join(tmp, "repo")
        shutil.copytree("/repo", copy, symlinks=True)
        demo = os.path.join(tmp, "demo")
        os.mkdir(demo)
        for n in ("stage.py", "fixture.json"):
            shutil.copy(os.path.join(VERIF, "tools", "seed", n), demo)
        with open(demo + "/demo.py", "w") as f:
            f.write(s["demo"].strip() + "\n")
        with open(demo + "/demo.sh", "w") as f:
            f.write('#!/bin/bash\nD="$(cd "$(dirname "$0")" && pwd)"\n'
                    'export PYTHONDONTWRITEBYTECODE=1\n'
                    'exec /opt/venv/bin/python "$D/demo.py"\n')
        os.chmod(demo + "/demo.sh", 0o755)
        problems = []
        r = sh(["bash", demo + "/demo.sh"], copy)
        if r.returncode:
            problems.append("demo fails on the unchanged tree: "
                            + r.stderr[-600:])
        for file, old, new in s["edits"]:
            p = os.path.join(copy, file)
            text = open(p).read()
            if text.count(old) != 1:
                problems.append(f"{text.count(old)} x {old!r}")
                continue
            with open(p, "w") as f:
                f.write(text.replace(old, new))
        diff = sh(["git", "diff"], copy).stdout
        n = own = 0
        for file, part in re.findall(
                r"^\+\+\+ b/(\S+)\n(.*?)(?=^diff|\Z)", diff, re.M | re.S):
            for start, body in re.findall(
                    r"^@@ -(\d+)[^\n]*\n(.*?)(?=^@@|\Z)", part,
                    re.M | re.S):
                line = int(start)
                for x in body.splitlines():
                    if x.startswith("-"):
                        n += 1
                        own += not original(file, line)
                    if not x.startswith("+"):
                        line += 1
        if not n or own:
            problems.append(f"{n} lines replaced, {own} of them are ours")
        r = sh(["bash", demo + "/demo.sh"], copy)
        if r.returncode == 0:
            problems.append("demo passes with the change")
        elif "AssertionError" not in r.stderr:
            problems.append("note: " + r.stderr[-300:])
        bad = stable(copy)
        if bad:
            problems.append(f"stable tests fail: {bad}")
        ov = overlay(copy)
        print(f"{s['id']}: {problems or 'ok'} | {ov}")
        if not [p for p in problems if not p.startswith("note")]:
            shutil.rmtree(target, ignore_errors=True)
            shutil.copytree(demo, target)
            with open(target + "/patch.diff", "w") as f:
                f.write(diff)
            with open(target + "/meta.json", "w") as f:
                json.dump({"property": s["property"], "needs": s["needs"],
                           "what_it_breaks": s["breaks"]}, f, indent=1)
                f.write("\n")
        shutil.rmtree(tmp)


main()
