"""
Run the checks against planted bugs:  tryseeds.py [ID ...] [--tier T] [--all]

Each bug is applied to a scratch copy of /repo and checked there (this is for
development, the registered commands run against /repo).
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith("--")]
every = "--all" in sys.argv
out_path = os.path.join(VERIF, "tools", "seed", "results.json")
results = json.load(open(out_path)) if os.path.isfile(out_path) else {}
for name in sorted(args or os.listdir(os.path.join(VERIF, "seeded"))):
    folder = os.path.join(VERIF, "seeded", name)
    prop = json.load(open(folder + "/meta.json"))["property"]
    tmp = tempfile.mkdtemp(prefix="try_")
    shutil.copytree("/repo", tmp + "/repo", symlinks=True)
    subprocess.run(["git", "apply", folder + "/patch.diff"],
                   cwd=tmp + "/repo", check=True)
    checks = [prop]
    if every:
        checks += [f"C{i:02d}" for i in range(1, 40)
                   if f"C{i:02d}" != prop and os.path.isfile(
                       f"{VERIF}/harness/checks/c{i:02d}.py")]
    found = {}
    for c in checks:
        t = time.time()
        r = subprocess.run(
            ["/opt/venv/bin/python", VERIF + "/harness/run.py", c],
            env=dict(os.environ, VERIF_REPO=tmp + "/repo",
                     VERIF_SEED=os.environ.get("VERIF_SEED", "1")),
            capture_output=True, text=True)
        found[c] = r.returncode
        lines = (r.stdout + r.stderr).strip().splitlines()
        if c == prop or r.returncode == 2:
            print(f"{name}: {c} exit {r.returncode} {time.time() - t:.0f} s "
                  f"{[x[:160] for x in lines if 'quick' not in x][:1]}",
                  flush=True)
    if every:
        print(f"   caught by {[c for c in found if found[c] == 1]}",
              flush=True)
    results.setdefault(name, {}).update(found)
    shutil.rmtree(tmp)
    with open(out_path, "w") as f:
        json.dump(results, f, indent=1, sort_keys=True)
