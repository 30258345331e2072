"""Runs the check of specs that can not be kept:  tryspec.py SPECS.py ID..."""
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location("specs", sys.argv[1])
module = importlib.util.module_from_spec(spec)
spec.loader.exec_module(module)
for s in module.SEEDS:
    if s["id"] not in sys.argv[2:]:
        continue
    tmp = tempfile.mkdtemp(prefix="spec_")
    shutil.copytree("/repo/sofar", tmp + "/sofar")
    for file, old, new in s["edits"]:
        text = open(f"{tmp}/{file}").read()
        assert text.count(old) == 1, (s["id"], text.count(old))
        open(f"{tmp}/{file}", "w").write(text.replace(old, new))
    r = subprocess.run(
        ["/opt/venv/bin/python", VERIF + "/harness/run.py", s["property"]],
        env=dict(os.environ, VERIF_REPO=tmp), capture_output=True, text=True)
    print(s["id"], r.returncode, (r.stdout + r.stderr)[-300:])
    shutil.rmtree(tmp)
