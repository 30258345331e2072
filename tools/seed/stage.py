"""
Copies the package of the current folder to a scratch folder, together with
the conventions in fixture.json, and imports it from there.
"""
import atexit
import json
import os
import shutil
import sys
import tempfile
import warnings

sys.dont_write_bytecode = True
tmp = tempfile.mkdtemp(prefix="demo_")
atexit.register(shutil.rmtree, tmp, True)
package = os.path.join(tmp, "stage", "sofar")
os.makedirs(package)
for name in os.listdir("sofar"):
    if name.endswith(".py"):
        shutil.copy(os.path.join("sofar", name), package)
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "fixture.json")) as f:
    for name, content in json.load(f).items():
        path = os.path.join(package, "sofa_conventions", name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as g:
            g.write(content)
sys.path.insert(0, os.path.join(tmp, "stage"))
warnings.simplefilter("ignore")
import sofar as sf      # noqa: E402

assert sf.__file__.startswith(package), sf.__file__


def path(name):
    """A file in the scratch folder."""
    return os.path.join(tmp, name)


def raises(types, fn, *args, **kwargs):
    try:
        fn(*args, **kwargs)
    except types:
        return True
    return False
