"""
Stage the package under test.

The checks import sofar from /repo's current working tree, but the convention
data the package expects inside its own folder are not part of the checkout.
`stage` creates a scratch folder that contains a package folder `sofar` with
one symbolic link per file of /repo/sofar and generated conventions in
`sofar/sofa_conventions`.  Nothing is written to /repo.
"""
import atexit
import contextlib
import os
import shutil
import sys
import tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
# context in which the package is imported (see fuzz.py)
IMPORT = contextlib.nullcontext
SKIP = {"__pycache__", "sofa_conventions"}

sys.dont_write_bytecode = True
if VT not in sys.path:
    sys.path.append(VT)


def scratch(prefix="verif_"):
    path = tempfile.mkdtemp(prefix=prefix)
    pid = os.getpid()

    def remove():
        if os.getpid() == pid:
            shutil.rmtree(path, ignore_errors=True)
    atexit.register(remove)
    return path


def stage(world, copy=False):
    """Return (staging root, package folder)."""
    # the underscore in the path matters: see the 0.1.4 release notes
    # (other characters: special ones of regular expressions and globs)
    root = os.path.join(scratch(), os.environ.get("VERIF_STAGE", "stage_x"))
    package = os.path.join(root, "sofar")
    os.makedirs(package)
    source = os.path.join(REPO, "sofar")
    for name in sorted(os.listdir(source)):
        if name in SKIP:
            continue
        src, dst = os.path.join(source, name), os.path.join(package, name)
        if copy:
            if os.path.isdir(src):
                shutil.copytree(src, dst)
            else:
                shutil.copy(src, dst)
        else:
            os.symlink(src, dst)
    world.install(os.path.join(package, "sofa_conventions"))
    return root, package


def load(world):
    """Stage and import the package; return the module and its folder."""
    for copy in (False, True):
        root, package = stage(world, copy)
        sys.path.insert(0, root)
        for name in [m for m in sys.modules
                     if m == "sofar" or m.startswith("sofar.")]:
            del sys.modules[name]
        with IMPORT():
            import sofar
        try:
            sofar.version()
            name, version = world.conventions[0][:2]
            sofar.Sofa(name, version=version, verify=False)
            return sofar, package
        except FileNotFoundError:
            # the package follows the links to find its data: use a copy
            if copy:
                return sofar, package
            sys.path.remove(root)
        except Exception:
            # let the check itself report what is broken
            return sofar, package
    raise RuntimeError("not reached")
