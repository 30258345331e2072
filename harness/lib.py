"""Drive sofar and compare it with the reference."""
import contextlib
import hashlib
import io
import json
import os
import re
import shutil
import traceback
import warnings
import numpy as np
import boot
import vals
from world import World


class Violation(Exception):
    """The property does not hold for this case."""


class HarnessError(Exception):
    """The check itself is wrong."""


class Outcome:
    def __init__(self):
        self.value = self.exc = None
        self.out = ""
        self.warnings = []

    @property
    def messages(self):
        return [str(w.message) for w in self.warnings]

    def describe(self):
        if self.exc is not None:
            return f"{type(self.exc).__name__}: {str(self.exc)[:500]}"
        return "no error"


class Ctx:
    """World, staged package and scratch space of one worker process."""

    def __init__(self, world_seed, generated=6):
        self.world_args = [world_seed, generated]
        self.world = World(world_seed, generated)
        self.sf, self.package = boot.load(self.world)
        self.tmp = boot.scratch("verif_case_")
        self.count = 0
        self.labels = {}
        # names that are no data entries of an object
        self.reserved = {n for n in dir(self.sf.Sofa)}

    # -- bookkeeping -----------------------------------------------------------
    def label(self, name, n=1):
        self.labels[name] = self.labels.get(name, 0) + n

    def folder(self):
        """An empty folder for the current case."""
        self.count += 1
        path = os.path.join(self.tmp, f"case_{self.count}")
        os.makedirs(path)
        self.last = path
        return path

    def clean(self):
        if getattr(self, "last", None):
            shutil.rmtree(self.last, ignore_errors=True)
            self.last = None

    # -- calls ------------------------------------------------------------------
    def call(self, fn, *args, **kwargs):
        o = Outcome()
        buffer = io.StringIO()
        with warnings.catch_warnings(record=True) as caught, \
                contextlib.redirect_stdout(buffer), \
                np.errstate(all="ignore"):
            warnings.simplefilter("always")
            try:
                o.value = fn(*args, **kwargs)
            except (Violation, HarnessError):
                raise
            except (Exception, SystemExit) as e:      # noqa: BLE001
                o.exc = e
        o.out = buffer.getvalue()
        # (messages of the interpreter are of no interest)
        o.warnings = [w for w in caught if not issubclass(
            w.category, (ResourceWarning, DeprecationWarning,
                         PendingDeprecationWarning))]
        return o

    def ok(self, what, fn, *args, **kwargs):
        o = self.call(fn, *args, **kwargs)
        if o.exc is not None:
            raise Violation(f"{what} failed: {o.describe()}\n"
                            + formatted(o.exc, 3))
        return o

    def raises(self, types, what, fn, *args, **kwargs):
        o = self.call(fn, *args, **kwargs)
        if o.exc is None:
            raise Violation(f"{what} raised no error")
        if not isinstance(o.exc, types):
            raise Violation(f"{what} raised {o.describe()} instead of "
                            f"{types}")
        return o


def formatted(e, lines):
    """The end of a traceback."""
    try:
        return "".join(traceback.format_exception(e)[-lines:])
    except Exception:                   # noqa: BLE001
        # (the interpreter looks for similar names, which can fail)
        return "".join(traceback.format_tb(e.__traceback__)[-lines:]) + \
            f"{type(e).__name__}: {e}"


def check(condition, message):
    if not condition:
        raise Violation(message() if callable(message) else message)


def public(sofa):
    return [k for k in vars(sofa) if not k.startswith("_")]


def frozen(sofa):
    """Exact content of a SOFA object."""
    return {k: vals.freeze(getattr(sofa, k)) for k in public(sofa)}


def diff(a, b):
    """Names of the entries that differ between two dicts."""
    return sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))


def canons(sofa, model):
    """Reference meaning of the entries of a sofar object."""
    out = {}
    for key in public(sofa):
        entry = model.entry(key)
        if entry is None:
            out[key] = ("unknown entry", repr(getattr(sofa, key))[:100])
        else:
            out[key] = vals.canon(getattr(sofa, key), entry["type"],
                                  model.ndims(key))
    return out


def compare(sofa, model, what, ignore=()):
    """Compare all entries of an object with the model."""
    real, ref = canons(sofa, model), model.canons()
    for key in sorted(set(real) | set(ref)):
        if key in ignore:
            continue
        if key not in ref:
            raise Violation(f"{what}: unexpected entry {key}: "
                            f"{vals.show(real[key])}")
        if key not in real:
            raise Violation(f"{what}: entry {key} is missing")
        if key in model.free:
            if not isinstance(getattr(sofa, key), str):
                raise Violation(f"{what}: {key} is no string")
            continue
        if real[key] != ref[key]:
            raise Violation(f"{what}: {key} is {vals.show(real[key])} but "
                            f"should be {vals.show(ref[key])}")


def adopt(sofa, model):
    """Take over the values that are filled in upon creation."""
    for key in list(model.free):
        if key in model.entries and key in vars(sofa):
            model.entries[key] = getattr(sofa, key)
    model.free.clear()


TOKEN = re.compile(r"[\w\-]+")


def named(text):
    """All words of a message."""
    return set(TOKEN.findall(text)) | {
        t.rstrip("-") for t in TOKEN.findall(text)}


def digest(path):
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def tree(folder):
    """Content of all files below a folder."""
    out = {}
    for base, _, files in os.walk(folder):
        for name in files:
            path = os.path.join(base, name)
            out[os.path.relpath(path, folder)] = digest(path)
    return out


def key_of(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()


# --------------------------------------------------------------------------
# operations on real objects
def build(ctx, recipe, verify=False):
    """Create a sofar object from a recipe (see gens.py)."""
    sofa = ctx.sf.Sofa(recipe["conv"], mandatory=recipe["mandatory"],
                       version=recipe["version"], verify=verify)
    for op in recipe["ops"]:
        sofa = touch(ctx, sofa, op[1]) if op[0] == "touch" else sofa
        apply(sofa, op)
    return sofa


def touch(ctx, sofa, how):
    """
    Use an object without changing it: later results must not depend on it.
    """
    if how == "copy":
        return sofa.copy()
    with contextlib.suppress(ValueError), \
            contextlib.redirect_stdout(io.StringIO()):
        if how in ("read", "write"):
            sofa.verify(mode=how)
        elif how == "disk":
            path = os.path.join(ctx.tmp, "touched.sofa")
            ctx.sf.write_sofa(path, sofa)
            ctx.sf.read_sofa(path, verbose=False)
        elif how == "dims":
            sofa.get_dimension("N")
        elif how == "equals":
            ctx.sf.equals(sofa, sofa)
        else:
            raise HarnessError(how)
    return sofa


def apply(sofa, op):
    kind = op[0]
    if kind == "touch":
        return
    if kind == "set":
        setattr(sofa, op[1], vals.make(op[2]))
    elif kind == "del":
        sofa.delete(op[1])
    elif kind == "delattr":
        delattr(sofa, op[1])
    elif kind == "addv":
        sofa.add_variable(op[1], vals.make(op[2]), op[3], op[4])
    elif kind == "adda":
        sofa.add_attribute(op[1], vals.make(op[2]))
    elif kind == "missing":
        sofa.add_missing(op[1], op[2], verbose=False)
    elif kind == "prot":
        sofa.protected = op[1]
    else:
        raise HarnessError(f"unknown operation {op}")


def apply_model(model, op):
    kind = op[0]
    if kind == "touch":
        return
    if kind == "set":
        model.set(op[1], vals.make(op[2]))
    elif kind in ("del", "delattr"):
        model.delete(op[1])
    elif kind == "addv":
        model.add(op[1], vals.make(op[2]), op[3], op[4])
    elif kind == "adda":
        model.add(op[1], vals.make(op[2]), "attribute", None)
    elif kind == "missing":
        model.add_missing(op[1], op[2])
    elif kind == "prot":
        model.protected = op[1]
    else:
        raise HarnessError(f"unknown operation {op}")


def build_model(ctx, recipe):
    from model import Obj
    m = Obj(ctx.world, recipe["conv"], recipe["version"],
            recipe["mandatory"])
    for op in recipe["ops"]:
        apply_model(m, op)
    return m


def pair(ctx, recipe, verify=False):
    """The object and its model."""
    model = build_model(ctx, recipe)
    sofa = ctx.ok("creating the object", build, ctx, recipe, verify).value
    adopt(sofa, model)
    return sofa, model
