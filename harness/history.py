"""
Histories of operations on several SOFA objects, replayed on the real objects
and the reference model.

An operation is [index of the object, kind, ...].  Operations that are not
permitted are part of every history: they have to fail and change nothing.
"""
import copy
import os
import numpy as np
import gens
import mutate
import vals
from lib import (HarnessError, Violation, adopt, apply_model, check, compare,
                 diff, frozen, public)
from model import Obj, skey

FIXED = ("GLOBAL_SOFAConventions", "GLOBAL_SOFAConventionsVersion",
         "GLOBAL_Version", "GLOBAL_DataType")
RAGGED = [[1, 2], [3]]
UNKNOWN = ["Foo", "GLOBAL_Foo", "SourcePosition_Foo", "data_ir", "Data_XY",
           "GLOBAL_title", "foo_bar_baz", "ListenerPosition_units", "M",
           "Title", "Data"]
# (no entries, but not unknown to python)
METHODS = ["copy", "verify", "info", "inspect", "list_dimensions"]
BAD_ADDS = [
    ["addv", "Foo_Bar", "double", "MI"], ["addv", "_Foo", "double", "MI"],
    ["addv", "Foo_", "string", "MS"], ["addv", "Foo", "float", "MI"],
    ["addv", "Foo", None, "MI"], ["addv", "Foo", "double", None],
    ["addv", "Foo", "string", None], ["addv", "Foo", "attribute", "MI"],
    ["adda", "Foo"], ["adda", "GLOBAL_Foo_Bar"], ["adda", "Nothing_Units"],
    ["adda", "SourcePosition_Foo_Bar"], ["adda", "Data_Nothing_Units"],
    ["adda", "sourceposition_Note"], ["adda", "GLOBALFoo"],
    ["adda", "Data_Note"], ["addv", "Foo", "Double", "MI"],
    ["addv", "Foo", "int", "MI"], ["adda", "_Foo"], ["adda", "Foo_"],
]


class Pair:
    def __init__(self, sofa, model):
        self.sofa, self.model = sofa, model


def gen_value(src, model, key):
    typ = model.typ(key)
    if src.chance(12):
        return {"k": "py", "v": src.choice(mutate.BAD[typ])}
    if typ == "attribute":
        value = src.text()
        if key.endswith("Units") or src.chance(30):
            value = gens.attr_value(src, model, key)
        return {"k": "text", "v": value}
    size = {"C": 3, "I": 1}
    for d in "MREN":
        size[d] = src.int(1, 3)
    for d in "qtxyzabcdfghjklopuvw":
        size[d.upper()] = src.int(1, 3) if d == "q" else 2
    return gens.variable_value(src, model, key, size)


def unknown(src, models, model, reserved):
    """A name that is no entry of the object."""
    pool = [k for m in models for k in m.entries]
    pool += list(model.conv) + UNKNOWN
    pool = sorted({k for k in pool if k not in model.entries
                   and k not in reserved})
    return src.choice(pool + METHODS)


def pick(src, model, keys):
    """Prefer entries that were recently touched."""
    recent = [k for k in getattr(model, "recent", ()) if k in keys]
    if recent and src.chance(40):
        return src.choice(recent)
    return src.choice(keys)


def gen_op(src, world, models, i, reserved, weights):
    """One operation; None if the picked one is not possible."""
    model = models[i]
    kind = src.weighted(*weights)
    if kind == "set":
        key = pick(src, model, [k for k in model.entries if k not in FIXED])
        return [i, "set", key, gen_value(src, model, key)]
    if kind == "set_fixed":
        key = src.choice(FIXED)
        return [i, "set", key, {"k": "text", "v": "Foo"}]
    if kind == "set_readonly":
        keys = [k for k in model.entries if not model.clone_protected()
                .can_set(k) and k not in FIXED]
        if not keys:
            return None
        key = pick(src, model, keys)
        return [i, "set", key, gen_value(src, model, key)]
    if kind == "set_unknown":
        return [i, "set_unknown", unknown(src, models, model, reserved),
                {"k": "text", "v": src.text()}]
    if kind == "ragged":
        keys = [k for k in model.entries if model.can_set(k)]
        return [i, "ragged", src.choice(keys)]
    if kind == "del":
        keys = [k for k in model.entries if k not in FIXED]
        return [i, src.choice(["del", "delattr"]), pick(src, model, keys)]
    if kind == "del_optional":
        keys = [k for k in model.entries if k not in FIXED
                and model.clone_protected().can_delete(k)]
        if not keys:
            return None
        return [i, src.choice(["del", "delattr"]), pick(src, model, keys)]
    if kind == "del_fixed":
        return [i, "del", src.choice(FIXED)]
    if kind == "del_unknown":
        return [i, src.choice(["del", "delattr"]),
                unknown(src, models, model, reserved)]
    if kind == "add":
        size = {d: src.int(1, 3) for d in "MREN"}
        size.update(C=3, I=1)
        ops = gens.custom_ops(src, model.clone(), size, 1, reserved)
        return [i] + ops[0] if ops else None
    if kind == "add_again":
        # normative entries that were deleted, and custom ones of others
        names = [k for k in model.conv if k not in model.entries]
        for m in models:
            names += [k for k in m.custom if k not in model.entries
                      and k not in model.conv]
        if not names:
            return None
        name = pick(src, model, sorted(set(names)))
        entry = model.conv.get(name)
        if entry is None:
            entry = [m for m in models if name in m.custom][0].custom[name]
        if entry["type"] == "attribute":
            return [i, "adda", name, {"k": "text", "v": src.text()}]
        size = {d: 2 for d in "ABDEFGHJKLMNOPQRTUVWXYZ"}
        size.update(C=3, I=1)
        return [i, "addv", name, gens.value_for(
            src, entry["dimensions"].split(", ")[0], entry["type"], size,
            True), entry["type"], entry["dimensions"].split(", ")[0]]
    if kind == "add_bad":
        if src.chance(40):
            name = src.choice(sorted(model.entries))
            if "_" in name:
                return [i, "adda", name, {"k": "text", "v": "x"}]
            return [i, "addv", name, {"k": "py", "v": 1.0}, "double", "I"]
        bad = src.choice(BAD_ADDS)
        value = {"k": "py", "v": 1.0} if bad[0] == "addv" else \
            {"k": "text", "v": "x"}
        return [i] + bad[:2] + [value] + bad[2:]
    if kind == "add_ragged":
        return [i, "add_ragged", src.choice(["Foo", "Bar2", "Ragged"])]
    if kind == "inplace":
        keys = [k for k in model.entries if isinstance(
            model.entries[k], np.ndarray) and model.entries[k].size > 0
            and model.entries[k].dtype.kind in "if"]
        if not keys:
            return None
        return [i, "inplace", src.choice(keys), src.int(-9, 9)]
    if kind == "prot":
        return [i, "prot", not model.protected]
    if kind == "prot_bad":
        return [i, "prot_bad", src.choice(["1", "0", "1.0", "None", "'True'",
                                           "[]", "np.True_", "np.int64(0)"])]
    if kind == "verify":
        return [i, "verify", src.choice(["raise", "return", "print",
                                         "ignore", "warn"]),
                src.choice(["read", "write"])]
    if kind == "missing":
        return [i, "missing", src.chance(60), src.chance(60)]
    if kind == "upgrade":
        targets = model.targets()
        wrong = src.choice([None, "Foo_1.0", model.name + "_99.0", "", "x"])
        if not targets:
            return [i, "upgrade", wrong]
        return [i, "upgrade", src.weighted((4, src.choice(targets)),
                                           (1, wrong))]
    if kind == "copy":
        return [i, "copy", src.choice(["copy", "deepcopy"]),
                src.int(0, 3)]
    if kind == "disk":
        return [i, "disk", src.int(0, 3)]
    if kind == "report":
        return [i, "report", src.choice(["equals", "inspect", "dims",
                                         "repr"])]
    raise HarnessError(kind)


def advance(model, op, models):
    """The effect of an operation on the model (for the generator)."""
    kind = op[1]
    if kind in ("set", "del", "delattr", "adda", "addv"):
        model.recent = [k for k in getattr(model, "recent", [])
                        if k != op[2]][-4:] + [op[2]]
    if kind == "set":
        if model.can_set(op[2]):
            model.set(op[2], vals.make(op[3]))
    elif kind in ("del", "delattr"):
        if model.can_delete(op[2]):
            model.delete(op[2])
    elif kind == "adda":
        if model.can_add(op[2], "attribute", None):
            model.add(op[2], vals.make(op[3]), "attribute", None)
    elif kind == "addv":
        if model.can_add(op[2], op[4], op[5]):
            model.add(op[2], vals.make(op[3]), op[4], op[5])
    elif kind == "prot":
        model.protected = op[2]
    elif kind == "verify":
        model.verify(op[2])
    elif kind == "missing":
        model.add_missing(op[2], op[3])
    elif kind == "upgrade":
        if op[2] in (model.targets() or []) and upgradable(model, op[2]):
            model.upgrade(op[2])
    elif kind == "copy":
        models[op[3] % len(models)] = model.clone()
    elif kind == "disk":
        if storable(model):
            models[op[2] % len(models)] = model.clone()


def upgradable(model, target):
    """Data that do not even have the right number of axes can not be moved"""
    for key in model.entries:
        if not model.type_ok(key):
            return False
        if model.typ(key) != "attribute" and \
                np.ndim(model.entries[key]) > model.ndims(key):
            return False
    return True


def storable(model):
    m = model.clone()
    issues = m.verify("raise")
    return not issues.errors("raise", "write") and not any(
        model.ambiguous(k) for k in model.variables())


class Machine:
    def __init__(self, ctx, case):
        self.ctx = ctx
        self.pairs = []
        for name, version, mandatory in case["objects"]:
            model = Obj(ctx.world, name, version, mandatory)
            sofa = ctx.ok("creating the object", ctx.sf.Sofa, name,
                          mandatory=mandatory, version=version,
                          verify=False).value
            adopt(sofa, model)
            self.pairs.append(Pair(sofa, model))
        self.forbidden = 0
        self.kept = []      # arrays passed by the user

    def value(self, spec):
        value = vals.make(spec)
        if isinstance(value, (np.ndarray, list)):
            self.kept.append((value, vals.freeze(value)))
            del self.kept[:-6]
        return value

    def fails(self, pair, types, what, fn, *args):
        self.forbidden += 1
        before = frozen(pair.sofa), bool(pair.sofa.protected)
        self.ctx.raises(types, what, fn, *args)
        after = frozen(pair.sofa), bool(pair.sofa.protected)
        check(before[0] == after[0], lambda: f"{what} failed but changed "
              f"{diff(before[0], after[0])}")
        check(before[1] == after[1], f"{what} failed but changed the "
              "protection")

    def succeeds(self, pair, what, names, fn, *args):
        before = frozen(pair.sofa)
        out = self.ctx.ok(what, fn, *args)
        changed = diff(before, frozen(pair.sofa))
        check(set(changed) <= set(names), lambda: f"{what} changed "
              f"{sorted(set(changed) - set(names))}")
        return out

    def step(self, op):
        i, kind = op[0], op[1]
        pair = self.pairs[i]
        sofa, model = pair.sofa, pair.model
        was = model.protected
        ctx = self.ctx
        others = [(p, frozen(p.sofa), bool(p.sofa.protected))
                  for p in self.pairs if p is not pair]
        target = None
        if kind == "set":
            key = op[2]
            if key not in model.entries:
                return
            what = f"assigning {key} (protected={was})"
            if model.can_set(key):
                if key in FIXED:
                    return
                value = self.value(op[3])
                self.succeeds(pair, what, [key], setattr, sofa, key, value)
                model.set(key, vals.make(op[3]))
            else:
                self.fails(pair, TypeError, what, setattr, sofa, key,
                           vals.make(op[3]))
        elif kind == "set_unknown":
            key = op[2]
            if key in model.entries or (key in METHODS and not was):
                return
            what = f"assigning unknown {key} (protected={was})"
            if was:
                self.fails(pair, TypeError, what, setattr, sofa, key,
                           vals.make(op[3]))
            else:
                self.succeeds(pair, what, [key], setattr, sofa, key,
                              vals.make(op[3]))
                check(getattr(sofa, key) == vals.make(op[3]),
                      f"{what} stored something else")
                self.succeeds(pair, f"deleting unknown {key} without "
                              "protection", [key], delattr, sofa, key)
        elif kind == "ragged":
            key = op[2]
            if not model.can_set(key) or key not in model.entries:
                return
            self.fails(pair, ValueError, f"assigning a ragged list to {key}",
                       setattr, sofa, key, RAGGED)
        elif kind in ("del", "delattr"):
            key = op[2]
            what = f"deleting {key} (protected={was})"
            fn = sofa.delete if kind == "del" else sofa.__delattr__
            if model.can_delete(key):
                if key in FIXED:
                    return
                self.succeeds(pair, what, [key], fn, key)
                model.delete(key)
            elif key in model.entries or was or True:
                self.fails(pair, TypeError, what, fn, key)
        elif kind in ("adda", "addv"):
            name = op[2]
            typ, dims = ("attribute", None) if kind == "adda" else op[4:6]
            value = self.value(op[3])
            if kind == "adda":
                fn, args = sofa.add_attribute, (name, value)
            else:
                fn, args = sofa.add_variable, (name, value, typ, dims)
            what = f"adding {name} ({typ}, {dims})"
            if model.can_add(name, typ, dims):
                self.succeeds(pair, what, [name], fn, *args)
                model.add(name, vals.make(op[3]), typ, dims)
            else:
                self.fails(pair, ValueError, what, fn, *args)
        elif kind == "add_ragged":
            if op[2] in model.entries:
                return
            self.fails(pair, ValueError, "adding a ragged list",
                       sofa.add_variable, op[2], RAGGED, "double", "MR")
        elif kind == "inplace":
            value = model.entries.get(op[2])
            real = getattr(sofa, op[2], None)
            if value is None or not isinstance(real, np.ndarray) or \
                    real.dtype.kind not in "if" or not real.flags.writeable:
                return
            # (the user's own array changes as well)
            self.kept = [k for k in self.kept if k[0] is not real]
            real[...] = op[3]
            value = np.array(np.ma.getdata(value)) if not np.ma.is_masked(
                real) else value.copy()
            value[...] = op[3]
            model.entries[op[2]] = value
        elif kind == "prot":
            self.succeeds(pair, "switching the protection", [],
                          setattr, sofa, "protected", op[2])
            model.protected = op[2]
        elif kind == "prot_bad":
            self.fails(pair, ValueError, f"setting protected to {op[2]}",
                       setattr, sofa, "protected", eval(op[2], {"np": np}))
        elif kind == "verify":
            expected = model.clone()
            missing = [] if op[2] == "raise" else \
                expected.missing("mandatory")
            expected.verify(op[2])
            before = frozen(sofa)
            ctx.call(sofa.verify, op[2], op[3])
            changed = diff(before, frozen(sofa))
            check(set(changed) == set(missing), f"verify({op[2]!r}) changed "
                  f"{changed}, missing were {missing}")
            pair.model = model = expected
        elif kind == "missing":
            before = frozen(sofa)
            added = model.add_missing(op[2], op[3])
            self.succeeds(pair, f"add_missing({op[2]}, {op[3]})", added,
                          sofa.add_missing, op[2], op[3])
            changed = diff(before, frozen(sofa))
            check(set(changed) == set(added), lambda: "add_missing changed "
                  f"{changed} but {added} were missing")
        elif kind == "upgrade":
            targets = model.targets()
            if op[2] in (targets or []):
                if not upgradable(model, op[2]):
                    return
                ctx.ok(f"upgrading to {op[2]}", sofa.upgrade_convention,
                       op[2], False)
                model.upgrade(op[2])
            else:
                self.succeeds(pair, f"upgrading to {op[2]}", [],
                              sofa.upgrade_convention, op[2], False)
        elif kind == "copy":
            target = op[3] % len(self.pairs)
            before = frozen(sofa)
            new = ctx.ok("copying", sofa.copy if op[2] == "copy"
                         else lambda: copy.deepcopy(sofa)).value
            check(frozen(new) == before, lambda: "the copy differs in "
                  f"{diff(frozen(new), before)}")
            check(frozen(sofa) == before, "copying changed the object")
            for key in public(sofa):
                a, b = getattr(sofa, key), getattr(new, key)
                if isinstance(a, np.ndarray):
                    check(not np.shares_memory(a, b),
                          f"{key} is shared with the copy")
            check(bool(new.protected) == bool(sofa.protected),
                  "the copy has another protection")
            self.pairs[target] = Pair(new, model.clone())
            self.follow(self.pairs[target], model.protected)
        elif kind == "disk":
            if not storable(model):
                return
            target = op[2] % len(self.pairs)
            path = os.path.join(ctx.folder(), "a.sofa")
            before = frozen(sofa)
            ctx.ok("writing", ctx.sf.write_sofa, path, sofa)
            check(frozen(sofa) == before, "writing changed the object")
            new = ctx.ok("reading", ctx.sf.read_sofa, path, "auto",
                         False).value
            check(frozen(sofa) == before, "reading changed another object")
            ctx.clean()
            m = model.clone()
            m.protected = True
            m.entries["GLOBAL_DateModified"] = new.GLOBAL_DateModified
            compare(new, m, "read object")
            # scalars and shapes may differ now
            for key in m.entries:
                m.entries[key] = copy.deepcopy(getattr(new, key))
            self.pairs[target] = Pair(new, m)
            self.follow(self.pairs[target], True)
        elif kind == "report":
            before = frozen(sofa)
            if op[2] == "equals":
                if not all(map(model.type_ok, model.entries)):
                    return
                ctx.ok("equals", ctx.sf.equals, sofa, sofa)
            elif op[2] == "repr":
                ctx.ok("repr", repr, sofa)
            elif not model.missing("mandatory"):
                ctx.call(sofa.inspect if op[2] == "inspect" else
                         lambda: sofa.list_dimensions)
            check(frozen(sofa) == before, f"{op[2]} changed the object")
        else:
            raise HarnessError(kind)
        compare(pair.sofa, pair.model, f"after {op[1:3]}")
        self.follow(pair, was)
        for p, before, prot in others:
            if target is not None and p not in self.pairs:
                continue
            check(frozen(p.sofa) == before, lambda: f"{op[1:3]} on one "
                  f"object changed {diff(before, frozen(p.sofa))} of another")
            check(bool(p.sofa.protected) == prot,
                  f"{op[1:3]} on one object changed the protection of "
                  "another")
        for value, before in self.kept:
            check(vals.freeze(value) == before, f"{op[1:3]} changed an "
                  f"array of the user from {before} to {vals.freeze(value)}")

    @staticmethod
    def follow(pair, was):
        """Objects never loose their protection unless asked to."""
        real = bool(pair.sofa.protected)
        if pair.model.protected and was:
            check(real, "the protection was switched off")
        pair.model.protected = real
