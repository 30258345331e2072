"""C12: custom entries follow the naming rules and are kept."""
import copy
import os
import netCDF4
import numpy as np
import gens
import vals
from base import Check
from lib import (build_model, check, compare, frozen, diff, named, pair,
                 public)
from model import definers
import world as world_module

BASES = ["Foo", "Temperature", "Comment2", "Mx", "lower", "Zeta9", "Sofas",
         "Datax", "PRIVATE", "PRIVATEx", "API", "APIfoo", "GLOBAL",
         "GLOBALs", "Private", "Api", "Globals", "MyAPI", "XPRIVATE",
         "MyGLOBAL", "global", "DATA", "data", "Units", "Type", "Title",
         "Conventions", "x1", "Data", "CLASS", "NAME"]
# names as other programs might use them
ODD = ["T 60", "1st", "a-b", "Füße", "°C", "a.b", "a/b", "-a", "+", " a",
       "a ", "a\n", "\t", "a\0b", "#1", "a#", "a:b", "(x)", "x()", "Data.X",
       "m/s", "", " ", "@", "€", "a\x7f", "ab,", "a\\b", "%", "x%"]


def gen_name(src, model, typ):
    """Names that are right, nearly right, or wrong."""
    kind = src.int(0, 9)
    entries = sorted(set(model.entries) | set(model.conv) |
                     set(model.custom))
    variables = sorted({k for k in set(model.conv) | set(model.custom)
                        if model.entry(k)["dimensions"] is not None})
    if src.chance(12):
        odd = src.choice(ODD)
        return odd if typ != "attribute" else src.choice(
            variables + ["GLOBAL"]) + "_" + odd
    if typ == "attribute":
        if kind < 3:
            return src.choice(variables) + "_" + src.choice(
                ["Note", "Units", "Type", "LongName", "name", "x", "API",
                 "PRIVATE", "GLOBAL"])
        if kind < 5:
            return "GLOBAL_" + src.choice(
                BASES + gens.CUSTOM_GLOBALS + variables) + (
                    "_" + src.choice(["Note", "x", ""]) if src.chance(10)
                    else "")
        if kind == 5:
            return "Data_" + src.choice(["IR", "Real", "Foo", "Delay",
                                         "SamplingRate"]) + "_" + src.choice(
                ["Note", "Units", "x"])
        if kind == 6:
            return src.choice(BASES) + "_" + src.choice(["Note", "Units"])
        if kind == 7:
            return src.choice(BASES)
        if kind == 8:
            return src.choice(entries)
        return "_".join(src.choice(["Foo", "Data", "GLOBAL", "Bar", "",
                                    src.choice(variables)])
                        for _ in range(src.int(1, 4)))
    if kind < 4:
        return src.choice(BASES + gens.CUSTOM_VARS + world_module.WORDS)
    if kind == 4:
        return src.choice(variables) + src.choice(["X", "s", "2"])
    if kind == 5:
        names = [k[7:] for k in model.conv if k.startswith("GLOBAL_")]
        return src.choice(names)
    if kind == 6:
        return src.choice(entries)
    if kind == 7:
        return "_".join(src.choice(["Foo", "Data", "Bar", ""])
                        for _ in range(src.int(2, 3)))
    return src.choice("ABXYZabxyz") + src.choice(
        ["", "q", "1", "foo", "Foo", "FOO", "9x"])


class CHECK(Check):
    ID = "C12"
    RULE = (
        "A case is a generated valid object to which up to eight variables "
        "and attributes are added under names that are right, nearly right, "
        "reserved or taken, with valid and invalid types and dimensions, and "
        "from which some are deleted again; then it is verified, copied, "
        "written and read. Non-trivial: one addition is permitted and one "
        "rejected, or an added entry survives writing and reading.")
    ASSUMPTIONS = [
        "the reference model of harness/model.py",
        "names are in the normal form C of Unicode",
        "attributes can be added to variables that are part of the "
        "convention but not of the object; verify reports them"]
    QUICK = 425
    THOROUGH = 6000

    def gen(self, src, ctx):
        recipe = gens.valid(src, ctx.world, customs=0, small=True,
                            reserved=ctx.reserved, special=False, mask=False)
        model = build_model(ctx, recipe)
        size = dict(model.solve(), C=3, I=1)
        ops = []
        for _ in range(src.int(1, 8)):
            if ops and src.chance(15):
                added = [k for k in model.custom if k in model.entries]
                if added:
                    key = src.choice(sorted(added))
                    ops.append(["del", key])
                    model.delete(key)
                    continue
            typ = src.weighted((5, "attribute"), (4, "double"),
                               (2, "string"))
            name = gen_name(src, model, typ)
            if typ == "attribute":
                op = ["adda", name, {"k": "text", "v":
                                     src.text().lower()
                                     if name.endswith("Units")
                                     else src.text()}]
                if model.can_add(name, typ, None, ctx.reserved):
                    model.add(name, op[2]["v"], typ, None)
            else:
                dims = gens.custom_dims(src, size, typ == "string")
                if name in model.conv and model.conv[name]["dimensions"]:
                    option = model.conv[name]["dimensions"].split(", ")[0]
                    spec = gens.value_for(src, option, typ, dict(
                        {d.upper(): 1 for d in option}, **size),
                        definers(model.conv[name]), False, False)
                else:
                    definer = any(d not in "ERMNCIS" for d in dims)
                    spec = gens.value_for(src, dims, typ, size, definer,
                                          False, False)
                wrong = src.int(0, 19)
                dtype = typ
                if wrong == 0:
                    dtype = src.choice(["float", "int", "Double", "str", "",
                                        "char", None, "attribute"])
                elif wrong == 1:
                    dims = None
                elif wrong == 2:
                    dims = src.choice([dims.replace("S", "") or "M",
                                       "S" + dims, dims + "S"])
                elif wrong == 3:
                    dims = src.choice([dims + "1", "/", dims + " ", "M1",
                                       dims + ",", " " + dims, "_" + dims,
                                       "-", dims + "\n", "(M)"])
                op = ["addv", name, spec, dtype,
                      gens.dims_text(src, dims) if dims else dims]
                if model.can_add(name, dtype, dims, ctx.reserved):
                    model.add(name, vals.make(spec), dtype, dims)
            ops.append(op)
        return {"recipe": recipe, "ops": ops,
                "wrong": src.choice(["type", "shape"])}

    def run(self, ctx, case):
        sofa, model = pair(ctx, case["recipe"])
        good = bad = 0
        for op in case["ops"]:
            if op[0] == "del":
                if op[1] in model.entries:
                    ctx.ok(f"deleting {op[1]}", sofa.delete, op[1])
                    model.delete(op[1])
                continue
            name = op[1]
            value = vals.make(op[2])
            if op[0] == "adda":
                typ, dims = "attribute", None
                fn, args = sofa.add_attribute, (name, value)
            else:
                typ, dims = op[3:]
                fn, args = sofa.add_variable, (name, value, typ, dims)
            before = frozen(sofa)
            if model.can_add(name, typ, dims, ctx.reserved):
                o = ctx.ok(f"adding {name!r} ({typ}, {dims})", fn, *args)
                if dims and "," not in dims:
                    new = set(dims.upper()) - set("ERMNCIS")
                    check(bool(o.warnings) == bool(new), f"adding {name!r} "
                          f"({typ}, {dims}) gave {o.describe()} "
                          f"{o.warnings}")
                model.add(name, vals.make(op[2]), typ, dims)
                changed = diff(before, frozen(sofa))
                check(changed == [name], f"adding {name} changed {changed}")
                good += 1
            else:
                ctx.raises(ValueError, f"adding {name!r} ({typ}, {dims})",
                           fn, *args)
                changed = diff(before, frozen(sofa))
                check(not changed, f"the rejected addition of {name} changed"
                      f" {changed}")
                bad += 1
        compare(sofa, model, "object with custom entries")
        issues = model.clone().verify("raise")
        o = ctx.call(sofa.verify)
        errors = issues.errors("raise", "write")
        check((o.exc is not None) == errors, f"verify gave {o.describe()}, "
              f"reference: {issues}")
        if errors:
            check(isinstance(o.exc, ValueError), o.describe())
            if not issues.fatal("raise"):
                words = named(str(o.exc))
                lost = {k for k in issues.names if k not in words
                        and len(k) > 2 and k.isidentifier()}
                check(not lost, f"{sorted(lost)} not named in {o.exc}")
            ctx.label("names" if issues.names else "other issues")
            return good > 0 and bad > 0
        compare(sofa, model, "verified object")
        dup = sofa.copy()
        compare(dup, model, "copy")
        path = os.path.join(ctx.folder(), "a.sofa")
        ctx.ok("writing", ctx.sf.write_sofa, path, dup)
        self.file(path, model)
        read = ctx.ok("reading", ctx.sf.read_sofa, path, "auto", False).value
        model.entries["GLOBAL_DateModified"] = read.GLOBAL_DateModified
        compare(read, model, "read object")
        again = path[:-5] + "2.sofa"
        ctx.ok("writing again", ctx.sf.write_sofa, again, read)
        self.file(again, model)
        # type and dimensions are still in charge
        custom = sorted(k for k in model.custom if k in model.entries)
        for obj in (sofa, dup, read):
            for key in custom:
                entry = model.custom[key]
                old = getattr(obj, key)
                if case["wrong"] == "type" or entry["dimensions"] is None:
                    value = 5 if entry["type"] != "double" else "text"
                else:
                    n = len(entry["dimensions"])
                    value = [[["a"]]] if entry["type"] == "string" else 1.
                    if "I" not in entry["dimensions"]:
                        continue
                    shape = [1] * n
                    shape[entry["dimensions"].index("I")] = 2
                    if n == 1:
                        shape = [2]
                    value = np.zeros(shape) if entry["type"] == "double" \
                        else np.full(shape, "a")
                setattr(obj, key, value)
                o = ctx.call(obj.verify, issue_handling="return")
                check(o.exc is None, f"verify: {o.describe()}")
                check(o.value is not None and (
                    len(key) < 3 or key in named(o.value) or
                    not key.isidentifier()),
                    f"custom {key} ({entry['type']}, {entry['dimensions']})"
                    f" = {value!r} was accepted: {o.value}")
                setattr(obj, key, old)
        # deleted entries are gone
        for key in custom:
            if key not in public(read):
                continue
            before = frozen(read)
            ctx.ok(f"deleting {key}", read.delete, key)
            check(diff(before, frozen(read)) == [key],
                  f"deleting {key} changed {diff(before, frozen(read))}")
        ctx.label("written")
        if custom:
            o = ctx.call(read.verify, issue_handling="return")
            m = copy.deepcopy(model.clone())
            for key in custom:
                m.delete(key)
            i = m.verify("return")
            check((o.value is not None) == (i.errors("return", "write") or
                                            i.warns("return", "write")),
                  f"after deleting custom entries: {o.value}, {i}")
        return bool(custom) or (good > 0 and bad > 0)

    @staticmethod
    def file(path, model):
        with netCDF4.Dataset(path) as f:
            for key, entry in model.custom.items():
                if key not in model.entries or entry["dimensions"] is None:
                    continue
                var = f.variables[key]
                dims = "".join(var.dimensions)
                check(dims == entry["dimensions"].upper(), f"{key} was "
                      f"written with dimensions {dims} instead of "
                      f"{entry['dimensions']}")
                check((var.dtype == "S1") == (entry["type"] == "string"),
                      f"{key} was written as {var.dtype}")
