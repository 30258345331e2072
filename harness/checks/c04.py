"""C04: reading reflects exactly the content of the file."""
import os
import numpy as np
import netCDF4
import gens
import mutate
import rawfile
import vals
from base import Check
from lib import (Violation, build_model, check, compare, digest, named,
                 public)

KINDS = {k: None for k in ("missing", "shape", "value", "dependency",
                           "unit", "name")}
# variables that can not be entries
STRAY = ["copy", "verify", "inspect", "info", "protected", "delete",
         "list_dimensions", "_private", "_custom", "_api", "_convention"]
DTYPES = ["f8", "f8", "f4", "i4", "i2", "i8", ">f8"]


def dangling(model):
    return [k for k in model.entries if model.typ(k) == "attribute"
            and not k.startswith("GLOBAL_")
            and k[:k.rindex("_")] not in model.entries]


class CHECK(Check):
    ID = "C04"
    RULE = (
        "Three kinds of cases: (sofa) the data of a generated object, valid "
        "or with up to two violations of the standard, written with the "
        "netCDF4 library in random entry order, data types, string lengths "
        "and file formats; (netcdf) arbitrary numeric/character netCDF files "
        "for read_sofa_as_netcdf; (unknown) files with unknown conventions "
        "or versions. Non-trivial: files that differ from what write_sofa "
        "would write, or are invalid.")
    ASSUMPTIONS = ["the netCDF4 library is the independent writer",
                   "attribute values are text or numbers"]
    QUICK = 425
    THOROUGH = 6000

    def gen(self, src, ctx):
        world = ctx.world
        kind = src.weighted((12, "sofa"), (5, "netcdf"), (1, "unknown"))
        if kind == "sofa":
            conv = src.choice(world.conventions)[:2]
            recipe = gens.valid(src, world, conv=conv, customs=3,
                                reserved=ctx.reserved, small=True)
            if src.chance(45):
                model = build_model(ctx, recipe)
                recipe["ops"] = recipe["ops"] + mutate.mutate(
                    src, model, KINDS)
            case = {"kind": kind, "recipe": recipe,
                    "order": [src.int(0, 9) for _ in range(src.int(1, 7))],
                    "dtypes": [src.choice(DTYPES)
                               for _ in range(src.int(1, 3))],
                    "pad": src.choice([0, 0, 1, 5]),
                    "zlib": src.chance(30),
                    "format": src.weighted((6, "NETCDF4"),
                                           (1, "NETCDF4_CLASSIC")),
                    "verify": src.choice(["auto", "auto", True, False]),
                    "attribute": src.weighted((9, None), (1, 5), (1, 1.5)),
                    "suffix": src.chance(80),
                    "stray": src.choice([None] * 4 + STRAY)}
            return case
        if kind == "unknown":
            names = [c[0] for c in world.conventions]
            name, version = src.choice(world.conventions)[:2]
            return {"kind": kind,
                    "name": src.choice([name, name + "X", name[:-1], "",
                                        name.lower(), src.text(ascii=True)]),
                    "version": src.choice([
                        version, "99.0", "1", "", "1.00", version + "0",
                        " " + version, "latest"]),
                    "base": [name, version], "known": sorted(set(names))}
        return self.gen_netcdf(src, ctx)

    def gen_netcdf(self, src, ctx):
        dims = [[n, src.int(1, 4)] for n in
                ["M", "Time", "x", "dim_2", "S", "C"][:src.int(1, 6)]]
        taken = set(ctx.reserved)
        variables = []
        for _ in range(src.int(0, 5)):
            name = src.choice([n for n in (
                "Alpha", "beta", "Data.IR", "Data.Delay", "N", "x1",
                "ListenerPosition", "Temp_erature", "M", "Foo", "name2",
                "Zahl") if n not in taken])
            taken.add(name)
            var = {"name": name, "attrs": []}
            string = src.chance(35)
            nd = src.int(1 if string else 0, 3)
            var["dims"] = [src.choice(dims)[0] for _ in range(nd)]
            if len(set(var["dims"])) < len(var["dims"]) and string:
                var["dims"] = sorted(set(var["dims"]))
            size = dict(dims)
            shape = [size[d] for d in var["dims"]]
            if string:
                length = shape.pop()
                n = int(np.prod(shape)) if shape else 1
                var["type"] = "string"
                var["vals"] = ["".join(src.choice("ab xyZ9")
                                       for _ in range(src.int(0, length)))
                               for _ in range(min(n, 4))]
            else:
                var["type"] = src.choice(["f8", "f4", "i1", "i2", "i4",
                                          "i8", "u2", ">f8"])
                var["spec"] = {"k": "num", "form": "array", "shape": shape,
                               "fill": "small", "seed": src.int(0, 999)}
                if src.chance(25):
                    var["spec"]["mask"] = src.int(0, 99)
            for a in src.sample(["Units", "name", "Note", "dtype", "shape",
                                 "long_name", "Encoding", "FillValue",
                                 "encoding"], 3):
                var["attrs"].append([a, self.gen_attr(src)])
            variables.append(var)
        attrs = [[a, self.gen_attr(src)] for a in src.sample(
            ["Conventions", "Title", "path", "Any Name", "x", "name",
             "SOFAConventions"], 4)]
        return {"kind": "netcdf", "dims": dims, "vars": variables,
                "attrs": attrs, "format": src.choice(
                    ["NETCDF4", "NETCDF4", "NETCDF4_CLASSIC"])}

    @staticmethod
    def gen_attr(src):
        return src.choice([src.text(), src.text(), src.int(-5, 5), 1.5])

    # -----------------------------------------------------------------------
    def run(self, ctx, case):
        return getattr(self, "run_" + case["kind"])(ctx, case)

    def run_unknown(self, ctx, case):
        name, version = case["name"], case["version"]
        model = build_model(ctx, {"conv": case["base"][0], "version":
                                  case["base"][1], "mandatory": False,
                                  "ops": []})
        model.entries["GLOBAL_SOFAConventions"] = name
        model.entries["GLOBAL_SOFAConventionsVersion"] = version
        path = os.path.join(ctx.folder(), "a.sofa")
        rawfile.write_model(path, model, {})
        known = version in ctx.world.by_name.get(name, {})
        for verify in ("auto", True, False):
            o = ctx.call(ctx.sf.read_sofa, path, verify, False)
            if not known:
                check(isinstance(o.exc, ValueError),
                      f"reading convention {name!r} version {version!r} "
                      f"gave {o.describe()}")
        ctx.raises(ValueError, "reading a missing file", ctx.sf.read_sofa,
                   path[:-6] + "missing.sofa")
        ctx.raises(ValueError, "reading a folder", ctx.sf.read_sofa,
                   os.path.dirname(path))
        ctx.raises(ValueError, "reading a missing file",
                   ctx.sf.read_sofa_as_netcdf, path[:-6] + "missing.sofa")
        # the data can be accessed in any case
        o = ctx.ok("read_sofa_as_netcdf", ctx.sf.read_sofa_as_netcdf, path)
        compare(o.value, model, "read_sofa_as_netcdf")
        ctx.label("unknown" if not known else "known")
        return not known

    def run_sofa(self, ctx, case):
        model = build_model(ctx, case["recipe"])
        for key in dangling(model):
            # can not be stored in files
            model.delete(key)
        for key in model.free:
            model.entries[key] = "now"
        model.free.clear()
        if case["attribute"] is not None and \
                "GLOBAL_Comment" in model.entries:
            model.set("GLOBAL_Comment", case["attribute"])
        name, version = model.name, model.version
        if "GLOBAL_SOFAConventions" not in model.entries or \
                "GLOBAL_SOFAConventionsVersion" not in model.entries:
            return False
        if any(model.ambiguous(k) for k in model.variables()
               if model.type_ok(k)):
            return False
        path = os.path.join(ctx.folder(), "a.sofa")
        rawfile.write_model(path, model, case)
        if case.get("stray"):
            with netCDF4.Dataset(path, "a") as f:
                if "I" not in f.dimensions:
                    f.createDimension("I", 1)
                var = f.createVariable(case["stray"], "f8", ["I"])
                var[:] = 3
                var.setncattr("Units", "metre")
        before = digest(path)
        arg = path if case["suffix"] else path[:-5]
        issues = model.clone().verify("raise")
        verify = case["verify"]
        active = float(version) >= 1 if verify == "auto" else verify
        o = ctx.call(ctx.sf.read_sofa, arg, verify, True)
        check(digest(path) == before, "reading changed the file")
        bad = issues.errors("raise", "read")
        if active and bad:
            ctx.label("invalid")
            check(isinstance(o.exc, ValueError), "reading a file that "
                  f"violates the standard ({issues}) gave {o.describe()}")
            o = ctx.call(ctx.sf.read_sofa, arg, False, True)
        check(o.exc is None, f"reading a file failed (verify={verify}): "
              f"{o.describe()}; reference: {issues}")
        compare(o.value, model, "read object")
        self.check_stray(o, case)
        self.check_missing(o, model)
        # custom entries are listed
        listed = named(o.out)
        for key in model.entries:
            if key in model.custom:
                check(key in listed, f"custom entry {key} is not listed")
        if not model.custom:
            check(o.out == "", f"output without custom entries: {o.out}")
        quiet = ctx.call(ctx.sf.read_sofa, arg, False, False)
        check(quiet.out == "", "output although verbose is False")
        # without a convention
        n = ctx.ok("read_sofa_as_netcdf", ctx.sf.read_sofa_as_netcdf, arg)
        compare(n.value, model, "read_sofa_as_netcdf")
        self.check_stray(n, case)
        self.check_missing(n, model)
        check(digest(path) == before, "reading changed the file")
        # custom data keep their type and dimensions
        if not bad and model.custom and not issues.units and \
                not issues.deprecated:
            ctx.label("custom")
            again = os.path.join(os.path.dirname(path), "b.sofa")
            ctx.ok("writing a read file", ctx.sf.write_sofa, again, o.value)
            with netCDF4.Dataset(again) as f:
                for key, entry in model.custom.items():
                    if entry["dimensions"] is None:
                        continue
                    dims = "".join(f[key].dimensions)
                    check(dims == entry["dimensions"].upper(),
                          f"custom variable {key} has dimensions {dims} "
                          f"instead of {entry['dimensions']}")
        for op in case["recipe"]["ops"]:
            ctx.label(op[0])
        return bad or len(case["order"]) > 1 or bool(model.custom)

    @staticmethod
    def check_stray(o, case):
        """Variables named like methods are left out, but not silently."""
        if case.get("stray"):
            name = case["stray"]
            check(any(name in m for m in o.messages),
                  f"no warning that {name} is not read: {o.messages}")
            for key in STRAY:
                check(key.startswith("_") or key == "protected"
                      or key not in vars(o.value),
                      f"{key} was overwritten")

    @staticmethod
    def check_missing(o, model):
        """Masked numbers are reported."""
        words = set()
        for m in o.messages:
            if "missing data" in m:
                words |= named(m.replace(".", "_"))
        for key in model.variables():
            if np.ma.is_masked(model.entries[key]):
                check(key in words, f"missing data in {key} not reported: "
                      f"{o.messages}")
                check(np.ma.is_masked(getattr(o.value, key)),
                      f"missing data in {key} are not masked")
            elif len(key) > 1:
                check(key not in words, f"{key} reported as missing data")

    def run_netcdf(self, ctx, case):
        path = os.path.join(ctx.folder(), "a.sofa")
        expected = {}
        size = dict(case["dims"])
        with netCDF4.Dataset(path, "w", format=case["format"]) as f:
            classic = case["format"] != "NETCDF4"
            for name, n in case["dims"]:
                f.createDimension(name, n)
            for name, value in case["attrs"]:
                f.setncattr(name, value)
                expected["GLOBAL_" + name] = value
            for var in case["vars"]:
                shape = [size[d] for d in var["dims"]]
                if var["type"] == "string":
                    n = int(np.prod(shape[:-1])) if shape[:-1] else 1
                    value = np.array([var["vals"][i % len(var["vals"])]
                                      for i in range(n)]).reshape(shape[:-1])
                    v = rawfile.variable(f, var["name"], var["dims"], value,
                                         "string")
                else:
                    dtype = var["type"]
                    if classic and dtype in ("i8", "u2"):
                        dtype = "i4"
                    value = vals.make(var["spec"])
                    if dtype == "u2":
                        value = abs(value)
                    v = rawfile.variable(f, var["name"], var["dims"], value,
                                         "double", dtype)
                    if dtype == "i1":
                        # (there is no fill value for bytes)
                        value = np.ma.getdata(value) if not np.ma.is_masked(
                            value) else value
                key = var["name"].replace(".", "_")
                expected[key] = value
                for a, text in var["attrs"]:
                    v.setncattr(a, text)
                    expected[f"{key}_{a}"] = text
        before = digest(path)
        masked_bytes = [v["name"].replace(".", "_") for v in case["vars"]
                        if v["type"] == "i1" and v["spec"].get("mask")
                        is not None]
        o = ctx.ok("read_sofa_as_netcdf", ctx.sf.read_sofa_as_netcdf, path)
        check(digest(path) == before, "reading changed the file")
        found = set(public(o.value))
        check(found == set(expected), lambda: "entries differ: "
              f"{sorted(found ^ set(expected))}")
        for key, ref in expected.items():
            if key in masked_bytes:
                continue
            value = getattr(o.value, key)
            if isinstance(ref, str):
                check(isinstance(value, str) and value == ref,
                      f"{key} is {value!r} instead of {ref!r}")
                continue
            a, b = np.ma.asarray(value), np.ma.asarray(ref)
            if b.dtype.kind == "U":
                check(a.dtype.kind == "U", f"{key} is not text")
            else:
                check(a.dtype.kind in "ifu", f"{key} is not numeric")
            check(a.size == b.size and (a.size == 1 or
                                        a.shape == b.shape),
                  f"{key} has shape {a.shape} instead of {b.shape}")
            ma, mb = (np.ma.getmaskarray(x).ravel() for x in (a, b))
            check(np.array_equal(ma, mb), f"{key}: missing data differ")
            da, db = (np.ma.getdata(x).ravel()[~ma] for x in (a, b))
            check(np.array_equal(da, db),
                  f"{key} is {da} instead of {db}")
        ctx.label("netcdf")
        return len(expected) > 1
