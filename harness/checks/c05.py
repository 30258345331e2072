"""C05: SofaStream agrees with the file and with read_sofa."""
import os
import re
import numpy as np
import netCDF4
import gens
import rawfile
import vals
from base import Check
from lib import (Violation, build_model, canons, check, compare, digest, pair)

NUMBER = re.compile(r"[-+]?(?:nan|inf|\d+\.?\d*(?:e[-+]?\d+)?|\.\d+)")


def index(slices, shape):
    """An index from plain data."""
    out = []
    for i, size in enumerate(shape):
        kind, a, b, step = slices[i % len(slices)]
        if kind == "int":
            out.append(a % size)
        elif kind == "neg":
            out.append(-1 - a % size)
        elif kind == "all":
            out.append(slice(None))
        elif kind == "list":
            out.append(sorted({a % size, b % size}))
        else:
            low, high = sorted((a % size, b % size))
            out.append(slice(low, high + 1, step))
    # (two lists are independent in netCDF4 but not in numpy)
    lists = [i for i, o in enumerate(out) if isinstance(o, list)]
    for i in lists[1:]:
        out[i] = slice(None)
    if lists and any(isinstance(o, int) for o in out):
        out[lists[0]] = slice(None)
    return tuple(out)


def same(a, b):
    a, b = np.ma.asarray(a), np.ma.asarray(b)
    if a.shape != b.shape or a.dtype.kind != b.dtype.kind:
        return False
    ma, mb = np.ma.getmaskarray(a), np.ma.getmaskarray(b)
    if not np.array_equal(ma, mb):
        return False
    a, b = np.ma.getdata(a)[~ma], np.ma.getdata(b)[~mb]
    if a.dtype.kind == "f":
        return np.array_equal(a, b, equal_nan=True)
    return np.array_equal(a, b)


def is_open(path):
    real = os.path.realpath(path)
    for fd in os.listdir("/proc/self/fd"):
        try:
            if os.path.realpath(os.readlink(f"/proc/self/fd/{fd}")) == real:
                return True
        except OSError:
            pass
    return False


class Boom(Exception):
    pass


class CHECK(Check):
    ID = "C05"
    RULE = (
        "A case is the file of a generated valid object (written by sofar, "
        "or with the netCDF4 library in other types, order and format), "
        "slices for each variable, names that are nearly right and a way to "
        "leave the context. Non-trivial: the file holds an array.")
    ASSUMPTIONS = ["the netCDF4 library is the independent reader"]
    ASCII = True
    QUICK = 375
    THOROUGH = 5000

    def gen(self, src, ctx):
        recipe = gens.valid(src, ctx.world, customs=3, small=True,
                            reserved=ctx.reserved)
        raw = None
        if src.chance(40):
            raw = {"order": [src.int(0, 9) for _ in range(src.int(1, 5))],
                   "dtypes": [src.choice(["f8", "f4", "i4", "i2", ">f8"])],
                   "pad": src.choice([0, 1, 5]), "zlib": src.chance(30)}
        return {"recipe": recipe, "raw": raw,
                "slices": [[src.choice(["int", "all", "neg", "slice",
                                        "slice", "list"]), src.int(0, 20),
                            src.int(0, 20), src.int(1, 3)]
                           for _ in range(src.int(1, 4))],
                "near": [src.int(0, 999), src.choice(
                    ["lower", "X", "cut", "noglobal", "swap", "_", "__",
                     "GLOBAL"])],
                "leave": src.choice(["end", "end", "error"]),
                "second": src.chance(40),
                "dots": src.choice([None, "Other.Gain", "A.B.C", "foo.x",
                                    "Data.Foo.Bar", "Dat.a"]),
                "datatype": src.choice([None, None, "Audio", "FIRE", "fir",
                                        "", "SOS-E"])}

    def run(self, ctx, case):
        sf = ctx.sf
        folder = ctx.folder()
        path = os.path.join(folder, "a.sofa")
        sofa, model = pair(ctx, case["recipe"])
        if case["raw"] is None:
            ctx.ok("writing", sf.write_sofa, path, sofa)
            for key in ("GLOBAL_DateModified",):
                model.entries[key] = getattr(sofa, key)
        else:
            rawfile.write_model(path, model, case["raw"])
        sizes = dict(model.solve(), C=3, I=1)
        before = digest(path)
        read = ctx.ok("read_sofa", sf.read_sofa, path, True, False).value
        with netCDF4.Dataset(path) as f:
            data = {k: v[...] for k, v in f.variables.items()}
            dims = {k: v.dimensions for k, v in f.variables.items()}
            dtypes = {k: v.dtype for k, v in f.variables.items()}
            attrs = {k: v.__dict__ for k, v in f.variables.items()}
            for k, v in f.variables.items():
                attrs[k] = {a: v.getncattr(a) for a in v.ncattrs()}
            top = {a: f.getncattr(a) for a in f.ncattrs()}
            lengths = {k: len(d) for k, d in f.dimensions.items()}
        for letter, size in sizes.items():
            check(lengths.get(letter, size) == size, "reference sizes")
        stream = sf.SofaStream(path)
        before_open = ctx.raises(
            AttributeError, "access outside of the context",
            getattr, stream, "GLOBAL_Title")
        del before_open
        boom = False
        other = None
        if case["second"]:
            other = os.path.join(folder, "other.sofa")
            o2 = sf.Sofa("GeneralTF", verify=False)
            o2.GLOBAL_Title = "another file"
            ctx.ok("writing", sf.write_sofa, other, o2)
            if case.get("datatype") is not None:
                with netCDF4.Dataset(other, "a") as f:
                    f.setncattr("DataType", case["datatype"])
                with sf.SofaStream(other) as t:
                    o = ctx.ok(f"list_dimensions of {case['datatype']!r}",
                               lambda: t.list_dimensions)
                    check(re.search("^N = 1 ", o.out, re.M) and
                          re.search("^C = 3 ", o.out, re.M),
                          f"list_dimensions shows {o.out}")

            if case.get("dots"):
                self.dots(ctx, other, case["dots"], folder)

        def body():
            nonlocal boom
            with stream as s:
                if other:
                    with sf.SofaStream(other) as t:
                        check(t.GLOBAL_Title == "another file",
                              "second stream shows wrong data")
                    check(not is_open(other), "the second file stays open")
                self.content(ctx, case, s, model, data, dims, dtypes, attrs,
                             top, lengths)
                self.names(ctx, case, s, model, data, attrs, top)
                self.reports(ctx, case, s, data, dims, attrs, top, lengths,
                             folder)
                check(is_open(path), "the file is not open")
                if case["leave"] == "error":
                    boom = True
                    raise Boom()

        try:
            body()
        except Boom:
            boom = False
        check(not boom, "the context swallows errors")
        check(not is_open(path), "the file stays open")
        check(digest(path) == before, "the stream changed the file")
        # all data
        with sf.SofaStream(path) as s:
            found = {}
            for key in model.entries:
                value = getattr(s, key)
                if model.typ(key) != "attribute":
                    value = value[...]
                    if model.typ(key) == "string":
                        value = np.atleast_1d(netCDF4.chartostring(
                            np.ma.filled(value, b""), encoding="utf-8"))
                found[key] = vals.canon(value, model.typ(key),
                                        model.ndims(key))
        real = canons(read, model)
        for key in sorted(set(real) | set(found)):
            check(real.get(key) == found.get(key), lambda: f"{key} is "
                  f"{vals.show(found.get(key))} in the stream but "
                  f"{vals.show(real.get(key))} in read_sofa")
        compare(read, model, "read_sofa")
        return any(v > 1 for k, v in sizes.items() if k in "MREN")

    def dots(self, ctx, path, name, folder):
        """Dots in the names of files of other programs."""
        with netCDF4.Dataset(path, "a") as f:
            v = f.createVariable(name, "f8", ("M", "C"))
            v[:] = [[1.5, -2., 3.]]
            v.setncattr("Units", "metre")
        key = name.replace(".", "_")
        read = ctx.ok(f"reading {name}", ctx.sf.read_sofa, path, False,
                      False).value
        check(np.array_equal(np.ravel(getattr(read, key)), [1.5, -2., 3.]),
              f"{key} of read_sofa")
        with ctx.sf.SofaStream(path) as s:
            for k in (name, key):
                v = getattr(s, k)
                check(isinstance(v, netCDF4.Variable) and
                      np.array_equal(v[...], [[1.5, -2., 3.]]), f"{k} of "
                      "the stream")
            check(getattr(s, key + "_Units") == read.__dict__[key + "_Units"]
                  == "metre", f"{key}_Units")
            report = os.path.join(folder, "dots.txt")
            ctx.ok("inspect", s.inspect, report)
            with open(report, encoding="utf-8") as f:
                lines = f.read().split("\n")
            check(f"{key} : (M=1, C=3)" in lines and
                  f"{key}_Units : metre" in lines,
                  f"inspect shows {name} as {lines[-12:]}")

    def content(self, ctx, case, s, model, data, dims, dtypes, attrs, top,
                lengths):
        sf_class = type(s)
        for name, value in top.items():
            found = getattr(s, "GLOBAL_" + name)
            check(type(found) is type(value) and found == value,
                  f"GLOBAL_{name} is {found!r} instead of {value!r}")
            # (the prefix can be left out if this is unambiguous)
            taken = hasattr(sf_class, name) or name.startswith(
                ("_", "GLOBAL_")) or any(
                (name + "_").startswith((k + "_", k.replace(".", "_") + "_"))
                for k in data)
            if not taken and case["near"][0] % 3 == 0:
                found = getattr(s, name)
                check(type(found) is type(value) and found == value,
                      f"{name} is {found!r} instead of {value!r}")
        for name in data:
            key = name.replace(".", "_")
            var = getattr(s, key)
            check(isinstance(var, netCDF4.Variable),
                  f"{key} is a {type(var).__name__}")
            check(var.shape == data[name].shape and
                  var.dimensions == dims[name] and
                  var.dtype == dtypes[name],
                  f"{key} is {var.dtype}{var.shape} {var.dimensions} instead "
                  f"of {dtypes[name]}{data[name].shape} {dims[name]}")
            i = index(case["slices"], data[name].shape)
            check(same(var[i], data[name][i]), lambda: f"{key}[{i}] is "
                  f"{var[i]} instead of {data[name][i]}")
            check(same(var[...], data[name]), lambda: f"{key} is {var[...]} "
                  f"instead of {data[name]}")
            for a, value in attrs[name].items():
                found = getattr(s, f"{key}_{a}")
                check(type(found) is type(value) and found == value,
                      f"{key}_{a} is {found!r} instead of {value!r}")
        for name, size in lengths.items():
            found = s.get_dimension(name)
            check(found == size, f"get_dimension({name!r}) is {found} "
                  f"instead of {size}")
        for name in ("Z", "", "m", "MM", "Data_IR", "GLOBAL_Title"):
            if name not in lengths:
                ctx.raises(ValueError, f"get_dimension({name!r})",
                           s.get_dimension, name)

    def names(self, ctx, case, s, model, data, attrs, top):
        known = {"GLOBAL_" + a for a in top} | set(top)
        for name in data:
            key = name.replace(".", "_")
            known |= {name, key} | {f"{key}_{a}" for a in attrs[name]}
        keys = sorted(k for k in known if k.startswith("GLOBAL_")
                      or k not in top)
        key = keys[case["near"][0] % len(keys)]
        kind = case["near"][1]
        near = {"lower": key.lower(), "X": key + "X", "cut": key[:-1],
                "noglobal": key.replace("GLOBAL_", "GLOBALS_"),
                "swap": key.swapcase(), "_": key.replace("_", "", 1),
                "__": key.replace("_", "__"),
                "GLOBAL": "GLOBAL_" + key}[kind]
        probes = [near, "GLOBAL_", "Data", "Data_", "GLOBAL_Titel",
                  "SourcePosition_", "Foo_Bar", "nothing"]
        # attributes of other variables
        variables = sorted(data)
        a = variables[case["near"][0] % len(variables)].replace(".", "_")
        for b in attrs.values():
            probes += [f"{a}_{n}" for n in b]
        probes += [f"{a}_{n}" for n in top]
        probes += [f"{x}{n}" for n in top for x in
                   ("global_", "LOCALS_", "GLOBALS", "GLOBAL__", "_")]
        for name in probes:
            if name not in known and not hasattr(type(s), name) \
                    and name not in s.__dict__:
                o = ctx.call(getattr, s, name)
                check(isinstance(o.exc, AttributeError),
                      f"accessing {name!r}, which is not in the file, gave "
                      f"{o.describe()} and {str(o.value)[:100]!r}")

    def reports(self, ctx, case, s, data, dims, attrs, top, lengths, folder):
        text = os.path.join(folder, "inspect.txt")
        o = ctx.ok("inspect", s.inspect, text)
        with open(text, encoding="utf-8", newline="") as f:
            stored = f.read()
        check(stored.strip() == o.out.strip(),
              "inspect writes other text than it prints")
        check(ctx.ok("inspect", s.inspect).out == o.out,
              "inspect depends on its argument")
        os.remove(text)
        # (values may contain line breaks)
        out = "\n" + o.out
        for name, value in top.items():
            check(f"\nGLOBAL_{name} : {value}\n" in out,
                  f"inspect does not show GLOBAL_{name} = {value!r}")
        for name, array in data.items():
            key = name.replace(".", "_")
            start = out.find(f"\n{key} : ")
            check(start >= 0, f"inspect does not list {key}")
            line = out[start + len(key) + 4:].split("\n")[0]
            if array.size > 1:
                ref = ", ".join(f"{d}={n}" for d, n in zip(
                    dims[name], array.shape))
                check(f"({ref})" in line, f"inspect shows shape {line!r} for"
                      f" {key} instead of {ref}")
            elif array.dtype.kind == "f" and not np.ma.is_masked(array):
                found = NUMBER.findall(line.lower())
                ref = float(array.reshape(-1)[0])
                check(len(found) == 1 and (
                    np.isclose(float(found[0]), ref, 1e-4, 1e-4 * abs(ref),
                               equal_nan=True)),
                      f"inspect shows {line!r} for {key} = {ref}")
            for a, value in attrs[name].items():
                check(f"\n{key}_{a} : {value}\n" in out,
                      f"inspect does not show {key}_{a} = {value!r}")
        # list_dimensions
        o = ctx.ok("list_dimensions", lambda: s.list_dimensions)
        found = dict(re.findall(r"^(\S+) = (\d+) ", o.out, re.M))
        ref = {k: str(v) for k, v in lengths.items()}
        check(found == ref, f"list_dimensions shows {found} instead of "
              f"{ref}")
        for letter, name in (("R", "ReceiverPosition"),
                             ("E", "EmitterPosition")):
            shown = re.search(rf"^{letter} = \d+ (.*)$", o.out, re.M)
            if shown and "Type" in attrs.get(name, {}):
                typ = attrs[name]["Type"]
                check(("harmonic" in typ.lower()) == (
                    "harmonic" in shown[1]), f"the type of {name} is {typ}, "
                    f"but list_dimensions shows {o.out}")
