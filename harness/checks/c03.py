"""C03: files follow the SOFA/netCDF layout."""
import os
import numpy as np
import netCDF4
import gens
import vals
from base import Check
from lib import check, pair


def decode(chars):
    """Strings from an array of characters."""
    data = np.ma.getdata(chars)
    shape, length = data.shape[:-1], data.shape[-1]
    n = int(np.prod(shape)) if shape else 1
    rows = np.ascontiguousarray(data).reshape(n, length)
    out = [b"".join(bytes(c) if c else b"\0" for c in row.tolist())
           .rstrip(b"\0").decode("utf-8") for row in rows]
    a = np.empty(n, dtype=object)
    a[:] = out
    return a.reshape(shape).astype("U")


class CHECK(Check):
    ID = "C03"
    RULE = (
        "A case is a generated valid object (as for C01) and a compression "
        "level; the file is inspected with the netCDF4 library directly. "
        "Non-trivial: at least one dimension larger than one.")
    ASSUMPTIONS = ["the netCDF4 library is the independent reader"]
    QUICK = 375
    THOROUGH = 5000

    def gen(self, src, ctx):
        return {"recipe": gens.valid(src, ctx.world, customs=3,
                                     reserved=ctx.reserved),
                "compression": src.choice([None] + list(range(10)))}

    def run(self, ctx, case):
        sofa, model = pair(ctx, case["recipe"])
        path = os.path.join(ctx.folder(), "a.sofa")
        # (4 is the documented default)
        args = [] if case["compression"] is None else [case["compression"]]
        ctx.ok("writing a valid object", ctx.sf.write_sofa, path, sofa, *args)
        sizes = dict(model.solve(), C=3, I=1, S=model.string_length())
        with netCDF4.Dataset(path) as f:
            f.set_auto_maskandscale(False)
            f.set_auto_chartostring(False)
            self.inspect(ctx, f, model, sizes, args[0] if args else 4)
        # the entire sequence of compression levels is the same data
        return any(v > 1 for k, v in sizes.items() if k in "MREN")

    def inspect(self, ctx, f, model, sizes, compression):
        check(not f.groups, "the file contains groups")
        check(f.data_model.startswith("NETCDF4"), f"format {f.data_model}")
        found = {k: len(d) for k, d in f.dimensions.items()}
        if sizes["S"] == 0 and found.get("S") == 1:
            # netCDF can not store strings without characters
            found["S"] = 0
        check(found == sizes, f"dimensions are {found} instead of {sizes}")
        ref = {k[7:]: v for k, v in model.entries.items()
               if k.startswith("GLOBAL_")}
        found = {k: f.getncattr(k) for k in f.ncattrs()}
        check(found == ref, lambda: f"global attributes differ: "
              f"{[(k, found.get(k), ref.get(k)) for k in set(found) | set(ref) if found.get(k) != ref.get(k)]}")
        variables = {("Data." + k[5:] if k.startswith("Data_") else k): k
                     for k in model.variables()}
        check(set(f.variables) == set(variables),
              f"variables {sorted(set(f.variables) ^ set(variables))}")
        for name, key in variables.items():
            var = f.variables[name]
            typ = model.typ(key)
            allowed = [tuple(o.upper()) for o in
                       model.entry(key)["dimensions"].split(", ")]
            check(tuple(var.dimensions) in allowed,
                  f"{name} has dimensions {var.dimensions}, not {allowed}")
            check(var.dtype == np.dtype("f8" if typ == "double" else "S1"),
                  f"{name} is of type {var.dtype}")
            if typ == "double":
                data = var[:]
                fill = netCDF4.default_fillvals["f8"]
                mask = data == fill
                data = np.ma.masked_array(data, mask=mask) if mask.any() \
                    else data
            else:
                check(var.dimensions[-1] == "S", f"{name} lacks S")
                data = decode(var[:])
            found = vals.canon(data, typ, model.ndims(key))
            ref = model.canon(key)
            check(found == ref, lambda: f"{name} is {vals.show(found)} "
                  f"instead of {vals.show(ref)}")
            attrs = {k[len(key) + 1:]: v for k, v in model.entries.items()
                     if k.startswith(key + "_")
                     and model.typ(k) == "attribute"
                     and k[:k.rindex("_")] == key}
            found = {k: var.getncattr(k) for k in var.ncattrs()}
            check(found == attrs, f"attributes of {name} are {found} instead "
                  f"of {attrs}")
            filters = var.filters()
            check(bool(filters["zlib"]) == (compression > 0),
                  f"{name}: zlib is {filters['zlib']} for {compression}")
            if compression:
                check(filters["complevel"] == compression,
                      f"{name}: level {filters['complevel']} for "
                      f"{compression}")
        for op in (typ for typ in map(model.typ, model.variables())):
            ctx.label(op)
