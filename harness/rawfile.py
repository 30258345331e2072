"""Write netCDF files independently of sofar."""
import numpy as np
import netCDF4
import vals


def chars(array, length):
    """Array of strings to array of characters."""
    array = np.asarray(array)
    if array.dtype.kind == "S":
        array = np.char.decode(array, "utf-8")
    out = np.zeros(array.shape + (length,), dtype="S1")
    for index in np.ndindex(array.shape):
        data = str(array[index]).encode("utf-8")
        for i in range(len(data)):
            out[index + (i,)] = data[i:i + 1]
    return out


def exact(array, dtype):
    """True if the numbers can be stored in the given type."""
    with np.errstate(all="ignore"):
        data = np.asarray(array, dtype=float)
        if np.dtype(dtype).kind in "iu" and not np.all(np.isfinite(data)):
            return False
        cast = data.astype(dtype)
        if not np.array_equal(cast.astype(float), data, equal_nan=True) or \
                np.any(np.signbit(cast.astype(float)) != np.signbit(data)):
            return False
        code = np.dtype(dtype).str[1:]
        fill = netCDF4.default_fillvals.get(code)
        return fill is None or not np.any(cast == np.array(fill, dtype))


def variable(f, name, dims, value, typ, dtype="f8", **kwargs):
    """Create and fill one variable."""
    if typ == "string":
        var = f.createVariable(name, "S1", dims, **kwargs)
        var.set_auto_chartostring(False)
        shape = tuple(len(f.dimensions[d]) for d in dims[:-1])
        length = len(f.dimensions[dims[-1]])
        array = np.asarray(value).reshape(shape)
        var[:] = chars(array, length)
        return var
    var = f.createVariable(name, dtype, dims, **kwargs)
    shape = tuple(len(f.dimensions[d]) for d in dims)
    if isinstance(value, np.ma.MaskedArray):
        var[...] = np.ma.masked_array(
            np.ma.getdata(value).astype(dtype).reshape(shape),
            mask=np.ma.getmaskarray(value).reshape(shape))
    else:
        var[...] = np.asarray(value).astype(dtype).reshape(shape)
    return var


def write_model(path, model, case):
    """
    Write the data of a model.

    case : dict with optional keys
        order : list of numbers to reorder the entries
        dtypes : list of data types that are used if they can hold the data
        pad : additional length of strings
        format : netCDF format
    """
    fmt = case.get("format", "NETCDF4")
    sizes = dict(model.solve() or {}, C=3, I=1)
    order = case.get("order") or [0]
    keys = list(model.entries)
    position = {k: i for i, k in enumerate(keys)}
    keys.sort(key=lambda k: order[position[k] % len(order)])
    with netCDF4.Dataset(path, "w", format=fmt) as f:
        length = max(1, model.string_length() + case.get("pad", 0))
        f.createDimension("S", length)

        def dim(name, size):
            if name not in f.dimensions:
                f.createDimension(name, size)
            return name

        for key in keys:
            if key.startswith("GLOBAL_"):
                f.setncattr(key[7:], model.entries[key])
        # (dimensions first, the library fails if a variable of the same name
        # is older)
        plan = {}
        for key in [k for k in keys if k in model.variables()]:
            entry = model.entry(key)
            shape = model.shape(key)
            dims = None
            for option in entry["dimensions"].split(", "):
                padded = shape + (1,) * (len(option) - len(shape))
                if len(padded) == len(option) and all(
                        s == (1 if d == "S" else sizes.get(d.upper()))
                        for d, s in zip(option, padded)):
                    dims = [d if d == "S" else dim(d.upper(),
                                                   sizes[d.upper()])
                            for d in option]
                    break
            if dims is None:
                # data that do not fit
                array = np.asarray(model.entries[key])
                raw = shape if -1 not in shape else array.shape
                # (vectors would become row vectors)
                raw = tuple(raw) + (1,) * (
                    (entry["type"] == "double") *
                    (model.ndims(key) - len(raw)))
                dims = [dim(f"D{s}", s) for s in raw] or [dim("I", 1)]
                if entry["type"] == "string":
                    dims = dims + ["S"]
            elif entry["type"] == "string" and dims[-1] != "S":
                dims = dims + ["S"]
            plan[key] = dims
        for i, (key, dims) in enumerate(plan.items()):
            entry = model.entry(key)
            dtype = "f8"
            wanted = case.get("dtypes") or ["f8"]
            wanted = wanted[i % len(wanted)]
            if wanted == "i8" and fmt != "NETCDF4":
                wanted = "i4"
            value = model.entries[key]
            if entry["type"] == "double" and exact(
                    np.ma.filled(value, 0) if isinstance(
                        value, np.ma.MaskedArray) else value, wanted):
                dtype = wanted
            name = "Data." + key[5:] if key.startswith("Data_") else key
            kwargs = {}
            if fmt == "NETCDF4" and case.get("zlib"):
                kwargs["zlib"] = True
            var = variable(f, name, dims, value, entry["type"], dtype,
                           **kwargs)
            for k in keys:
                if k.startswith(key + "_") and k[:k.rindex("_")] == key \
                        and model.typ(k) == "attribute":
                    var.setncattr(k[len(key) + 1:], model.entries[k])
