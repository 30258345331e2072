"""
Values as plain data.

A `spec` is a JSON-able description of a value; `make(spec)` builds the Python
object from it (a new one on every call).  `canon` is the reference notion of
"the same data": double precision numbers, characters, missing data and the
shape up to trailing dimensions of size one.
"""
import numpy as np

SPECIAL = [0.0, -0.0, float("nan"), float("inf"), float("-inf"), 1e308,
           -1e-308, 5e-324, 0.1, 1 / 3, 16777217.0, 2.0**53 + 2, -123456.789,
           1e-300, 1.0 + 2**-52, 255.0, 1e15 + .3]


def flat(spec, n):
    """The numbers of a numeric value."""
    fill, seed = spec.get("fill", "const"), spec.get("seed", 0)
    if fill == "const":
        return np.full(n, float(seed))
    if fill == "range":
        return np.arange(n, dtype=float) + seed
    rng = np.random.RandomState(seed % 2**32)
    if fill == "small":
        return rng.randint(-9, 10, n).astype(float)
    if fill == "big":
        return rng.randint(-2**31, 2**31 - 1, n).astype(float) * \
            (2.0 ** rng.randint(0, 20))
    if fill == "normal":
        return rng.normal(0, 1, n) * 10.0 ** rng.randint(-30, 30)
    if fill == "special":
        return np.array([SPECIAL[i] for i in rng.randint(
            0, len(SPECIAL), n)], dtype=float)
    if fill == "vals":
        vals = spec["vals"]
        return np.array([vals[i % len(vals)] for i in range(n)], dtype=float)
    raise ValueError(fill)


def _nested(array, tuples, ints):
    if array.ndim == 0:
        v = array.item()
        if ints and isinstance(v, float) and v == int(v):
            return int(v)
        return v
    out = [_nested(a, tuples, ints) for a in array]
    return tuple(out) if tuples else out


def make(spec):
    k = spec["k"]
    if k == "text":
        return spec["v"]
    if k == "py":
        return _py(spec["v"])
    if k == "str":
        shape = tuple(spec["shape"])
        n = int(np.prod(shape)) if shape else 1
        vals = [spec["vals"][i % len(spec["vals"])] for i in range(n)]
        form = spec["form"]
        if form == "str":
            return vals[0]
        array = np.array(vals, dtype="U").reshape(shape)
        if form in ("list", "tuple"):
            return _nested(array, form == "tuple", False)
        if form == "S":
            return np.char.encode(array, "ascii")
        if form == "F":
            return np.asfortranarray(array)
        if form == "wide":
            return array.astype(f"U{max(1, array.dtype.itemsize // 4) + 7}")
        return array
    if k == "num":
        shape = tuple(spec["shape"])
        n = int(np.prod(shape)) if shape else 1
        form = spec["form"]
        with np.errstate(all="ignore"):
            array = flat(spec, n).reshape(shape)
            dtype = np.dtype(spec.get("dtype", "f8"))
            if dtype.kind == "i":
                info = np.iinfo(dtype)
                array = np.nan_to_num(array, nan=0, posinf=1, neginf=-1)
                # (the remainder of small numbers is the number itself)
                array = np.fmod(np.trunc(array), float(info.max))
            array = array.astype(dtype)
        if form == "scalar":
            return array.reshape(-1)[0].item()
        if form == "npscalar":
            return array.reshape(-1)[0]
        if form in ("list", "tuple"):
            return _nested(array, form == "tuple", spec.get("ints", False))
        order = spec.get("order", "C")
        if order == "F":
            array = np.asfortranarray(array)
        elif order == "strided" and array.ndim:
            big = np.zeros(tuple(2 * s for s in array.shape), array.dtype)
            view = big[tuple(slice(None, None, 2) for _ in array.shape)]
            view[...] = array
            array = view
        elif order == "reversed" and array.ndim:
            array = array[::-1].copy()[::-1]
        elif order == "readonly":
            array.setflags(write=False)
        if spec.get("mask") is not None:
            m = np.random.RandomState(spec["mask"] % 2**32).rand(n) < .4
            if n and not m.any():
                m[spec["mask"] % n] = True
            array = np.ma.masked_array(array, mask=m.reshape(array.shape))
        return array
    raise ValueError(k)


def _py(v):
    """Odd python objects as tagged data."""
    if isinstance(v, dict):
        tag = v["py"]
        if tag == "none":
            return None
        if tag == "bool":
            return v["v"]
        if tag == "complex":
            return complex(*v["v"])
        if tag == "bytes":
            return v["v"].encode("utf-8")
        if tag == "dict":
            return dict(v["v"])
        if tag == "boolarray":
            return np.array(v["v"], dtype=bool)
        if tag == "complexarray":
            return np.array(v["v"], dtype=complex)
        if tag == "uintarray":
            return np.array(v["v"], dtype="u2")
        if tag == "objarray":
            a = np.empty(len(v["v"]), dtype=object)
            a[:] = v["v"]
            return a
        if tag == "strarray":
            return np.array(v["v"], dtype="U")
        if tag == "floatarray":
            return np.array(v["v"], dtype=float)
        if tag == "datearray":
            return np.array(["2020-01-01", "2021-05-05"], dtype="M8[D]")
        if tag == "set":
            return set(v["v"])
        raise ValueError(tag)
    return v


def stored(value):
    """How assigned values are stored (documented in sofar.Sofa)."""
    if isinstance(value, (str, dict, np.ndarray)):
        return value
    value = np.atleast_2d(value)
    return value.flatten()[0] if value.size == 1 else value


def strip(shape):
    shape = tuple(int(s) for s in shape)
    while shape and shape[-1] == 1:
        shape = shape[:-1]
    return shape


def row_shape(shape, ndims):
    """Shape of numeric data as seen by the standard (no trailing ones)."""
    shape = tuple(int(s) for s in shape)
    if ndims == 1:
        # may be given as row or column vector
        n = int(np.prod(shape)) if shape else 1
        if max(shape, default=1) == n:
            return strip((n,))
        return shape + (-1,) * 3      # not a vector: fits nothing
    if len(shape) == 1:
        shape = (1,) + shape
    return strip(shape)


def canon(value, typ, ndims):
    """Reference meaning of a value; comparable with ==."""
    if typ == "attribute":
        if isinstance(value, (int, float, np.number)) and \
                not isinstance(value, bool):
            # (the size of numbers depends on the file format)
            return ("attribute", "number", str(float(value)))
        return ("attribute", type(value).__name__ if not
                isinstance(value, str) else "str", str(value))
    if typ == "double":
        mask = np.ma.getmaskarray(value) if isinstance(
            value, np.ma.MaskedArray) else np.zeros(np.shape(value), bool)
        data = np.ma.getdata(value) if isinstance(
            value, np.ma.MaskedArray) else np.asarray(value)
        if data.dtype.kind not in "if":
            return ("not numeric", str(data.dtype), repr(value)[:200])
        data = np.array(data, dtype="<f8", order="C")
        data[np.isnan(data)] = np.nan
        if mask.any():
            data = data.copy()
            data[mask] = 0.0
        return ("double", row_shape(data.shape, ndims),
                data.tobytes(), mask.tobytes() if mask.any() else b"")
    if typ == "string":
        array = np.asarray(value)
        if array.dtype.kind == "S":
            array = np.char.decode(array, "utf-8")
        if array.dtype.kind != "U":
            return ("not string", str(array.dtype), strip(array.shape),
                    repr(array.tolist())[:200])
        return ("string", strip(array.shape),
                tuple(str(s) for s in array.flatten().tolist()))
    raise ValueError(typ)


def show(c):
    """Readable form of a canonical value."""
    if c is None:
        return "nothing"
    if c[0] == "double":
        return f"double{c[1]}{np.frombuffer(c[2])[:8].tolist()}" + (
            " with missing data" if c[3] else "")
    return repr(c)[:300]


def freeze(value):
    """Exact content of a value including its type; comparable with ==."""
    if isinstance(value, np.ma.MaskedArray):
        m = np.ma.getmaskarray(value)
        # (with the numbers behind the mask)
        d = np.array(np.ma.getdata(value))
        return ("masked", d.dtype.str, d.shape, d.tobytes(), m.tobytes())
    if isinstance(value, np.ndarray):
        if value.dtype.kind == "O":
            return ("objarray", value.shape, repr(value.tolist()))
        return ("array", value.dtype.str, value.shape, value.tobytes())
    if isinstance(value, np.generic):
        if value.dtype.kind == "O":
            return ("npobject", repr(value))
        return ("npscalar", value.dtype.str, value.tobytes())
    if isinstance(value, (list, tuple)):
        return (type(value).__name__, tuple(freeze(v) for v in value))
    return (type(value).__name__, repr(value))


# --------------------------------------------------------------------------
# generators
def gen_fill(src, spec, special=True):
    kind = src.weighted((3, "small"), (3, "normal"), (2, "range"),
                        (1, "const"), (2, "vals"),
                        (2, "special" if special else "small"),
                        (1, "big"))
    spec["fill"] = kind
    if kind == "vals":
        spec["vals"] = [src.float() if special else
                        float(src.int(-1000, 1000))
                        for _ in range(src.int(1, 4))]
        spec["seed"] = 0
    elif kind in ("const", "range"):
        spec["seed"] = src.int(-3, 100)
    else:
        spec["seed"] = src.int(0, 2**16)


def trims(shape):
    """Shapes that only differ in trailing ones."""
    shape = list(shape)
    out = [shape]
    while shape and shape[-1] == 1:
        shape = shape[:-1]
        out.append(shape)
    return out


def gen_num(src, shape, ndims, definer=False, special=True, mask=True,
            forms=None):
    """
    A numeric value with the given target shape (one size per dimension).

    definer : the sizes of dimensions are taken from this variable
    """
    spec = {"k": "num"}
    gen_fill(src, spec, special)
    size = int(np.prod(shape)) if shape else 1
    allowed = []
    full = list(shape)
    options = trims(full)
    for s in options:
        if len(s) >= 2:
            allowed += [("array", s), ("array", s), ("list", s),
                        ("tuple", s)]
        elif len(s) == 1:
            if ndims == 1:
                allowed += [("array", s), ("list", s), ("tuple", s),
                            ("array", [1] + s), ("array", s + [1]),
                            ("list", [1] + s)]
            elif size == 1:
                allowed += [("list", [1]), ("array", [1])]
            # (otherwise, vectors are row vectors, see below)
    if ndims > 1 and len(full) > 1 and full[0] == 1 \
            and all(s == 1 for s in full[2:]) and full[1] > 1:
        allowed += [("list", [full[1]]), ("list", [full[1]]),
                    ("tuple", [full[1]])]
        if not definer:
            allowed += [("array", [full[1]]), ("array", [full[1]])]
    if src.chance(10):
        allowed = [("array", full + [1])]
    if size == 1:
        allowed += [("scalar", []), ("npscalar", []), ("scalar", []),
                    ("array", [])]
    if forms is not None:
        allowed = [a for a in allowed if a[0] in forms] or allowed
    form, s = src.choice(allowed)
    if form == "array" and s == [] and (definer or ndims > 1):
        s = [1] * max(ndims, 1)
    spec["form"], spec["shape"] = form, s
    if form in ("array", "npscalar", "scalar"):
        spec["dtype"] = src.weighted(
            (6, "f8"), (1, "f4"), (2, "i8"), (1, "i4"), (1, "i2"),
            (1, ">f8"), (1, ">i4"), (1, "f2"))
        if form == "scalar":
            spec["dtype"] = src.choice(["f8", "i8"])
    else:
        spec["ints"] = src.chance(30)
        if spec["ints"] and spec["fill"] in ("special", "vals", "big",
                                             "normal"):
            spec["dtype"] = "i8"
    if form == "array":
        spec["order"] = src.weighted((6, "C"), (2, "F"), (1, "strided"),
                                     (1, "reversed"), (1, "readonly"))
        if mask and size and src.chance(10) and s:
            spec["mask"] = src.int(0, 999)
    return spec


def gen_str(src, shape, ndims, ascii=None):
    """A string value; `shape` holds a one for the dimension S."""
    if ascii is None:
        ascii = src.chance(50)
    size = int(np.prod(shape)) if shape else 1
    vals = [src.text(ascii=ascii) for _ in range(src.int(1, min(size, 5)))]
    spec = {"k": "str", "vals": vals}
    allowed = []
    full = list(shape)
    for s in trims(full):
        if len(s) >= 1:
            allowed += [("array", s), ("array", s)]
            allowed += [("wide", s), ("F", s)]
            if all(v.isascii() for v in vals):
                allowed.append(("S", s))
        if len(s) >= 2:
            allowed += [("list", s), ("list", s), ("tuple", s)]
    if len(full) > 1 and full[0] == 1 and all(s == 1 for s in full[2:]):
        # lists have at least two dimensions
        allowed += [("list", [full[1]]), ("tuple", [full[1]])]
    if size == 1:
        allowed += [("str", []), ("str", []), ("list", [1])]
    spec["form"], spec["shape"] = src.choice(allowed)
    return spec
