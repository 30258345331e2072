"""
Operations that (are likely to) make a valid object invalid.

Whether the object is invalid is decided by the reference verification.
"""
import numpy as np
import gens
import vals
from model import definers, mandatory, options, readonly, skey
from lib import apply_model

BAD = {
    "attribute": [5, 1.5, ["a", "b"], {"py": "none"},
                  {"py": "bool", "v": True}, {"py": "bytes", "v": "x"},
                  [1, 2], {"py": "floatarray", "v": [1.0]},
                  {"py": "strarray", "v": ["a"]}, 0],
    "double": ["text", "1.0", "", {"py": "none"},
               {"py": "bool", "v": True}, {"py": "complex", "v": [1, 1]},
               {"py": "boolarray", "v": [True]},
               {"py": "complexarray", "v": [1.0, 2.0]},
               {"py": "strarray", "v": ["1", "2"]},
               {"py": "objarray", "v": [1, "a"]}, {"py": "datearray"},
               {"py": "bytes", "v": "1"}, ["1", "2"],
               {"py": "dict", "v": [["a", 1]]}],
    "string": [5, 1.5, 0, [1, 2], [[1.0], [2.0]], {"py": "none"},
               {"py": "bool", "v": False},
               {"py": "floatarray", "v": [1.0, 2.0]},
               {"py": "boolarray", "v": [True]},
               {"py": "objarray", "v": ["a", 1]},
               {"py": "bytes", "v": "text"},
               {"py": "dict", "v": []}]}


def forced(model, key, op):
    """An operation that may need the protection to be switched off."""
    allowed = model.can_set(key) if op[0] == "set" else model.can_delete(key)
    return [op] if allowed else [["prot", False], op, ["prot", True]]


def missing(src, model):
    keys = [k for k in model.entries if k in model.conv
            and mandatory(model.conv[k])
            and k not in ("GLOBAL_SOFAConventions",
                          "GLOBAL_SOFAConventionsVersion")]
    key = src.choice(keys)
    return forced(model, key, ["del", key])


def wrong_type(src, model):
    typ = src.choice(["attribute", "double", "string"])
    keys = [k for k in model.entries if model.typ(k) == typ
            and k not in ("GLOBAL_SOFAConventions",
                          "GLOBAL_SOFAConventionsVersion")]
    if not keys:
        typ = "double"
        keys = [k for k in model.entries if model.typ(k) == typ]
    custom = [k for k in keys if k in model.custom]
    key = src.choice(custom if custom and src.chance(40) else keys)
    return forced(model, key, ["set", key, {
        "k": "py", "v": src.choice(BAD[typ])}])


def wrong_shape(src, model, key=None):
    """Perturb the shape of one variable."""
    if key is None:
        key = src.choice(model.variables())
    entry = model.entry(key)
    n = model.ndims(key)
    current = model.shape(key)
    if len(current) > n or -1 in current:
        current = ()
    shape = list(current) + [1] * (n - len(current))
    kind = src.choice(["axis", "axis", "axis", "extra", "swap", "one"])
    if kind == "axis":
        i = src.int(0, n - 1)
        shape[i] = src.choice([s for s in (shape[i] + 1, shape[i] - 1, 2, 3,
                                           1, 5)
                               if s > 0 and s != shape[i]])
    elif kind == "extra":
        shape = shape + [src.choice([2, 3])]
        if src.chance(30):
            shape = shape[:-1] + [1, 2]
    elif kind == "swap" and n > 1:
        i = src.int(0, n - 2)
        shape[i], shape[i + 1] = shape[i + 1], shape[i]
    else:
        shape = [src.choice([2, 4]) if s == 1 else 1 for s in shape]
    if int(np.prod(shape)) > 5000:
        shape = [min(s, 6) for s in shape]
    if entry["type"] == "string":
        spec = {"k": "str", "form": "array", "shape": shape,
                "vals": ["a", "bc", ""]}
    else:
        spec = {"k": "num", "form": "array", "shape": shape,
                "dtype": "f8", "fill": "range", "seed": 0}
        if len(shape) == 1 and shape[0] > 1 and n > 1:
            spec["shape"] = [1] + shape
    return forced(model, key, ["set", key, spec])


def wrong_value(src, model):
    """Give a restricted entry another value."""
    keys = []
    for rkey, rule in model.world.rules.items():
        name = skey(rkey)
        if name in model.entries and model.typ(name) == "attribute" and \
                name not in ("GLOBAL_SOFAConventions",):
            keys.append(name)
        if name not in model.entries:
            continue
        value = model.entries[name]
        if isinstance(value, str):
            for dep in rule.get("specific", {}).get(value, {}):
                if skey(dep) in model.entries and \
                        model.typ(skey(dep)) == "attribute":
                    keys.append(skey(dep))
    key = src.choice(sorted(set(keys)))
    rule = {skey(k): r for k, r in model.world.rules.items()}.get(key, {})
    pool = list(rule.get("value") or [])
    for r in model.world.rules.values():
        for spec in r.get("specific", {}).values():
            pool += spec.get(key, []) or [] if isinstance(
                spec.get(key, []), list) else []
    pool += ["", "unknown", "cartesian", "spherical", "metre", "hertz",
             "degree, degree, metre", "spherical harmonics", "free field",
             "degree, metre", "pint", "sunny", "line"]
    if key.endswith("_Units"):
        pool += ["metre, metre, metre", "metres", "degrees, degrees, meters",
                 "degree,degree,metre", "degree degree metre", "meter meter",
                 "degree, degree", "degree degree, metre, metre", "Hertz",
                 "kelvins", "cubic meters", "cubic", "metre, second", "m",
                 "degree;degree;metre", "degree , degree , metre",
                 "degree,  degree, metre", " metre", "metre "]
    value = src.choice(pool)
    if key == "GLOBAL_RoomType":
        # (the case of room types is not defined)
        value = value.lower()
    if key == "GLOBAL_DataType":
        value = src.choice(["FIR", "TF", "SOS", "fir", "TF-E", "FIR-E",
                            "FIRE", "FOO", ""])
    elif src.chance(10) and key.endswith(("_Type", "_Units")):
        value = gens.recase(src, value)
    return forced(model, key, ["set", key, {"k": "text", "v": value}])


def drop_dependency(src, model):
    """Delete an optional entry that others depend on."""
    deps = set()
    for rkey, rule in model.world.rules.items():
        name = skey(rkey)
        if name in model.entries:
            deps |= {skey(d) for d in rule.get("general", [])}
            value = model.entries[name]
            if isinstance(value, str):
                deps |= {skey(d) for d in
                         rule.get("specific", {}).get(value, {})}
    keys = sorted(k for k in deps if model.can_delete(k))
    if not keys:
        keys = sorted(k for k in model.entries if model.can_delete(k))
    if not keys:
        return wrong_value(src, model)
    return [["del", src.choice(keys)]]


def upper_unit(src, model):
    keys = [k for k in model.entries if k.endswith("Units")
            and model.typ(k) == "attribute"
            and isinstance(model.entries[k], str)]
    if not keys:
        return wrong_value(src, model)
    key = src.choice(keys)
    value = gens.recase(src, model.entries[key])
    return forced(model, key, ["set", key, {"k": "text", "v": value}])


def bad_name(src, model):
    kind = src.int(0, 4)
    number = {"k": "num", "form": "scalar", "shape": [], "dtype": "f8",
              "fill": "const", "seed": 1}
    text = {"k": "text", "v": "text"}
    ops = []
    if kind == 0:
        name = src.choice(["PRIVATE", "PRIVATEfoo", "API", "APIName2",
                           "GLOBAL2", "GLOBALfoo", "PRIVATES", "APIs"])
        if model.can_add(name, "double", "I"):
            ops.append(["addv", name, number, "double", "I"])
    elif kind == 1:
        # same name as a global attribute of the convention
        names = [k[7:] for k in model.conv if k.startswith("GLOBAL_")
                 and k[7:] not in model.entries
                 and k[7:] not in model.conv]
        if names:
            ops.append(["addv", src.choice(names), number, "double", "I"])
    elif kind == 2:
        names = ["GLOBAL_" + k for k in model.conv if "_" not in k]
        names = [n for n in names if model.can_add(n, "attribute", None)]
        if names:
            ops.append(["adda", src.choice(names), text])
    elif kind == 3:
        name = src.choice(["PRIVATEfoo", "APIfoo"])
        if model.can_add(name, "double", "I"):
            ops.append(["addv", name, number, "double", "I"])
            ops.append(["adda", name + "_Note", text])
    else:
        # attribute without variable
        keys = [k for k in model.variables() if model.can_delete(k)
                and len(gens.with_attributes(model, k)) > 1]
        if keys:
            ops.append(["del", src.choice(keys)])
    return ops or wrong_value(src, model)


def upper_type(src, model):
    """The case of types and units may matter or not, but is kept."""
    keys = [k for k in model.entries if k.endswith(("_Type", "_Units"))
            and k != "GLOBAL_RoomType" and model.typ(k) == "attribute"
            and isinstance(model.entries[k], str)]
    if not keys:
        return wrong_value(src, model)
    ops = []
    for key in src.sample(sorted(keys), 3) or [keys[0]]:
        ops += forced(model, key, ["set", key, {
            "k": "text", "v": gens.recase(src, model.entries[key])}])
    return ops


KINDS = {"case": upper_type, "missing": missing, "type": wrong_type, "shape": wrong_shape,
         "value": wrong_value, "dependency": drop_dependency,
         "unit": upper_unit, "name": bad_name}


def mutate(src, model, kinds=None, maximum=2):
    """List of operations; the model is changed as well."""
    ops = []
    for _ in range(src.int(1, maximum)):
        new = KINDS[src.choice(sorted(kinds or KINDS))](src, model)
        try:
            copy = model.clone()
            for op in new:
                apply_model(copy, op)
        except KeyError:
            continue
        for op in new:
            apply_model(model, op)
        ops += new
    return ops
