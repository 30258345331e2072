"""
Generators of SOFA objects.

A recipe is plain data: convention, version, mandatory and a list of
operations.  `valid` only makes recipes whose object satisfies the reference
verification; the operations that break it are dropped.
"""
import vals
from lib import build_model, apply_model
from model import Obj, definers, mandatory, options, readonly, skey
import world as world_module

CUSTOM_VARS = ["Foo", "Bar2", "Temperature", "Comment2", "Zeta", "Sofas",
               "Datafoo", "Mx", "dtype", "shape", "Units2", "FooUnits",
               "Date", "MyType", "verylongnameofavariable", "lower",
               "Data", "M", "R", "N", "Füße", "2nd"]
CUSTOM_ATTRS = ["Note", "Comment2", "name", "shape", "path", "dimensions",
                "dtype", "group", "Info", "Author", "mask", "size"]
CUSTOM_GLOBALS = ["Foo", "MyNote", "path", "name", "variables", "groups",
                  "DateMeasured", "Device", "parent", "dimensions", "Xyz"]


def conventions(src, world, writable=True, latest=None, minimum=None):
    """Pick a convention and version."""
    found = []
    for name, version, _, entries in world.conventions:
        if writable and name in world.deprecations["GLOBAL:SOFAConventions"]:
            continue
        if latest is not None and \
                (world.latest(name) == version) != latest:
            continue
        if minimum is not None and float(version) < minimum:
            continue
        found.append((name, version))
    return src.choice(found)


def allowed_sizes(model):
    """Sizes of dimensions that are restricted by rules."""
    out = {}
    for key, rule in model.world.rules.items():
        value = model.entries.get(skey(key))
        if isinstance(value, str):
            dims = rule.get("specific", {}).get(value, {}).get(
                "_dimensions", {})
            for letter, allowed in dims.items():
                out[letter] = [s for s in allowed["value"]
                               if s in out.get(letter, allowed["value"])]
    return out


def sizes(src, model, small=False):
    restricted = allowed_sizes(model)
    out = {"C": 3, "I": 1}
    top = {"M": 5, "R": 4, "E": 3, "N": 8}
    for letter in "MREN":
        if letter in restricted:
            out[letter] = src.choice([s for s in restricted[letter]
                                      if s <= 18])
        else:
            out[letter] = src.weighted(
                (3, 1), (3, 2), (1, 3), (3, "any"))
            if out[letter] == "any":
                out[letter] = src.int(1, top[letter])
    if src.chance(4 if small else 8):
        letter = src.choice("MN" if small else "MNMNRE")
        if letter not in restricted:
            out[letter] = src.choice([9, 12] if small or letter in "RE"
                                     else [9, 12, 17, 64, 300])
    return out


def unit(src, refs, aliases, lower=True):
    """A valid unit."""
    out = ""
    sep = src.choice([", ", ",", " ", "mixed"])
    for i, ref in enumerate(refs):
        if i:
            out += src.choice([", ", ",", " "]) if sep == "mixed" else sep
        out += src.choice(sorted(
            a for a, r in aliases.items() if r == ref))
    if not lower:
        out = recase(src, out)
    return out


def recase(src, text):
    kind = src.int(0, 3)
    if kind == 0:
        return text.upper()
    if kind == 1:
        return text.title()
    if kind == 2:
        return text.capitalize()
    return "".join(c.upper() if src.chance(50) else c for c in text)


def unit_refs(model, key):
    """The units that a valid object must have for the entry."""
    refs = None
    for rkey, rule in model.world.rules.items():
        name = skey(rkey)
        if name not in model.entries:
            continue
        if name == key and rule["value"] is not None:
            refs = rule["value"]
        value = model.entries[name]
        if isinstance(value, str):
            if name.endswith("_Type"):
                value = value.lower()
            for dep, ref in rule.get("specific", {}).get(value, {}).items():
                if skey(dep) == key and ref is not None:
                    refs = ref
    return refs[0].split(", ") if refs else None


def variable_value(src, model, key, size, special=True, mask=True,
                   forms=None, string_ascii=None):
    """A value with consistent shape."""
    entry = model.entry(key)
    option = src.choice(options(entry))
    return value_for(src, option, entry["type"], size, definers(entry),
                     special, mask, forms, string_ascii)


def value_for(src, option, typ, size, definer=False, special=True, mask=True,
              forms=None, string_ascii=None):
    shape = [1 if d == "S" else size[d.upper()] for d in option]
    if typ == "string":
        return vals.gen_str(src, shape, len(shape), string_ascii)
    return vals.gen_num(src, shape, len(shape), definer, special, mask,
                        forms)


def fits(model, key, size):
    return any(all(size.get(k, v) == v for k, v in a.items())
               for a in model.assignments(key))


def var_name(src, model, reserved):
    taken = set(model.entries) | set(model.conv) | set(model.custom)
    normative = {k.replace("GLOBAL_", "") for k in model.conv}
    kind = src.int(0, 5)
    if kind < 3:
        pool = CUSTOM_VARS
    elif kind == 3:
        # share the beginning with an existing variable
        keys = [k for k in model.variables() if "_" not in k]
        gone = [k for k in model.conv if k not in model.entries
                and "_" not in k]
        if gone and src.chance(60):
            keys = gone
        pool = [k + s for k in keys for s in ("X", "2", "s")] + [
            "X" + k for k in keys]
    elif kind == 4:
        pool = world_module.WORDS
    else:
        pool = [a + b for a in "ABCXYZabcxyz" for b in
                ("", "1", "q", "foo", "Data", "GLOBAL")]
    pool = [n for n in pool if n not in taken and n not in normative
            and n not in reserved and n not in ("Data", "GLOBAL")
            and not n.startswith(("API", "PRIVATE", "GLOBAL"))]
    return src.choice(pool) if pool else None


def attr_name(src, model, reserved):
    taken = set(model.entries) | set(model.conv) | set(model.custom)
    normative = {k.replace("GLOBAL_", "") for k in model.conv}
    # share a part with an entry that was deleted
    gone = [k for k in model.conv if k not in model.entries
            and model.conv[k]["type"] == "attribute"]
    if gone and src.chance(35):
        pool = [k + s for k in gone for s in ("X", "2", "s")] + [
            "_X".join(k.rsplit("_", 1)) for k in gone]
    elif src.chance(40):
        pool = ["GLOBAL_" + n for n in CUSTOM_GLOBALS
                + world_module.EXTRA_GLOBALS if n not in normative]
    else:
        parent = src.choice(model.variables())
        names = CUSTOM_ATTRS + ["LongName", "Units", "Type"]
        pool = [f"{parent}_{n}" for n in names]
    # (conv keys are checked when adding)
    pool = [n for n in pool if n not in taken and n not in reserved]
    return src.choice(pool) if pool else None


LETTERS = "MRENIC"


def custom_dims(src, size, string):
    n = src.weighted((3, 1), (4, 2), (3, 3), (1, 4), (1, 5))
    letters = []
    for _ in range(n):
        letters.append(src.weighted(
            (4, "M"), (2, "R"), (2, "E"), (2, "N"), (3, "I"), (2, "C"),
            (1, "Q"), (1, "T")))
    for letter in "QT":
        if letter in letters and letter not in size:
            size[letter] = src.int(1, 4)
    # keep the data small
    total = 1
    for i, letter in enumerate(letters):
        total *= size[letter]
        if total > 3000:
            letters[i] = "I"
            total //= size[letter]
    if string:
        letters = letters[:3] + ["S"]
    return "".join(letters)


def dims_text(src, dims):
    """Dimensions may be given in lower and upper case."""
    return dims.lower() if src.chance(15) else dims


def attr_value(src, model, key):
    """A value for an attribute that is likely to be valid, or None."""
    rule = {skey(k): r for k, r in model.world.rules.items()}.get(key)
    if key.endswith("_Units"):
        refs = unit_refs(model, key)
        if refs is None:
            return src.choice(["metre", "degree", "", "kelvin", "m/s",
                               "1/3 octave", "µm", "hertz"])
        return unit(src, refs, model.world.aliases)
    if rule is not None:
        if key.endswith("_Type") and rule["value"]:
            value = src.choice(rule["value"])
            # (the case does not matter)
            return recase(src, value) if src.chance(20) else value
        if rule["value"] is not None:
            return src.choice(rule["value"])
        if key == "GLOBAL_LayoutNote":
            return src.choice(["dense", "sparse", src.text()])
    return src.text()


def attribute_ops(src, model, percent=40):
    """Assign attributes; types and units of positions change together."""
    ops = []
    for key in list(model.entries):
        if model.typ(key) != "attribute" or not model.can_set(key):
            continue
        if key in ("GLOBAL_DataType", "GLOBAL_SOFAConventions",
                   "GLOBAL_SOFAConventionsVersion", "GLOBAL_Conventions"):
            continue
        if key.endswith("_Units") and key[:-5] + "Type" in model.entries:
            continue
        if not src.chance(percent):
            continue
        value = attr_value(src, model, key)
        op = ["set", key, {"k": "text", "v": value}]
        ops.append(op)
        apply_model(model, op)
        if key.endswith("_Type"):
            other = key[:-4] + "Units"
            if other in model.entries:
                refs = unit_refs(model, other)
                if refs:
                    op = ["set", other, {"k": "text", "v": unit(
                        src, refs, model.world.aliases)}]
                    ops.append(op)
                    apply_model(model, op)
    return ops


def with_attributes(model, key):
    return [key] + [k for k in model.entries if k.startswith(key + "_")
                    and model.typ(k) == "attribute"]


def custom_ops(src, model, size, maximum, reserved=(), special=True):
    ops = []
    for _ in range(src.int(0, maximum)):
        if src.chance(55):
            name = var_name(src, model, reserved)
            if name is None:
                continue
            string = src.chance(35)
            dims = custom_dims(src, size, string)
            rule = {skey(k): r for k, r in model.world.rules.items()}.get(
                name)
            typ = "string" if string else "double"
            definer = any(d not in "ERMNCIS" for d in dims)
            spec = value_for(src, dims, typ, size, definer, special)
            op = ["addv", name, spec, typ, dims_text(src, dims)]
            group = [op]
            apply_model(model, op)
            if rule is not None:
                for dep in rule.get("general", []):
                    dep = skey(dep)
                    if dep.startswith(name + "_") and \
                            dep not in model.entries:
                        refs = unit_refs(model, dep) or ["metre"]
                        op = ["adda", dep, {"k": "text", "v": unit(
                            src, refs, model.world.aliases)}]
                        apply_model(model, op)
                        group.append(op)
            ops += group
        else:
            name = attr_name(src, model, reserved)
            if name is None or not model.can_add(name, "attribute", None):
                continue
            op = ["adda", name, {"k": "text",
                                 "v": attr_value(src, model, name)}]
            ops.append(op)
            apply_model(model, op)
    return ops


TOUCHES = ["read", "write", "write", "disk", "disk", "dims", "equals", "copy"]


def valid(src, world, touched=True, **kwargs):
    """
    Recipe of an object that satisfies the reference verification, and might
    have been used before.
    """
    recipe = untouched(src, world, **kwargs)
    if touched and src.chance(35):
        recipe["ops"] = recipe["ops"] + [
            ["touch", src.choice(TOUCHES)] for _ in range(src.int(1, 2))]
        if src.chance(40):
            recipe["ops"] = recipe["ops"] + later(src, world, recipe)
    return recipe


def later(src, world, recipe):
    """Delete entries of an object that was used before."""
    model = build_model_ops(world, recipe, recipe["ops"])
    custom = sorted(k for k in model.custom if k in model.entries)
    keys = custom if custom and src.chance(75) else [
        k for k in model.entries if model.can_delete(k)]
    if not keys:
        return []
    ops = []
    for k in with_attributes(model, src.choice(keys)):
        if model.can_delete(k):
            ops.append(["del", k])
            apply_model(model, ops[-1])
    issues = model.verify("raise")
    if issues.fatal("raise") or issues.late_errors("read") or issues.units:
        return []
    return ops


def untouched(src, world, writable=True, conv=None, customs=2, attrs=True,
              deletes=True, special=True, small=False, latest=None,
              minimum=None, reserved=(), mask=True, mandatory_only=None):
    """Recipe of an object that satisfies the reference verification."""
    name, version = conv or conventions(src, world, writable, latest,
                                        minimum)
    if mandatory_only is None:
        mandatory_only = src.chance(25)
    recipe = {"conv": name, "version": version,
              "mandatory": mandatory_only, "ops": []}
    model = Obj(world, name, version, mandatory_only)
    if model.clone().verify("raise").late_errors("read"):
        # (defaults depend on optional data)
        recipe["mandatory"] = False
        model = Obj(world, name, version, False)
    if recipe["mandatory"] and src.chance(25):
        op = ["missing", False, True]
        recipe["ops"].append(op)
        apply_model(model, op)

    risky = []
    if attrs and src.chance(70):
        risky += attribute_ops(src, model, src.choice([10, 40, 70]))
    if deletes and src.chance(50):
        optional = [k for k in model.entries if k in model.conv
                    and not mandatory(model.conv[k])]
        for key in src.sample(optional, 4):
            for k in with_attributes(model, key):
                if k in model.entries and model.can_delete(k):
                    risky.append(["del", k])
                    apply_model(model, risky[-1])
    size = sizes(src, model, small)
    essential = []
    # numeric and string data of the convention
    for key in model.variables():
        if not model.can_set(key):
            if not fits(model, key, size):
                # read only data with fixed shape
                essential.append(["prot", False])
                essential.append(["set", key, variable_value(
                    src, model, key, size, special, mask)])
                essential.append(["prot", True])
            continue
        if not fits(model, key, size) or src.chance(60):
            essential.append(["set", key, variable_value(
                src, model, key, size, special, mask)])
    for op in essential:
        apply_model(model, op)
    if customs:
        risky_custom = custom_ops(src, model, size, customs, reserved,
                                  special)
    else:
        risky_custom = []

    # drop what violates the standard
    for attempt in range(60):
        ops = recipe["ops"] + risky + essential + risky_custom
        try:
            m = build_model_ops(world, recipe, ops)
        except KeyError:
            # an operation requires another one that was dropped
            m = None
        if m is not None:
            issues = m.verify("raise")
            # (deprecations are up to the caller)
            if not (issues.fatal("raise") or issues.late_errors("read")
                    or issues.units):
                recipe["ops"] = ops
                return recipe
            bad = set(issues.names) | set(issues.units)
            for r in issues.rules:
                bad |= r
            hit = [op for op in risky + risky_custom if op[1] in bad]
            if hit:
                if hit[-1] in risky:
                    risky.remove(hit[-1])
                    essential = _refit(src, world, recipe, risky, essential,
                                       size, special, mask)
                else:
                    risky_custom.remove(hit[-1])
                continue
        if risky_custom:
            risky_custom.pop()
        elif risky:
            risky.pop()
            # the shape of re-appearing data is unknown
            essential = _refit(src, world, recipe, risky, essential, size,
                               special, mask)
        else:
            break
    # defaults only
    m = Obj(world, name, version, recipe["mandatory"])
    recipe["ops"] = []
    return recipe


def _refit(src, world, recipe, risky, essential, size, special, mask):
    m = build_model_ops(world, recipe, recipe["ops"] + risky)
    known = {op[1] for op in essential if op[0] == "set"}
    out = list(essential)
    for key in m.variables():
        if key not in known and not fits(m, key, size):
            out += [["prot", False], ["set", key, variable_value(
                src, m, key, size, special, mask)], ["prot", True]]
    return [op for op in out if op[0] != "set" or op[1] in m.entries]


def build_model_ops(world, recipe, ops):
    m = Obj(world, recipe["conv"], recipe["version"], recipe["mandatory"])
    for op in ops:
        apply_model(m, op)
    return m
