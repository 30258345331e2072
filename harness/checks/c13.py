"""C13: units and coordinate types are matched as AES69 prescribes."""
import os
import gens
import rawfile
from base import Check
from lib import build_model, check, named, pair

SEPARATORS = [", ", ",", " "]
BAD_SEPARATORS = [";", ",  ", " ,", " , ", "  ", "\t", "/", "", "|", ",,",
                  " and ", "\n"]
OTHERS = ["", "m", "foo", "second", "kilometre", "deg", "pascal", "cubic",
          "square metre", "metre metre", "degree celsius", "radians"]


def gen_unit(src, refs, aliases):
    """Units that are right or nearly right."""
    names = []
    refs = list(refs)
    kind = src.weighted((5, "right"), (2, "order"), (2, "drop"),
                        (2, "extra"), (3, "other"), (4, "separator"),
                        (1, "junk"))
    if kind == "order":
        refs = refs[::-1] if src.chance(50) else refs[1:] + refs[:1]
    elif kind == "drop":
        refs.pop(src.int(0, len(refs) - 1))
    elif kind == "extra":
        refs.insert(src.int(0, len(refs)), src.choice(
            refs + sorted(set(aliases.values()))))
    for ref in refs:
        names.append(src.choice(sorted(a for a, r in aliases.items()
                                       if r == ref) or [ref]))
    if kind == "other" and names:
        names[src.int(0, len(names) - 1)] = src.choice(
            sorted(aliases) + OTHERS)
    sep = [src.choice(SEPARATORS)] * len(names)
    if src.chance(30):
        sep = [src.choice(SEPARATORS) for _ in names]
    if kind == "separator" and len(sep) > 1:
        sep[src.int(0, len(sep) - 2)] = src.choice(BAD_SEPARATORS)
    text = "".join(n + s for n, s in zip(names, sep[:-1] + [""]))
    if kind == "junk":
        text = src.choice([text + " ", " " + text, text + ",", "," + text,
                           text + "s", text[:-1], text + "\n",
                           src.text(ascii=True)])
    if src.chance(30):
        text = gens.recase(src, text)
    return text


class CHECK(Check):
    ID = "C13"
    RULE = (
        "A case is a generated valid object and up to eight strings for one "
        "of its restricted units: aliases in any combination, order, "
        "separators and case, with units that are missing, added, exchanged "
        "or separated in other ways; or other case of coordinate types, the "
        "data type or the convention; each verified in read and write mode, "
        "some through files. Non-trivial: the string differs from the "
        "reference unit.")
    ASSUMPTIONS = ["the aliases are those of the world (fixed and generated)",
                   "values of aliases contain a space only for single units"]
    QUICK = 375
    THOROUGH = 6000

    def gen(self, src, ctx):
        recipe = gens.valid(src, ctx.world, customs=1, small=True,
                            writable=False, reserved=ctx.reserved,
                            mask=False)
        model = build_model(ctx, recipe)
        kind = src.weighted((6, "unit"), (2, "type"), (1, "fixed"),
                            (1, "custom"))
        aliases = ctx.world.aliases
        if kind == "unit":
            keys = sorted(k for k in model.entries if k.endswith("_Units")
                          and gens.unit_refs(model, k))
            key = src.choice(keys)
            refs = gens.unit_refs(model, key)
            values = [gen_unit(src, refs, aliases)
                      for _ in range(src.int(1, 8))]
        elif kind == "custom":
            keys = sorted(k for k in model.entries if k.endswith("Units")
                          and model.typ(k) == "attribute"
                          and not gens.unit_refs(model, k))
            if not keys:
                parent = src.choice(sorted(
                    v for v in model.variables()
                    if model.can_add(v + "_Units", "attribute", None)))
                key = parent + "_Units"
                recipe["ops"] = recipe["ops"] + [
                    ["adda", key, {"k": "text", "v": "metre"}]]
            else:
                key = src.choice(keys)
            values = [src.choice([src.text(), "kHz", "khz", "", "1/3 Octave",
                                  "degree", "Metre", "m/s"])
                      for _ in range(src.int(1, 4))]
        elif kind == "type":
            keys = sorted(k for k in model.entries if k.endswith("_Type")
                          and model.typ(k) == "attribute")
            if not keys:
                keys = ["GLOBAL_DataType"]
            key = src.choice(keys)
            current = model.entries[key]
            values = [gens.recase(src, current) for _ in range(2)] + [
                current + " ", current.replace(" ", "_"), ""]
        else:
            key = "GLOBAL_DataType"
            values = [model.entries[key].lower(), model.entries[key] + " ",
                      model.entries[key].title()]
        return {"recipe": recipe, "key": key, "values": values,
                "file": src.chance(20)}

    def run(self, ctx, case):
        sofa, model = pair(ctx, case["recipe"])
        key = case["key"]
        if key not in model.entries:
            return False
        for value in case["values"]:
            # (switched on by the verification)
            sofa.protected = False
            setattr(sofa, key, value)
            model.entries[key] = value
            m = model.clone()
            issues = m.verify("raise")
            for mode in ("read", "write"):
                o = ctx.ok("verify", sofa.verify, issue_handling="return",
                           mode=mode)
                bad = issues.errors("raise", mode)
                expected = bad or issues.warns("raise", mode)
                check((o.value is not None) == expected,
                      f"{key} = {value!r} in mode {mode}: reported "
                      f"{o.value}, reference: {issues}")
                if bad:
                    blamed = set(issues.units if mode == "write" else [])
                    for names in issues.rules:
                        blamed |= names
                    lost = blamed - named(o.value)
                    check(not lost, f"{sorted(lost)} not named for {key} = "
                          f"{value!r}: {o.value}")
                    e = ctx.raises(ValueError, f"verify of {key} = "
                                   f"{value!r} ({mode})", sofa.verify,
                                   "raise", mode)
                    del e
            ctx.label("rejected" if issues.rules else "upper case"
                      if issues.units else "accepted")
        if case["file"]:
            self.file(ctx, case, sofa, model)
        return len(set(case["values"])) > 1

    def file(self, ctx, case, sofa, model):
        key, folder = case["key"], ctx.folder()
        for i, value in enumerate(case["values"][:3]):
            # (switched on by the verification)
            sofa.protected = False
            setattr(sofa, key, value)
            model.entries[key] = value
            issues = model.clone().verify("raise")
            path = os.path.join(folder, f"{i}.sofa")
            o = ctx.call(ctx.sf.write_sofa, path, sofa)
            bad = issues.errors("raise", "write")
            check((o.exc is not None) == bad, f"writing {key} = {value!r}: "
                  f"{o.describe()}, reference: {issues}")
            check(os.path.isfile(path) != bad, "file and error disagree")
            raw = os.path.join(folder, f"raw{i}.sofa")
            rawfile.write_model(raw, model, {})
            o = ctx.call(ctx.sf.read_sofa, raw, True, False)
            bad = issues.errors("raise", "read")
            check((o.exc is not None) == bad, f"reading {key} = {value!r}: "
                  f"{o.describe()}, reference: {issues}")
            if not bad:
                check(getattr(o.value, key) == value,
                      f"{key} is read as {getattr(o.value, key)!r} instead "
                      f"of {value!r}")
