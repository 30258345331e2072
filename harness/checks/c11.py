"""C11: verification enforces value restrictions and dependencies."""
import gens
import mutate
from base import Check
from lib import apply_model, build_model, check, named, pair
from model import skey

KINDS = {"value": None, "dependency": None}


def companion(src, model):
    """Add an entry that has dependencies."""
    rules = model.world.rules
    names = [skey(k) for k, r in rules.items()
             if skey(k) not in model.entries]
    names = [n for n in names if "_" in n and
             model.can_add(n, "attribute", None) or "_" not in n]
    names = [n for n in names if n not in model.conv]
    if not names:
        return []
    name = src.choice(names)
    if "_" in name:
        rule = {skey(k): r for k, r in rules.items()}[name]
        value = src.choice(rule["value"] or ["text"])
        return [["adda", name, {"k": "text", "v": value}]]
    return [["addv", name, {"k": "num", "form": "list", "shape": [1, 3],
                            "fill": "range", "seed": 0}, "double", "IC"]]


def dependent(src, model):
    """Give an entry a value with dependencies and (nearly) fulfill them."""
    rules = {skey(k): r for k, r in model.world.rules.items()}
    names = sorted(k for k, r in rules.items() if k in model.entries
                   and r.get("specific") and model.typ(k) == "attribute"
                   and k not in ("GLOBAL_SOFAConventions",
                                 "GLOBAL_DataType"))
    if not names:
        return []
    name = src.choice(names)
    value = src.choice(sorted(rules[name]["specific"]))
    refs = rules[name]["specific"][value]
    if name.endswith("_Type") and src.chance(50) and \
            not name.startswith("GLOBAL_"):
        value = gens.recase(src, value)
    ops = mutate.forced(model, name, ["set", name,
                                      {"k": "text", "v": value}])
    wrong = src.int(0, 2)
    for i, (dep, ref) in enumerate(refs.items()):
        key = skey(dep)
        if dep == "_dimensions" or key not in model.entries or \
                model.typ(key) != "attribute":
            continue
        if i == wrong and model.can_delete(key) and src.chance(30):
            ops.append(["del", key])
            continue
        if i == wrong:
            pool = [v for r in rules.values()
                    for s in r.get("specific", {}).values()
                    for v in s.get(dep) or [] if dep in s] + [
                        "metre", "degree, degree, metre", "hertz"]
            new = src.choice(pool)
        elif ref:
            new = src.choice(ref)
        else:
            continue
        ops += mutate.forced(model, key, ["set", key,
                                          {"k": "text", "v": new}])
    return ops


class CHECK(Check):
    ID = "C11"
    RULE = (
        "A case is a generated valid object with up to three changes to "
        "restricted entries (values from all rules, near misses, other "
        "case), deleted dependencies, additional entries with dependencies, "
        "or other sizes of restricted dimensions. The rules are fixed ones "
        "that mirror AES69 and generated ones. Non-trivial: a rule is "
        "violated, or a restricted value was changed.")
    ASSUMPTIONS = ["the rules are the JSON files of the world",
                   "the case of GLOBAL_RoomType is not defined"]
    QUICK = 700
    THOROUGH = 10000

    def gen(self, src, ctx):
        recipe = gens.valid(src, ctx.world, customs=1, small=True,
                            writable=False, reserved=ctx.reserved)
        model = build_model(ctx, recipe)
        ops = []
        for _ in range(src.int(0, 3)):
            kind = src.weighted((6, "mutate"), (2, "companion"),
                                (2, "resize"), (3, "dependent"))
            if kind == "mutate":
                ops += mutate.mutate(src, model, KINDS, 1)
                continue
            if kind == "companion":
                new = companion(src, model)
            elif kind == "dependent":
                new = dependent(src, model)
            else:
                new = self.resize(src, model)
            for op in new:
                apply_model(model, op)
            ops += new
        recipe["ops"] = recipe["ops"] + ops
        return {"recipe": recipe, "changes": len(ops), "handling":
                src.choice(["raise", "return", "print"]),
                "mode": src.choice(["read", "write"])}

    @staticmethod
    def resize(src, model):
        """Change a dimension of all variables."""
        sizes = model.solve()
        if sizes is None:
            return []
        letter = src.choice([d for d in "NMRE" if d in sizes] or ["M"])
        size = dict(sizes, C=3, I=1)
        size[letter] = src.choice([1, 2, 4, 5, 6, 7, 9, 12, 13, 16])
        ops = []
        for key in model.variables():
            if not gens.fits(model, key, size):
                ops += mutate.forced(model, key, [
                    "set", key, gens.variable_value(src, model, key, size)])
        return ops

    def run(self, ctx, case):
        sofa, model = pair(ctx, case["recipe"])
        issues = model.clone().verify("raise")
        if issues.missing or issues.types or issues.names or \
                issues.shape_conflict:
            return False
        if issues.units and case["mode"] == "write":
            case = dict(case, mode="read")
        handling, mode = case["handling"], case["mode"]
        o = ctx.call(sofa.verify, issue_handling=handling, mode=mode)
        if handling == "raise":
            check(o.exc is None or isinstance(o.exc, ValueError),
                  o.describe())
            text = str(o.exc) if o.exc else ""
        else:
            check(o.exc is None, "verify: " + o.describe())
            text = o.out if handling == "print" else o.value or ""
        bad = issues.errors("raise", mode)
        if handling == "raise":
            check((o.exc is not None) == bad, f"verify: {o.describe()}, "
                  f"violated rules: {issues.rules}")
        else:
            expected = bad or issues.warns("return", mode)
            check(bool(text.strip()) == expected, f"verify reported "
                  f"{text!r}, violated rules: {issues.rules}")
        words = named(text)
        ruled = {skey(k) for k in model.world.rules}
        for r in model.world.rules.values():
            ruled |= {skey(k) for k in r.get("general", [])}
            for spec in r.get("specific", {}).values():
                ruled |= {skey(k) for k in spec if k != "_dimensions"}
        blamed = set()
        for names in issues.rules:
            blamed |= names
            lost = names - words
            check(not lost, f"{sorted(lost)} not named in {text}")
        if issues.deprecated:
            blamed.add("GLOBAL_SOFAConventions")
        extra = {k for k in (words & ruled) - blamed if "_" in k}
        check(not extra, f"{sorted(extra)} are reported, violated rules: "
              f"{issues.rules}; {text}")
        ctx.label("violated" if issues.rules else "fulfilled")
        for names in issues.rules[:1]:
            ctx.label(f"{len(names)} names")
        return bool(issues.rules) or case["changes"] > 0
