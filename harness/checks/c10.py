"""C10: verification accepts exactly consistent array shapes."""
import gens
import mutate
from base import Check
from lib import build_model, check, named, pair
from model import definers


class CHECK(Check):
    ID = "C10"
    RULE = (
        "A case is a generated valid object (all sizes, custom variables "
        "with custom dimensions) of which the shapes of up to three "
        "variables are perturbed: one axis, swapped axes, additional axes, "
        "axes of size one. The oracle searches for one size per dimension "
        "that fits all variables. Non-trivial: a shape was perturbed or a "
        "dimension is larger than one.")
    ASSUMPTIONS = [
        "one dimensional numpy arrays are row vectors; they are not used "
        "for variables that set the sizes of dimensions (not defined)",
        "if no consistent sizes exist, the offending variables are those "
        "that have to be left out to make the rest consistent"]
    QUICK = 625
    THOROUGH = 9000

    def gen(self, src, ctx):
        recipe = gens.valid(src, ctx.world, customs=3, writable=False,
                            reserved=ctx.reserved, small=src.chance(80))
        model = build_model(ctx, recipe)
        changed = []
        if src.chance(75):
            for _ in range(src.weighted((4, 1), (2, 2), (1, 3))):
                keys = model.variables()
                if src.chance(60):
                    keys = [k for k in keys if not definers(model.entry(k))
                            ] or keys
                own = [k for k in keys if k in model.custom]
                key = src.choice(own if own and src.chance(40) else keys)
                ops = mutate.wrong_shape(src, model, key)
                from lib import apply_model
                for op in ops:
                    apply_model(model, op)
                recipe["ops"] = recipe["ops"] + ops
                changed.append(key)
        return {"recipe": recipe, "changed": sorted(set(changed)),
                "handling": src.choice(["raise", "return"]),
                "mode": src.choice(["read", "write"])}

    def run(self, ctx, case):
        sofa, model = pair(ctx, case["recipe"])
        if any(model.ambiguous(k) for k in model.variables()):
            return False
        issues = model.clone().verify("raise")
        if issues.missing or issues.types or issues.names:
            return False
        mode = case["mode"]
        o = ctx.call(sofa.verify, issue_handling=case["handling"], mode=mode)
        if case["handling"] == "raise":
            text = str(o.exc) if o.exc is not None else None
            check(o.exc is None or isinstance(o.exc, ValueError),
                  o.describe())
        else:
            check(o.exc is None, "verify: " + o.describe())
            text = o.value if issues.errors("raise", mode) else None
            if o.value is not None and text is None:
                check(issues.warns("raise", mode), "verify returned "
                      f"{o.value} for consistent shapes")
        if issues.shape_conflict:
            ctx.label("conflict")
            check(text is not None, "inconsistent shapes were accepted: "
                  + self.describe(model))
            words = named(text)
            found = {k for k in model.variables() if k in words}
            rest = [k for k in model.variables() if k not in found]
            check(model.solve(rest) is not None, f"only {sorted(found)} are "
                  "reported, but the others are inconsistent: "
                  + self.describe(model))
            if not any(definers(model.entry(k)) for k in case["changed"]):
                others = [k for k in model.variables()
                          if definers(model.entry(k))]
                sizes = model.solve(others)
                if sizes is not None:
                    wrong = {k for k in model.variables() if not gens.fits(
                        model, k, sizes)}
                    lost = wrong - words
                    check(not lost, f"{sorted(lost)} are not reported: "
                          + self.describe(model))
                    # (the words of the message itself)
                    extra = {k for k in found - wrong if k in model.conv
                             and len(k) > 2}
                    check(not extra or bool(
                        issues.rules or issues.units or issues.deprecated),
                          f"{sorted(extra)} are reported but fit: "
                          + self.describe(model))
        else:
            ctx.label("consistent")
            bad = issues.errors("raise", mode)
            check((text is not None) == bad, f"verify gave {text}, "
                  f"reference: {issues}; " + self.describe(model))
            # the sizes of all dimensions
            for letter, size in issues.sizes.items():
                found = ctx.ok(f"get_dimension({letter!r})",
                               sofa.get_dimension, letter).value
                check(found == size, f"get_dimension({letter!r}) is {found} "
                      f"instead of {size}")
            for letter in ("", "Z", "m", "MR", "foo", "Q", "T", "S"):
                if letter not in issues.sizes:
                    ctx.raises(ValueError, f"get_dimension({letter!r})",
                               sofa.get_dimension, letter)
        return bool(case["changed"]) or any(
            v > 1 for k, v in (issues.sizes or {}).items() if k not in "CS")

    @staticmethod
    def describe(model):
        return str({k: (model.entry(k)["dimensions"], model.shape(k))
                    for k in model.variables()})
