"""C09: verification detects missing data and wrong types."""
import gens
import mutate
from base import Check
from lib import build_model, check, compare, frozen, diff, named, pair

KINDS = {"missing": None, "type": None}


def words_of(text, model, exact=False):
    """Entries that are named in a message."""
    words = named(text or "")
    keys = set(model.conv) if exact else set(model.conv) | set(model.custom)
    return {k for k in keys if k in words and len(k) > 2}


class CHECK(Check):
    ID = "C09"
    RULE = (
        "A case is a generated valid object of which up to four mandatory "
        "entries are deleted or entries get values of wrong types (any "
        "Python or numpy type), possibly with other violations, and a way "
        "to handle issues. Non-trivial: data are missing or of wrong type.")
    ASSUMPTIONS = ["the reference verification of harness/model.py",
                   "unsigned integers are left out (not mentioned in the "
                   "documentation)"]
    QUICK = 625
    THOROUGH = 9000

    def gen(self, src, ctx):
        recipe = gens.valid(src, ctx.world, customs=3, small=True,
                            writable=False, reserved=ctx.reserved)
        model = build_model(ctx, recipe)
        if src.chance(85):
            recipe["ops"] = recipe["ops"] + mutate.mutate(
                src, model, KINDS, 4)
        if src.chance(15):
            recipe["ops"] = recipe["ops"] + mutate.mutate(src, model)
        return {"recipe": recipe, "handling": src.choice(
            ["raise", "raise", "return", "return", "print", "ignore"]),
            "mode": src.choice(["read", "write"]),
            "again": src.chance(30)}

    def run(self, ctx, case):
        sofa, model = pair(ctx, case["recipe"])
        handling, mode = case["handling"], case["mode"]
        before = frozen(sofa)
        missing = model.missing("mandatory")
        issues = model.verify(handling)
        o = ctx.call(sofa.verify, issue_handling=handling, mode=mode)
        if handling == "raise":
            check(frozen(sofa) == before, "verify changed the object")
        else:
            check(o.exc is None, f"verify({handling!r}) gave "
                  + o.describe())
            changed = diff(before, frozen(sofa))
            check(set(changed) == set(missing), f"verify({handling!r}) "
                  f"changed {changed} although {missing} are missing")
        compare(sofa, model, "verified object")
        text = {"raise": str(o.exc) if o.exc else "",
                "return": o.value or "", "print": o.out,
                "ignore": ""}[handling]
        offending = set(issues.types)
        if handling != "ignore":
            offending |= set(missing)
        if handling == "raise":
            bad = issues.errors("raise", mode)
            check((o.exc is not None) == bad, f"verify raised "
                  f"{o.describe()}, reference: {issues}")
            if bad:
                check(isinstance(o.exc, ValueError), o.describe())
        if handling != "ignore":
            if issues.fatal(handling):
                check(text != "", f"nothing reported: {issues}")
                found = words_of(text, model, True)
                # (other issues can not be found in this case)
                extra = found - offending - set(missing)
                check(not extra, f"{sorted(extra)} are reported but "
                      f"only {sorted(offending)} are wrong")
            lost = {k for k in offending if k not in named(text)
                    and len(k) > 2}
            check(not lost, f"{sorted(lost)} are not reported: {text}")
        if handling == "return" and issues.clean() and \
                not issues.preliminary:
            check(o.value is None, f"returned {o.value!r} for a valid object")
        if case["again"] and handling != "raise" and not issues.types:
            # now everything is there
            o = ctx.call(sofa.verify, issue_handling="return", mode="read")
            m = model.clone().verify("raise")
            check(not m.missing, "reference")
            found = words_of(o.value, model, True) & set(missing)
            if not m.late_errors("read"):
                check(not found, f"{found} reported after they were added")
        for kind in ("missing", "types"):
            if getattr(issues, kind):
                ctx.label(kind)
        ctx.label(handling)
        return bool(issues.missing or issues.types)
