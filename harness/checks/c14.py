"""C14: verification modes agree and verification has no side effects."""
import gens
import mutate
from base import Check
from lib import build_model, canons, check, diff, frozen, pair

HANDLING = ["raise", "print", "return", "ignore"]


class CHECK(Check):
    ID = "C14"
    RULE = (
        "A case is a generated object, valid or with up to three violations "
        "of any kind, a verification mode, and an order in which copies are "
        "verified with all ways to handle issues, twice each. Non-trivial: "
        "there is something to report.")
    ASSUMPTIONS = ["the reference verification of harness/model.py"]
    QUICK = 375
    THOROUGH = 6000

    def gen(self, src, ctx):
        recipe = gens.valid(src, ctx.world, customs=2, small=True,
                            writable=False, reserved=ctx.reserved)
        if src.chance(75):
            model = build_model(ctx, recipe)
            recipe["ops"] = recipe["ops"] + mutate.mutate(
                src, model, None, 3)
        order = list(HANDLING)
        for i in range(3, 0, -1):
            j = src.int(0, i)
            order[i], order[j] = order[j], order[i]
        return {"recipe": recipe, "mode": src.choice(["read", "write"]),
                "order": order}

    def run(self, ctx, case):
        sofa, model = pair(ctx, case["recipe"])
        mode = case["mode"]
        missing = model.missing("mandatory")
        results = {}
        for handling in case["order"]:
            issues = model.clone().verify(handling)
            errors = issues.errors(handling, mode)
            # (warnings are not given if the verification stops early)
            warns = issues.warns(handling, mode)
            fatal = issues.fatal(handling)
            dup = sofa.copy()
            before = frozen(dup)
            protected = bool(dup.protected)
            o = ctx.call(dup.verify, handling, mode)
            after = frozen(dup)
            changed = diff(before, after)
            expected = missing if handling != "raise" else []
            check(set(changed) == set(expected) and
                  not any(k in before for k in changed),
                  f"verify({handling!r}) changed {changed}, missing were "
                  f"{missing}")
            # the default values
            m = model.clone()
            m.verify(handling)
            real, ref = canons(dup, m), m.canons()
            for key in expected:
                check(real[key] == ref[key], f"{key} was added with "
                      f"{real[key]} instead of {ref[key]}")
            check(not protected or bool(dup.protected),
                  "verify switched the protection off")
            again = ctx.call(dup.verify, handling, mode)
            check(frozen(dup) == after, "verifying again changed the object")
            self.outcome(handling, o, errors, warns, fatal, issues)
            # (nothing is missing any more)
            if not expected:
                check((type(again.exc), str(again.exc), again.out,
                       again.value, again.messages) ==
                      (type(o.exc), str(o.exc), o.out, o.value, o.messages),
                      f"verify({handling!r}) gave {o.describe()} {o.value} "
                      f"{o.out} and then {again.describe()} {again.value} "
                      f"{again.out}")
            else:
                i2 = m.clone().verify(handling)
                self.outcome(handling, again, i2.errors(handling, mode),
                             i2.warns(handling, mode), i2.fatal(handling),
                             i2)
            results[handling] = o
        # the same errors are raised, printed and returned
        if not missing:
            raised, returned = results["raise"], results["return"]
            printed = results["print"]
            text = str(raised.exc) if raised.exc is not None else ""
            check(text.strip() in (returned.value or ""),
                  f"raised {text}, returned {returned.value}")
            check(text.strip() in printed.out,
                  f"raised {text}, printed {printed.out}")
            parts = [text] + raised.messages
            for part in parts:
                check(part.strip() in (returned.value or ""),
                      f"{part!r} was not returned: {returned.value}")
        check(frozen(sofa) == frozen(sofa.copy()), "copies differ")
        issues = model.clone().verify("return")
        for kind in ("missing", "types", "names", "shape_conflict", "rules",
                     "units", "deprecated", "preliminary"):
            if getattr(issues, kind):
                ctx.label(kind)
        return not issues.clean() or issues.preliminary

    @staticmethod
    def outcome(handling, o, errors, warns, fatal, issues):
        if handling == "raise":
            check((o.exc is not None) == errors, f"verify('raise') gave "
                  f"{o.describe()}, reference: {issues}")
            check(o.exc is None or isinstance(o.exc, ValueError),
                  o.describe())
            check(o.out == "", f"verify('raise') printed {o.out}")
            check(o.value is None, f"verify('raise') returned {o.value}")
            if not fatal:
                check(bool(o.messages) == warns, f"verify('raise') warned "
                      f"{o.messages}, reference: {issues}")
            return
        check(o.exc is None, f"verify({handling!r}) raised {o.describe()}")
        check(not o.messages, f"verify({handling!r}) warned {o.messages}")
        something = errors or (warns and not fatal)
        if handling == "return":
            check(o.out == "", f"verify('return') printed {o.out}")
            check((o.value is not None) == something,
                  f"verify('return') returned {o.value}, reference: "
                  f"{issues}")
            check(o.value is None or isinstance(o.value, str),
                  f"verify('return') returned {o.value!r}")
        else:
            check(o.value is None, f"verify({handling!r}) returned "
                  f"{o.value}")
            expected = something and handling == "print"
            check(bool(o.out.strip()) == expected, f"verify({handling!r}) "
                  f"printed {o.out!r}, reference: {issues}")
