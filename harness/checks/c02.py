"""C02: invalid objects are never written, valid ones without side effects."""
import os
import gens
import mutate
from base import Check
from lib import (build_model, check, frozen, diff, pair, tree)


class CHECK(Check):
    ID = "C02"
    RULE = (
        "A case is a generated valid object followed by up to two mutations "
        "(missing data, wrong types, shapes, values, dependencies, units in "
        "upper case, reserved names; or a deprecated convention), a valid or "
        "(10 %) invalid compression level, a target "
        "that does not exist, is a valid SOFA file or a junk file, and other "
        "files in the same folder. Non-trivial: the reference verification "
        "rejects the object, or the level is invalid.")
    ASSUMPTIONS = ["the reference verification of harness/model.py"]
    QUICK = 325
    THOROUGH = 5000

    def gen(self, src, ctx):
        world = ctx.world
        deprecated = [c[:2] for c in world.conventions
                      if c[0] in world.deprecations["GLOBAL:SOFAConventions"]]
        conv = None
        if src.chance(15):
            conv = src.choice(deprecated)
        recipe = gens.valid(src, world, conv=conv, customs=2, small=True,
                            reserved=ctx.reserved)
        if src.chance(80):
            model = build_model(ctx, recipe)
            recipe["ops"] = recipe["ops"] + mutate.mutate(src, model)
        level = src.int(0, 9)
        if src.chance(10):
            level = src.choice([-1, 10, 12, 99, -9, "4", "", "high", [4]])
        return {"recipe": recipe, "compression": level,
                "suffix": src.chance(50),
                "previous": src.choice([None, "sofa", "junk"])}

    def run(self, ctx, case):
        sf = ctx.sf
        sofa, model = pair(ctx, case["recipe"])
        folder = ctx.folder()
        target = os.path.join(folder, "file.sofa")
        arg = target if case["suffix"] else target[:-5]
        other = sf.Sofa("GeneralFIR", verify=False)
        ctx.ok("writing", sf.write_sofa, os.path.join(
            folder, "other.sofa"), other)
        if case["previous"] == "sofa":
            ctx.ok("writing", sf.write_sofa, target, other)
        elif case["previous"] == "junk":
            with open(target, "wb") as f:
                f.write(b"precious data")
        with open(os.path.join(folder, "file"), "w") as f:
            f.write("unrelated")
        before_files = tree(folder)
        before = frozen(sofa)
        issues = model.clone().verify("raise")
        o = ctx.call(sf.write_sofa, arg, sofa, case["compression"])
        after_files = tree(folder)
        check(frozen(sofa) == before, lambda: "writing changed the object: "
              + str(diff(before, frozen(sofa))))
        if issues.errors("raise", "write"):
            check(o.exc is not None,
                  f"an invalid object was written: {issues}")
            check(before_files == after_files,
                  lambda: "the failed attempt to write an invalid object "
                  f"({issues}) changed {diff(before_files, after_files)}")
            for kind in ("missing", "types", "names", "shape_conflict",
                         "rules", "units", "deprecated"):
                if getattr(issues, kind):
                    ctx.label("invalid: " + kind)
            return True
        ctx.label("valid")
        if case["compression"] not in list(range(10)):
            check(o.exc is not None, "a file was written with compression "
                  f"{case['compression']!r}")
            check(before_files == after_files, lambda: "the failed attempt "
                  f"to write with compression {case['compression']!r} "
                  f"changed {diff(before_files, after_files)}")
            ctx.label("invalid: compression")
            return True
        check(o.exc is None, "writing a valid object failed: "
              + o.describe())
        check(diff(before_files, after_files) == ["file.sofa"],
              f"writing changed {diff(before_files, after_files)}")
        outdated = model.version != ctx.world.latest(model.name)
        warned = any("utdated" in m and model.version in m
                     for m in o.messages)
        check(warned == outdated,
              f"outdated version {model.version}: {outdated}, but warnings "
              f"are {o.messages}")
        return False
