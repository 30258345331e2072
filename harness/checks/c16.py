"""C16: upgrading conventions moves data and loses nothing else."""
import json
import os
import re
import gens
from base import Check
from lib import (apply_model, build_model, check, compare, diff, frozen, named, pair)
from model import Obj, options, skey


class CHECK(Check):
    ID = "C16"
    RULE = (
        "A case is a generated valid object (random sizes, missing data, "
        "custom entries, deleted optional entries) of a random convention, "
        "mostly one with upgrade rules (fixed ones that mirror sofar's, and "
        "generated chains that move, transpose and remove data), and a list "
        "of targets: None, invalid ones, and valid ones until there is "
        "nothing to upgrade. Non-trivial: data were moved or removed.")
    ASSUMPTIONS = ["the rules are the JSON files of the world",
                   "the reference upgrade of harness/model.py"]
    QUICK = 425
    THOROUGH = 7000
    GENERATED = 10

    def prepare(self, ctx):
        """Deprecated conventions and versions without upgrade rules."""
        seed = ctx.world_args[0]
        upgrades = ctx.world.upgrades
        if seed % 2:
            for name in ("SimpleFreeFieldTF", "SingleTrackedAudio"):
                versions = upgrades[name]["from_to"][0][0]
                # (called twice for replays)
                if len(versions) > 1:
                    versions.pop(seed // 2 % 2)
        if seed % 3 == 0:
            upgrades.pop("SingleRoomDRIR", None)
        with open(os.path.join(ctx.package, "sofa_conventions", "rules",
                               "upgrade.json"), "w") as f:
            json.dump(upgrades, f)

    def gen(self, src, ctx):
        world = ctx.world
        conv = None
        if src.chance(85):
            candidates = [(n, v) for n, v, _, _ in world.conventions
                          if n in world.upgrades and any(
                              v in f[0] for f in world.upgrades[n]["from_to"])]
            conv = src.choice(candidates)
        else:
            # (deprecated without rules)
            candidates = [
                (n, v) for n, v, _, _ in world.conventions
                if n in world.deprecations["GLOBAL:SOFAConventions"]
                and not any(v in f[0] for f in world.upgrades.get(
                    n, {"from_to": []})["from_to"])]
            if candidates and src.chance(40):
                conv = src.choice(candidates)
        recipe = gens.valid(src, world, conv=conv, customs=3, small=True,
                            writable=False, reserved=ctx.reserved)
        if src.chance(35):
            recipe["ops"] = recipe["ops"] + self.early(src, ctx, recipe)
        steps = []
        for _ in range(src.int(1, 4)):
            steps.append(src.weighted(
                (2, None), (6, ["target", src.int(0, 9)]),
                (1, "Foo_1.0"), (1, ""), (1, "GeneralFIR_1.0"),
                (1, ["near", src.int(0, 5)])))
        return {"recipe": recipe, "steps": steps,
                "verify": src.choice(["auto", "auto", True, False]),
                "dirty": src.chance(20)}

    @staticmethod
    def early(src, ctx, recipe):
        """Custom entries that have names of the upgraded convention."""
        world = ctx.world
        model = build_model(ctx, recipe)
        size = model.clone().verify("raise").sizes
        targets = model.targets()
        if not targets or not size:
            return []
        target = src.choice(targets)
        conv = Obj(world, *target.split("_"), False).conv
        rules = world.upgrades[model.name]
        moved = {skey(m["target"]) for r in rules if r != "from_to"
                 for m in rules[r]["move"].values()}
        ops = []
        names = [k for k in conv if k not in model.conv and k not in moved]
        for name in src.sample(names, 3):
            entry = conv[name]
            typ = entry["type"]
            if typ == "attribute":
                if not model.can_add(name, typ, None, ctx.reserved):
                    continue
                op = ["adda", name, {"k": "text", "v": src.choice(
                    [entry["default"] or "x", "text"])}]
            else:
                dims = src.choice(options(entry)).upper()
                if not model.can_add(name, typ, dims, ctx.reserved):
                    continue
                size = dict({d: 1 for d in dims}, **size)
                op = ["addv", name, gens.value_for(
                    src, dims, typ, size, True, False, False), typ, dims]
            apply_model(model, op)
            ops.append(op)
        return ops

    def run(self, ctx, case):
        sofa, model = pair(ctx, case["recipe"])
        moved_any = False
        if case["dirty"]:
            # an unprotected object
            sofa.protected = False
        for step in case["steps"]:
            targets = model.targets()
            if isinstance(step, list):
                options = targets or ["GeneralTF_2.0"]
                target = options[step[1] % len(options)]
                if step[0] == "near":
                    target = [target[:-1], target + "0", target.lower(),
                              target.replace("_", ""), target + " ",
                              target.split("_")[0]][step[1]]
            else:
                target = step
            before = frozen(sofa)
            if target not in (targets or []) or target is None:
                o = ctx.ok(f"upgrade_convention({target!r})",
                           sofa.upgrade_convention, target, case["verify"])
                check(frozen(sofa) == before, lambda: "nothing to upgrade, "
                      f"but changed {diff(before, frozen(sofa))}")
                check(o.value == (targets or []) or (
                          not targets and target is not None and not o.value),
                      f"upgrade_convention({target!r}) returned {o.value} "
                      f"instead of {targets}")
                if model.name in \
                        ctx.world.deprecations["GLOBAL:SOFAConventions"]:
                    check("up to date" not in o.out, f"{model.name} is "
                          f"deprecated, but upgrading says {o.out}")
                for name, version in (t.split("_") for t in targets or []):
                    check(any(re.search(
                        rf"(?<![\w-]){name}(?![\w-]).*(?<![\d.]){version}"
                        r"(?![\d.])", line.replace("_", " "))
                        for line in o.out.splitlines()), f"{name} {version} "
                        f"is not listed as target: {o.out}")
                ctx.label("not upgraded")
                continue
            m = model.clone()
            message = model.rule(target)["message"]
            deprecated = [(skey(k), d["deprecated_dimensions"])
                          for k, d in model.rule(target)["move"].items()
                          if skey(k) in model.entries
                          and d["deprecated_dimensions"]]
            moved, removed, added = m.upgrade(target)
            issues = m.clone().verify("raise")
            name, version = target.split("_")
            active = float(version) >= 1 if case["verify"] == "auto" else \
                case["verify"]
            # ('auto' is the default)
            args = [target, case["verify"]] if case["verify"] != "auto" \
                or case["dirty"] else [target]
            o = ctx.call(sofa.upgrade_convention, *args)
            bad = issues.errors("raise", "write")
            if not (active and bad):
                check(o.exc is None, f"upgrading to {target} failed: "
                      f"{o.describe()}; reference: {issues}")
            else:
                check(isinstance(o.exc, ValueError), f"upgrading to {target}"
                      f" gave {o.describe()}; reference: {issues}")
                ctx.label("invalid afterwards")
            check(o.value is None, f"upgrading returned {o.value}")
            compare(sofa, m, f"after upgrading to {target}")
            check(sofa.GLOBAL_SOFAConventions == name and
                  sofa.GLOBAL_SOFAConventionsVersion == version,
                  "wrong convention after upgrading")
            check(bool(sofa.protected), "not protected after upgrading")
            after = frozen(sofa)
            fixed = {"GLOBAL_SOFAConventions", "GLOBAL_Version",
                     "GLOBAL_SOFAConventionsVersion", "GLOBAL_DataType"}
            allowed = set(moved) | set(removed) | set(added) | fixed | \
                (set(model.entries) - set(m.entries))
            extra = set(diff(before, after)) - allowed
            check(not extra, f"upgrading to {target} changed {extra}")
            # exactly the values, on other axes
            words = named(o.out)
            check((message or "") in o.out, f"the message {message!r} is "
                  f"missing: {o.out}")
            check("None" not in words, f"output: {o.out}")
            for key in list(moved) + removed + added:
                check(key in words, f"{key} is not reported: {o.out}")
            for key, letters in deprecated:
                lines = [line for line in o.out.splitlines()
                         if key in named(line)]
                check(any("deprecated" in line and set(letters) <= named(line)
                          for line in lines), f"deprecated dimensions "
                      f"{letters} of {key} are not reported: {o.out}")
                ctx.label("deprecated dimensions")
            model = m
            moved_any = moved_any or bool(moved) or bool(removed)
            ctx.label("upgraded")
            if moved:
                ctx.label("moved")
            if removed:
                ctx.label("removed")
            if added:
                ctx.label("added")
            # it is an object of the target
            o = ctx.call(sofa.verify, "return", "read")
            check(o.exc is None, "verify: " + o.describe())
            check((o.value is not None) == (
                issues.errors("raise", "read") or
                issues.warns("raise", "read")),
                f"verification after upgrading: {o.value}, reference: "
                f"{issues}")
            if issues.missing:
                break
        if moved_any and not model.clone().verify("raise").errors(
                "raise", "write"):
            path = os.path.join(ctx.folder(), "a.sofa")
            ctx.ok("writing an upgraded object", ctx.sf.write_sofa, path,
                   sofa)
            read = ctx.ok("reading an upgraded object", ctx.sf.read_sofa,
                          path, "auto", False).value
            model.entries["GLOBAL_DateModified"] = read.GLOBAL_DateModified
            compare(read, model, "upgraded object from disk")
            ctx.label("written")
        return moved_any
