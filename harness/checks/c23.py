"""C23: outdated, preliminary and deprecated data are always flagged."""
import os
import gens
import mutate
import rawfile
from base import Check
from lib import (apply, apply_model, build_model, check, compare, pair)


def mentions(messages, *words):
    return [m for m in messages if all(w in m for w in words)]


def dangling(model):
    """Attributes that can not be stored."""
    return [k for k in model.entries if model.typ(k) == "attribute"
            and not k.startswith("GLOBAL_")
            and k[:k.rindex("_")] not in model.entries]


class CHECK(Check):
    ID = "C23"
    RULE = (
        "A case is one of the conventions and versions of the world (a third "
        "preliminary, a fifth deprecated, many outdated), generated valid "
        "data, a violation of the standard, and ways to handle issues. It is "
        "created in all ways, verified in both modes, written, and read from "
        "files written by sofar and by the netCDF4 library. Non-trivial: "
        "there is something to flag.")
    ASSUMPTIONS = ["flags name the version or the convention"]
    QUICK = 250
    THOROUGH = 6000

    def gen(self, src, ctx):
        world = ctx.world
        deprecated = world.deprecations["GLOBAL:SOFAConventions"]
        groups = [[], [], [], []]
        for name, version, _, _ in world.conventions:
            groups[2 if name in deprecated else 0 if float(version) < 1 else
                   1 if world.latest(name) != version else 3].append(
                       (name, version))
        conv = src.choice(src.choice([g for g in groups if g]))
        recipe = gens.valid(src, world, conv=conv, customs=1, small=True,
                            writable=False, reserved=ctx.reserved)
        for op in recipe["ops"]:
            # (missing data are flagged as well)
            if len(op) > 2 and isinstance(op[2], dict):
                op[2].pop("mask", None)
        model = build_model(ctx, recipe)
        bad = mutate.mutate(src, model, ["value", "dependency", "name"], 1)
        return {"recipe": recipe, "bad": bad,
                "mandatory": src.chance(30),
                "handling": src.choice(["raise", "print", "return",
                                        "ignore"]),
                "compression": src.int(0, 9)}

    def run(self, ctx, case):
        sf, world = ctx.sf, ctx.world
        recipe = case["recipe"]
        name, version = recipe["conv"], recipe["version"]
        preliminary = float(version) < 1
        deprecated = name in world.deprecations["GLOBAL:SOFAConventions"]
        outdated = world.latest(name) != version
        current = not (preliminary or deprecated or outdated)
        what = f"{name} {version}"

        def flagged(o, how, expected):
            """Flags of preliminary conventions."""
            found = mentions(o.messages, version)
            check(bool(found) or not expected,
                  f"{how} {what} did not flag the version: {o.messages}")
            check(current is False or not o.messages,
                  f"{how} {what}, which is current, warned {o.messages}")

        # creation
        plain = build_model(ctx, dict(recipe, ops=[], mandatory=False))
        usable = not plain.verify("raise").errors("raise", "read")
        for kwargs in ({}, {"verify": True}, {"verify": False},
                       {"mandatory": True}):
            if not usable and kwargs.get("verify") is not False:
                continue
            how = f"creating ({kwargs})"
            o = ctx.ok(f"{how} {what}", sf.Sofa, name, version=version,
                       **kwargs)
            flagged(o, how, preliminary)
            check(not (outdated and not preliminary and not deprecated)
                  or not o.messages, f"{how} {what} warned {o.messages}")

        # verification
        sofa, model = pair(ctx, recipe)
        issues = model.clone().verify("raise")
        if issues.errors("raise", "read") or issues.units:
            ctx.label("no valid data")
            return False
        for mode in ("read", "write"):
            dup = sofa.copy()
            o = ctx.call(dup.verify, mode=mode)
            how = f"verifying (mode {mode})"
            if deprecated and mode == "write":
                check(isinstance(o.exc, ValueError) and name in str(o.exc),
                      f"{how} {what}, which is deprecated, gave "
                      f"{o.describe()}")
            else:
                check(o.exc is None, f"{how} {what} gave {o.describe()}")
                check(not deprecated or mentions(o.messages, name),
                      f"{how} {what}, which is deprecated, warned "
                      f"{o.messages}")
                flagged(o, how, preliminary)
            o = ctx.ok(how, sofa.copy().verify, case["handling"] if
                       case["handling"] != "raise" else "return", mode)
            text = {"print": o.out, "ignore": None}.get(
                case["handling"], o.value)
            if case["handling"] != "ignore":
                check((version in (text or "")) or not preliminary,
                      f"{how} {what} reported {text!r}")
                check((name in (text or "")) or not deprecated,
                      f"{how} {what} reported {text!r}")
                check(not (text and (current or (
                    outdated and not preliminary and not deprecated))),
                    f"{how} {what} reported {text!r}")
            check(not o.messages, f"{how} {what} warned {o.messages}")

        # writing
        path = os.path.join(ctx.folder(), "a.sofa")
        o = ctx.call(sf.write_sofa, path, sofa.copy(), case["compression"])
        if deprecated:
            check(isinstance(o.exc, ValueError) and name in str(o.exc),
                  f"writing {what}, which is deprecated, gave "
                  f"{o.describe()}")
            check(not os.path.exists(path), f"a file with {what}, which is "
                  "deprecated, was written")
            ctx.label("deprecated")
            path = None
        else:
            check(o.exc is None, f"writing {what} gave {o.describe()}")
            flagged(o, "writing", preliminary or outdated)
            if outdated and preliminary:
                # two different flags
                check(len(set(mentions(o.messages, version))) > 1 or any(
                    m.count(version) > 1 for m in o.messages),
                    f"writing {what} warned {o.messages}")
            ctx.label("outdated" if outdated else "latest")
        if preliminary:
            ctx.label("preliminary")

        # reading
        other = os.path.join(ctx.folder(), "b.sofa")
        rawfile.write_model(other, model, {})
        for file in ([path] if path else []) + [other]:
            for verify in ("auto", True, False, "default"):
                args = [] if verify == "default" else [verify]
                how = f"reading ({verify})"
                if not usable and verify is not False and not (
                        preliminary and verify is not True):
                    # (the default data are verified as well)
                    continue
                o = ctx.call(sf.read_sofa, file, *args, verbose=False)
                check(o.exc is None, f"{how} {what} gave {o.describe()}")
                flagged(o, how, preliminary)
                if deprecated and verify is not False and (
                        verify is True or not preliminary):
                    check(mentions(o.messages, name), f"{how} {what}, which "
                          f"is deprecated, warned {o.messages}")
                if not (preliminary or deprecated):
                    check(not o.messages, f"{how} {what} warned "
                          f"{o.messages}")
                if file == other:
                    compare(o.value, model, f"{how} {what}")

        # automatic verification
        if usable:
            self.automatic(ctx, case, preliminary, what)
        return not current

    @staticmethod
    def automatic(ctx, case, preliminary, what):
        model = build_model(ctx, case["recipe"])
        for op in case["bad"]:
            apply_model(model, op)
        issues = model.clone().verify("raise")
        if not issues.late_errors("read") or issues.missing or issues.types \
                or issues.shape_conflict or dangling(model):
            return
        path = os.path.join(ctx.folder(), "c.sofa")
        rawfile.write_model(path, model, {})
        reads = {}
        for verify in ("auto", True, False):
            reads[verify] = ctx.call(ctx.sf.read_sofa, path, verify, False)
        check(reads[False].exc is None, f"reading {what} without "
              f"verification gave {reads[False].describe()}")
        check(isinstance(reads[True].exc, ValueError), f"reading {what} with "
              f"{issues} gave {reads[True].describe()}")
        check((reads["auto"].exc is None) == preliminary, f"reading {what} "
              f"with automatic verification and {issues} gave "
              f"{reads['auto'].describe()}")
        ctx.label("automatic")
