"""C17: missing data are added, present data are never touched."""
import os
import gens
import mutate
from base import Check
from lib import (apply, apply_model, build_model, check, compare, diff,
                 frozen, named, pair)
from model import mandatory, skey


class CHECK(Check):
    ID = "C17"
    RULE = (
        "A case is a generated valid object, or one with defaults only, from "
        "which up to twelve entries of any kind are deleted, followed by up "
        "to four calls of add_missing with all combinations of arguments, "
        "with further deletions in between. Non-trivial: data were added.")
    ASSUMPTIONS = ["the reference model of harness/model.py"]
    QUICK = 550
    THOROUGH = 8000

    def gen(self, src, ctx):
        plain = src.chance(40)
        recipe = gens.valid(src, ctx.world, customs=0 if plain else 2,
                            attrs=not plain, deletes=False, small=True,
                            writable=src.chance(70), reserved=ctx.reserved)
        if plain:
            recipe["ops"] = []
        model = build_model(ctx, recipe)
        steps = []
        for _ in range(src.int(1, 4)):
            new = []
            keys = sorted(k for k in model.entries if k in model.conv and k
                          not in ("GLOBAL_SOFAConventions",
                                  "GLOBAL_SOFAConventionsVersion"))
            if src.chance(70):
                keys = [k for k in keys if not mandatory(model.conv[k])]
            for key in src.sample(keys, 12 if not steps else 3):
                if key not in model.entries:
                    continue
                for op in mutate.forced(model, key, ["del", key]):
                    apply_model(model, op)
                    new.append(op)
            other = None
            if src.chance(30):
                # another convention that knows all entries
                fits = [(n, v) for n, v, _, e in ctx.world.conventions
                        if (n, v) != (model.name, model.version) and
                        set(model.entries) - set(model.custom) <=
                        {skey(k) for k in e}]
                if fits:
                    other = src.choice(fits)
                    self.convert(model, *other)
            m, o = src.choice([[True, True], [True, True], [True, False],
                               [False, True], [False, False]])
            model.add_missing(m, o)
            steps.append({"ops": new, "convert": other, "mandatory": m,
                          "optional": o,
                          "verbose": src.chance(60),
                          "default": src.chance(30),
                          "open": src.chance(20)})
        return {"recipe": recipe, "steps": steps}

    @staticmethod
    def convert(model, name, version):
        model.convert(name, version)
        model.entries["GLOBAL_SOFAConventions"] = name
        model.entries["GLOBAL_SOFAConventionsVersion"] = version

    def run(self, ctx, case):
        sofa, model = pair(ctx, case["recipe"])
        total = 0
        for step in case["steps"]:
            for op in step["ops"]:
                apply(sofa, op)
                apply_model(model, op)
            if step["convert"]:
                name, version = step["convert"]
                sofa.protected = False
                sofa.GLOBAL_SOFAConventions = name
                sofa.GLOBAL_SOFAConventionsVersion = version
                sofa.protected = True
                self.convert(model, name, version)
                ctx.label("converted")
            if step["open"]:
                sofa.protected = False
            before = frozen(sofa)
            m, o, verbose = (step["mandatory"], step["optional"],
                             step["verbose"])
            what = f"add_missing({m}, {o}, {verbose})"
            added = model.add_missing(m, o)
            if step["default"] and m and o and verbose:
                out = ctx.ok("add_missing()", sofa.add_missing)
            else:
                out = ctx.ok(what, sofa.add_missing, m, o, verbose)
            changed = diff(before, frozen(sofa))
            check(set(changed) == set(added), lambda: f"{what} changed "
                  f"{changed}, missing were {added}")
            check(not set(added) & set(before), "data were overwritten")
            compare(sofa, model, f"after {what}")
            check(bool(sofa.protected), "not protected afterwards")
            if verbose:
                found = named(out.out) & set(model.conv)
                check({k for k in found if len(k) > 1} ==
                      {k for k in added if len(k) > 1},
                      f"reported {sorted(found)}, but added {added}")
                check(out.out.strip() != "", "nothing was printed")
                for line in out.out.splitlines():
                    words = named(line)
                    for key in found & words:
                        group = "mandatory" if mandatory(model.conv[key]) \
                            else "optional"
                        check(not words & {"mandatory", "optional"} - {group},
                              f"{key} is {group}, reported as {line!r}")
            else:
                check(out.out == "", f"output: {out.out}")
            after = frozen(sofa)
            out = ctx.ok(what, sofa.add_missing, m, o, True)
            check(frozen(sofa) == after, lambda: "adding missing data again "
                  f"changed {diff(after, frozen(sofa))}")
            check(not (named(out.out) & {k for k in model.conv
                                         if len(k) > 1}),
                  f"adding missing data again reported {out.out}")
            total += len(added)
        ctx.label("added" if total else "nothing missing")
        # the completed object
        ctx.ok("add_missing", sofa.add_missing, verbose=False)
        model.add_missing()
        compare(sofa, model, "completed object")
        issues = model.clone().verify("raise")
        path = os.path.join(ctx.folder(), "a.sofa")
        o = ctx.call(ctx.sf.write_sofa, path, sofa)
        bad = issues.errors("raise", "write")
        check((o.exc is not None) == bad, f"writing the completed object: "
              f"{o.describe()}, reference: {issues}")
        if not bad:
            ctx.label("written")
            read = ctx.ok("reading", ctx.sf.read_sofa, path, "auto",
                          False).value
            model.entries["GLOBAL_DateModified"] = read.GLOBAL_DateModified
            compare(read, model, "completed object from disk")
        return total > 0
