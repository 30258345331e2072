"""C06: new objects contain exactly what their convention defines."""
import datetime
import re
import numpy as np
import gens
from base import Check
from lib import build_model, check, compare, public
from model import Obj

FREE = ["GLOBAL_DateCreated", "GLOBAL_DateModified", "GLOBAL_APIName",
        "GLOBAL_APIVersion", "GLOBAL_ApplicationName",
        "GLOBAL_ApplicationVersion"]


class CHECK(Check):
    ID = "C06"
    RULE = (
        "Every convention and version of the worker's world (fixed ones that "
        "mirror AES69, and generated ones with random entries, flags, "
        "dimensions, defaults and several versions) is created with all and "
        "with mandatory data only; generated cases add names and versions "
        "that are nearly right, 'latest', verification options, and changes "
        "made to a previous object of the same convention. Non-trivial: "
        "distinct arguments.")
    ASSUMPTIONS = ["the definitions are the JSON files of the world"]
    QUICK = 3000
    THOROUGH = 40000
    GENERATED = 14

    def corpus(self, ctx):
        out = []
        for name, version, _, _ in ctx.world.conventions:
            for mandatory in (False, True):
                for verify in ("auto", False):
                    out.append({"name": name, "version": version,
                                "mandatory": mandatory, "verify": verify,
                                "dirty": False})
        for name in ctx.world.by_name:
            out.append({"name": name, "version": "latest",
                        "mandatory": False, "verify": "auto", "dirty": True})
        return out

    def gen(self, src, ctx):
        world = ctx.world
        name, version = src.choice(world.conventions)[:2]
        names = sorted(world.by_name)
        wrong = [name + "_", name + "_" + version, name[:-1], name[1:],
                 name.lower(), name.upper(), name + "X", name + "*",
                 "*", "", " " + name, name + " ", "Foo", "_", ".",
                 name[:3], "../" + name, "deprecated/" + name,
                 src.text(ascii=True, max_size=6), "latest",
                 "*_1.0", "[" + name[0] + "]" + name[1:]]
        odd = [{"py": 5}, {"py": 1.5}, {"py": True}, {"py": ["a"]},
               {"py": {"a": 1}}, {"py": ["bytes"]}]
        versions = sorted({c[1] for c in world.conventions})
        wrong_version = [version + "0", "v" + version, "1", "", "Latest",
                         "99.0", " " + version, version + ".json", "0.0",
                         version[:1], "*", "newest"] + versions
        kind = src.weighted((3, "name"), (1, "odd"), (4, "version"),
                            (4, "latest"), (2, "good"))
        if kind == "name":
            name = src.choice(wrong)
            version = src.choice([version, "latest"])
        elif kind == "odd":
            name = src.choice(odd)
        elif kind == "version":
            version = src.choice(wrong_version)
        elif kind == "latest":
            name, version = src.choice(names), "latest"
        return {"name": name, "version": version,
                "mandatory": src.chance(50),
                "verify": src.choice(["auto", "auto", True, False]),
                "dirty": src.chance(50)}

    def run(self, ctx, case):
        Sofa = ctx.sf.Sofa
        name, version = case["name"], case["version"]
        if isinstance(name, dict):
            value = name["py"]
            if value == ["bytes"]:
                value = b"GeneralFIR"
            ctx.raises(TypeError, f"Sofa({value!r})", Sofa, value)
            ctx.label("not a string")
            return True
        known = ctx.world.by_name.get(name, {})
        if not known or (version != "latest" and version not in known):
            ctx.raises(ValueError, f"Sofa({name!r}, version={version!r})",
                       Sofa, name, mandatory=case["mandatory"],
                       version=version, verify=case["verify"])
            ctx.label("unknown")
            return True
        if case["dirty"]:
            # what happens to other objects does not matter
            other = ctx.call(Sofa, name, False, version, False).value
            other.protected = False
            for key in public(other):
                value = getattr(other, key)
                if isinstance(value, np.ndarray) and value.dtype.kind in "if":
                    value[...] = 99
                elif isinstance(value, str):
                    setattr(other, key, "changed")
            for key in public(other)[::2]:
                delattr(other, key)
        start = datetime.datetime.now().replace(microsecond=0)
        o = ctx.ok(f"Sofa({name!r}, version={version!r}, "
                   f"verify={case['verify']})", Sofa, name,
                   mandatory=case["mandatory"], version=version,
                   verify=case["verify"])
        end = datetime.datetime.now()
        sofa = o.value
        model = Obj(ctx.world, name, version, case["mandatory"])
        check(sofa.GLOBAL_SOFAConventions == name,
              f"{name} gave {sofa.GLOBAL_SOFAConventions}")
        check(sofa.GLOBAL_SOFAConventionsVersion == model.version,
              f"version {version} gave {sofa.GLOBAL_SOFAConventionsVersion} "
              f"of {sorted(known)}")
        compare(sofa, model, f"new {name} {model.version}")
        for key in ("GLOBAL_DateCreated", "GLOBAL_DateModified"):
            text = getattr(sofa, key)
            check(re.fullmatch(r"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d", text),
                  f"{key} is {text!r}")
            date = datetime.datetime.strptime(text, "%Y-%m-%d %H:%M:%S")
            check(start <= date <= end, f"{key} is {text!r} at {start}")
        check("sofar" in sofa.GLOBAL_APIName, "wrong API name")
        check(sofa.GLOBAL_APIVersion == ctx.sf.version(),
              "wrong API version")
        check("Python" in sofa.GLOBAL_ApplicationName and
              sofa.GLOBAL_ApplicationVersion, "wrong application")
        for key in model.variables():
            value, entry = getattr(sofa, key), model.conv[key]
            n = len(entry["dimensions"].split(", ")[0])
            if isinstance(entry["default"], list) and np.size(value) > 1:
                check(isinstance(value, np.ndarray) and
                      value.ndim >= n, f"{key} has shape "
                      f"{np.shape(value)} for {entry['dimensions']}")
            if isinstance(value, np.ndarray) and value.dtype.kind in "if":
                check(value.flags.writeable, f"{key} can not be written")
        check(sofa.protected, "a new object is not protected")
        if not case["mandatory"] or not model.clone().verify(
                "raise").errors("raise", "read"):
            ctx.ok(f"verifying a new {name}", sofa.verify, mode="read")
        ctx.label("new")
        return True
