"""C20: listed conventions are exactly the installed, usable ones."""
import json
import os
import re
from base import Check
from lib import HarnessError, build, check

NEW = ["FreeFieldNEW", "FreeField", "SimpleFreeFieldHRIRX", "GeneralFIR-New",
       "NEW2", "A", "SimpleFreeField", "generalnew"]
VERSIONS = ["1.0", "2.0", "0.1", "1.1", "0.3", "3.4", "2.1", "10.0"]
STANDARDS = ["2.1", "2.1\n", "2.1 \n", "AES69-2022\n", "3.0.1\r\n",
             "2.1\nsecond line 9.9\n", " 2.2\n"]


class CHECK(Check):
    ID = "C20"
    RULE = (
        "A case is a set of installed conventions (those of the world minus "
        "up to four, plus up to four new names and versions, standardized or "
        "deprecated) and a version of the standard. All listed conventions "
        "are created, and up to ten names or versions that are not listed. "
        "Non-trivial: the set differs from that of the world.")
    ASSUMPTIONS = ["file names are <name>_<version>.json, with versions of "
                   "the form <number>.<number>"]
    ASCII = True
    QUICK = 300
    THOROUGH = 5000

    def prepare(self, ctx):
        """Files with the default data of all conventions of the world."""
        self.written = []
        for name, version, deprecated, _ in ctx.world.conventions:
            path = os.path.join(ctx.tmp, f"c20_{name}_{version}.sofa")
            o = ctx.call(ctx.sf.Sofa, name, version=version, verify=False)
            if o.exc is None:
                o = ctx.call(ctx.sf.write_sofa, path, o.value, 0)
            if o.exc is None:
                self.written.append([name, version, path])

    def gen(self, src, ctx):
        world = [[n, v, bool(d)] for n, v, d, _ in ctx.world.conventions]
        removed = [w[:2] for w in src.sample(world, 4)]
        have = {(n, v) for n, v, _ in world}
        added = []
        pool = NEW + sorted({n for n, _, _ in world})
        for _ in range(src.int(0, 4)):
            name, version = src.choice(pool), src.choice(VERSIONS)
            if (name, version) in have:
                continue
            have.add((name, version))
            added.append([name, version, src.chance(30),
                          src.int(0, len(world) - 1)])
        names = sorted({n for n, _ in have})
        bad = []
        for _ in range(src.int(1, 10)):
            name = src.choice(names)
            how = src.int(0, 7)
            version = src.choice(VERSIONS + ["latest"])
            if how == 0:
                name = name[:src.int(0, max(0, len(name) - 1))]
            elif how == 1:
                name = name + src.choice(["X", "_1", " ", "2", "_1.0"])
            elif how == 2:
                name = name.swapcase()
            elif how == 3:
                name = src.choice(["", "*", "Simple*", "FreeField?", "../x",
                                   "deprecated/" + name, "None"])
            elif how == 4:
                version = src.choice(["", "1", "1.", "1.00", "01.0", "9.9",
                                      "v1.0", "newest", "Latest", "*"])
            bad.append([name, version])
        return {"removed": removed, "added": added, "bad": bad,
                "standard": src.choice(STANDARDS),
                "readers": src.sample(list(range(40)), 3)}

    def run(self, ctx, case):
        base = os.path.join(ctx.package, "sofa_conventions")
        folder = os.path.join(base, "conventions")
        undo = []
        with open(os.path.join(base, "VERSION"), newline="") as f:
            standard = f.read()
        try:
            installed = self.install(ctx, case, folder, undo)
            with open(os.path.join(base, "VERSION"), "w", newline="") as f:
                f.write(case["standard"])
            self.examine(ctx, case, installed)
        finally:
            with open(os.path.join(base, "VERSION"), "w", newline="") as f:
                f.write(standard)
            for path, content in undo:
                if content is None:
                    os.remove(path)
                else:
                    with open(path, "wb") as f:
                        f.write(content)
        return bool(case["removed"] or case["added"])

    @staticmethod
    def install(ctx, case, folder, undo):
        installed = {}
        for name, version, deprecated, entries in ctx.world.conventions:
            sub = os.path.join(folder, "deprecated") if deprecated else folder
            path = os.path.join(sub, f"{name}_{version}.json")
            if not os.path.isfile(path):
                raise HarnessError(f"{path} does not exist")
            if [name, version] in case["removed"]:
                with open(path, "rb") as f:
                    undo.append((path, f.read()))
                os.remove(path)
                continue
            installed[name, version] = entries
        for name, version, deprecated, i in case["added"]:
            entries = json.loads(json.dumps(ctx.world.conventions[i][3]))
            entries["GLOBAL:SOFAConventions"]["default"] = name
            entries["GLOBAL:SOFAConventionsVersion"]["default"] = version
            sub = os.path.join(folder, "deprecated") if deprecated else folder
            path = os.path.join(sub, f"{name}_{version}.json")
            undo.append((path, None))
            with open(path, "w") as f:
                json.dump(entries, f)
            installed[name, version] = entries
        return installed

    def examine(self, ctx, case, installed):
        o = ctx.ok("listing the conventions", ctx.sf.list_conventions)
        check(o.value is None, f"list_conventions returned {o.value!r}")
        found = []
        for line in o.out.splitlines():
            m = re.search(r"(?<![\w.])(\d+\.\d+)(?![\w.])", line)
            if m:
                words = re.findall(r"[\w-]+", line[:m.start()])
                names = [w for w in words if (w, m[1]) in installed]
                check(len(names) == 1, f"listed {line!r}, which is not "
                      f"installed (or twice): {sorted(installed)}")
                found.append((names[0], m[1]))
        check(sorted(found) == sorted(installed), lambda: "listed "
              f"{sorted(found)}, installed are {sorted(installed)}")
        for (name, version), entries in installed.items():
            o = ctx.ok(f"creating {name} {version}", ctx.sf.Sofa, name,
                       version=version, verify=False)
            check((o.value.GLOBAL_SOFAConventions,
                   o.value.GLOBAL_SOFAConventionsVersion) == (name, version),
                  f"created {o.value!r} instead of {name} {version}")
            keys = {k.replace(":", "_").replace(".", "_") for k in entries}
            check({k for k in vars(o.value) if not k.startswith("_")} ==
                  keys, f"{name} {version} has the entries of another "
                  "convention")
            check(name in repr(o.value) and version in repr(o.value),
                  f"{name} {version} presents itself as {o.value!r}")
        latest = {}
        for name, version in installed:
            if float(version) >= float(latest.get(name, 0)):
                latest[name] = version
        for name, version in latest.items():
            o = ctx.ok(f"creating {name}", ctx.sf.Sofa, name, verify=False)
            check(o.value.GLOBAL_SOFAConventionsVersion == version,
                  f"the latest version of {name} is {version}, not {o.value}")
        gone = [c for c in case["removed"]] + case["bad"]
        for name, version in gone:
            if (name, version) in installed or (
                    version == "latest" and name in latest):
                continue
            o = ctx.call(ctx.sf.Sofa, name, version=version, verify=False)
            check(isinstance(o.exc, ValueError), f"creating {name!r} "
                  f"{version!r} gave {o.describe()}, but it is not listed")
            ctx.label("not listed")
        # files can be read if and only if the convention is listed
        for i in case["readers"]:
            check(self.written, "no convention can be written")
            name, version, path = self.written[i % len(self.written)]
            what = f"reading a file with {name} {version}"
            if (name, version) in installed:
                o = ctx.ok(what, ctx.sf.read_sofa, path, False, False)
                check((o.value.GLOBAL_SOFAConventions,
                       o.value.GLOBAL_SOFAConventionsVersion) ==
                      (name, version), f"{what} gave {o.value!r}")
            else:
                o = ctx.call(ctx.sf.read_sofa, path, False, False)
                check(isinstance(o.exc, ValueError),
                      f"{what}, which is not listed, gave {o.describe()}")
                ctx.label("not readable")
        o = ctx.ok("version", ctx.sf.version)
        standard = case["standard"].splitlines()[0].strip()
        words = re.findall(r"[\w.-]+", str(o.value))
        check(standard in words and any(
            w.lstrip("v") == ctx.sf.__version__ for w in words),
            f"version is {o.value!r} but should name {standard} and "
            f"{ctx.sf.__version__}")
        check("9.9" not in o.value, f"version is {o.value!r}")
        check("\n" not in o.value, f"version is {o.value!r}")
