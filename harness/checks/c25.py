"""C25: the documentation page of the conventions is complete."""
import importlib
import json
import os
import re
import shutil
import sys
import boot
from base import Check
from checks.c20 import CHECK as Listing
from lib import check

SCRIPTS = os.path.join(boot.REPO, "docs", "resources")
TEXTS = ["", "Größe in µm", "a - b", "* star", "deprecated", "x, y; z",
         "`code`", "None", "(optional)", "   ", "GLOBAL:Title",
         "position in °", "日本", "length of .sofa files", "*em* **st**",
         "a_b.c:d", "two  spaces", "FreeFieldHRIR_1.0", "'quoted' \"text\"",
         "{value}", "%s", "back\\slash", "x" * 300, None]
DEFAULTS = ["", 0, 1.5, [0, 0, 0], [[1, 2], [3, 4]], "metre", "Ünit", "a_b",
            "a.b", "a:b", " .x", "m/r", [0], [[0, 0, 1]], 44100, 1e-12, -1, None]


def cells(lines):
    """Rows of the first list table."""
    rows = []
    for line in lines:
        if re.match(r"\s*\* - ", line):
            rows.append([line.split("* - ", 1)[1]])
        elif rows and re.match(r"\s+-( |$)", line):
            rows[-1].append(line.split("-", 1)[1][1:])
        elif rows and line.strip() and line[0] != " ":
            break
    return [[c.strip() for c in r] for r in rows]


class CHECK(Check):
    ID = "C25"
    RULE = (
        "A case is a set of installed conventions (the ones of the world "
        "without up to four, and with up to four others in the folders of "
        "current or deprecated conventions) in which up to six entries have "
        "other comments, defaults, flags and dimensions, other rules for "
        "upgrading and deprecations. The script is imported from a copy of "
        "its folder. Non-trivial: something was changed.")
    ASSUMPTIONS = [
        "comments and defaults are single lines (the source tables have one "
        "line per entry)"]
    QUICK = 150
    THOROUGH = 3000
    ASCII = True

    def gen(self, src, ctx):
        case = Listing().gen(src, ctx)
        del case["bad"], case["readers"], case["standard"]
        convs = [[n, v] for n, v, _, _ in ctx.world.conventions] + \
            [a[:2] for a in case["added"]]
        case["edits"] = [
            [src.choice(convs), src.int(0, 99),
             src.choice(["comment", "comment", "default", "flags",
                         "dimensions"]), src.int(0, 99)]
            for _ in range(src.int(0, 6))]
        names = sorted({c[0] for c in convs})
        case["upgrades"] = [
            [src.choice(names), src.sample(["0.1", "0.9", "1.0", "1.1", "2.0"],
                                           3),
             ["_".join(c) for c in src.sample(convs, 2)]]
            for _ in range(src.int(0, 3))]
        case["drop"] = src.sample(sorted(ctx.world.upgrades), 2)
        case["deprecations"] = [[src.choice(names), src.choice(names)]
                                for _ in range(src.int(0, 3))]
        return case

    def run(self, ctx, case):
        base = os.path.join(ctx.package, "sofa_conventions")
        backup = os.path.join(ctx.folder(), "backup")
        shutil.copytree(base, backup)
        try:
            self.examine(ctx, case, base)
        finally:
            shutil.rmtree(base)
            shutil.copytree(backup, base)
        return any(case[k] for k in ("removed", "added", "edits", "upgrades",
                                     "deprecations", "drop"))

    @staticmethod
    def install(ctx, case, base):
        """Change the conventions, return what is installed."""
        folder = os.path.join(base, "conventions")
        Listing.install(ctx, case, folder, [])
        installed = {}
        for deprecated in (False, True):
            sub = os.path.join(folder, "deprecated") if deprecated else folder
            for name in os.listdir(sub):
                if not name.endswith(".json"):
                    continue
                path = os.path.join(sub, name)
                key = tuple(name[:-5].split("_"))
                with open(path, encoding="utf-8") as f:
                    entries = json.load(f)
                for conv, i, what, j in case["edits"]:
                    if tuple(conv) != key:
                        continue
                    entry = entries[sorted(entries)[i % len(entries)]]
                    values = {"comment": TEXTS, "default": DEFAULTS,
                              "flags": ["r", "m", "rm", "mr", None],
                              "dimensions": ["IC, MC", "mRn", "E", None],
                              }[what]
                    entry[what] = values[j % len(values)]
                if case["edits"]:
                    with open(path, "w", encoding="utf-8") as f:
                        json.dump(entries, f)
                installed[key] = deprecated, entries
        return installed

    @staticmethod
    def rules(ctx, case, base):
        upgrades = json.loads(json.dumps(ctx.world.upgrades))
        for name in case["drop"]:
            del upgrades[name]
        for name, versions, targets in case["upgrades"]:
            upgrades[name] = {"from_to": [[versions, targets]]}
        deprecations = json.loads(json.dumps(ctx.world.deprecations))
        for old, new in case["deprecations"]:
            deprecations["GLOBAL:SOFAConventions"][old] = new
        for name, content in (("upgrade", upgrades),
                              ("deprecations", deprecations)):
            with open(os.path.join(base, "rules", name + ".json"), "w") as f:
                json.dump(content, f)
        return upgrades, deprecations["GLOBAL:SOFAConventions"]

    def examine(self, ctx, case, base):
        installed = self.install(ctx, case, base)
        upgrades, deprecations = self.rules(ctx, case, base)
        folder = os.path.join(ctx.folder(), "docs", "resources")
        os.makedirs(folder)
        scripts = [n for n in os.listdir(SCRIPTS) if n.endswith(".py")]
        for name in scripts:
            shutil.copy(os.path.join(SCRIPTS, name), folder)
        path = list(sys.path)
        try:
            # (as in docs/conf.py)
            sys.path.insert(0, os.path.dirname(folder))
            importlib.invalidate_caches()
            ctx.ok("writing the documentation", importlib.import_module,
                   "resources.conventions")
        finally:
            sys.path[:] = path
            for name in [n for n in sys.modules
                         if n.split(".")[0] == "resources"]:
                del sys.modules[name]
        made = [n for n in os.listdir(folder) if n not in scripts
                and n != "__pycache__"]
        check(made == ["conventions.rst"], f"the script wrote {made}")
        with open(os.path.join(folder, made[0]), encoding="utf-8") as f:
            text = f.read()
        # the table of content
        listed = re.findall(r"^\* :ref:`(.*) <(.*)>`$", text, re.M)
        wanted = sorted(
            (f"{n} v{v}" + (" (deprecated)" if installed[n, v][0] else ""),
             f"{n}_{v}") for n, v in installed)
        check(sorted(listed) == wanted, f"the table of content lists "
              f"{sorted(set(listed) ^ set(wanted))}")
        # the conventions
        parts = re.split(r"^\.\. _(.*):$", text, flags=re.M)
        sections = list(zip(parts[1::2], parts[2::2]))
        names = [n for n, _ in sections if n != "conventions" and
                 n != "conventions_introduction"]
        check(sorted(names) == sorted(w[1] for w in wanted),
              f"sections {sorted(names)}, installed {wanted}")
        check(names == [r for _, r in listed], "other order of the sections")
        flags = [installed[tuple(n.split("_"))][0] for n in names]
        check(flags == sorted(flags), "deprecated conventions are mixed")
        for label, section in sections:
            if label in names:
                self.section(label, section, installed, upgrades,
                             deprecations)
            ctx.label("sections")

    @staticmethod
    def section(label, section, installed, upgrades, deprecations):
        name, version = label.split("_")
        deprecated, entries = installed[name, version]
        check(f"**{name} v{version}**" in section, f"{label}: no title")
        head = section.split(".. list-table", 1)[0]
        comment = entries["GLOBAL:SOFAConventions"]["comment"]
        check((comment or "") in head, f"{label}: no purpose in {head!r}")
        if deprecated:
            expected = None
            if name in upgrades:
                targets = [t for rule in upgrades[name]["from_to"]
                           if version in rule[0] for t in rule[1]]
                expected = [f"<{t}>" for t in targets]
            elif name in deprecations:
                expected = [deprecations[name]]
            for target in expected or []:
                check(target in head, f"{label}: {target} is not named as "
                      f"successor in {head!r}")
            if name in upgrades:
                named = re.findall(r":ref:`.*? <(.*?)>`", head)
                check(sorted(set(named)) == sorted({
                    t[1:-1] for t in expected}), f"{label} refers to {named} "
                    f"instead of {expected}")
            if expected:
                check("deprecated" in head, f"{label} is not deprecated in "
                      f"{head!r}")
        else:
            check("is deprecated" not in head and ":ref:" not in head,
                  f"{label} is deprecated in {head!r}")
        rows = cells(section.splitlines())
        check(len(rows) == 1 + len(entries), f"{label} has {len(rows)} rows "
              f"for {len(entries)} entries")
        for row, (key, entry) in zip(rows[1:], entries.items()):
            where = f"{label}, {key}: row {row}"
            check(len(row) == 5, where)
            shown = re.sub("[:.]", "_", key)
            check(re.fullmatch(re.escape(shown) + r" \(\**(\w+)\.?\**\)",
                               row[0]) and entry["type"] in row[0], where)
            check(row[1] == str(entry["default"]).strip(), where)
            check(row[2] == (entry["dimensions"] or ""), where)
            check(sorted(re.findall("[a-z]", row[3])) ==
                  sorted(entry["flags"] or ""), where)
            if key != "GLOBAL:SOFAConventions":
                text = entry["comment"]
                check(row[4] in (["", "None"] if text is None
                                 else [text.strip()]), where)
