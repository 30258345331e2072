"""C18: convention tables are translated without loss."""
import json
import os
import shutil
import numpy as np
import vals
from base import Check
from lib import check, public

HEADER = ["Name", "Default", "Flags", "Dimensions", "Type", "Comment"]
COMMENTS = [None, "", "A comment", "Comment with (brackets), dots. 50 %",
            "Größe in µm – or “so”", "see [1], page 5", "'quoted' \"text\"",
            "a; b", "m", "default: 1", "5", "1.0", "-1", "[1 2 3]", "[m/s]",
            "{''}", "x" * 300, "3D", "{}", "nan"]
TEXTS = ["FIR", "metre", "degree, degree, metre", "cartesian", "free field",
         "Some text", "http://www.sofaconventions.org/x", "a [b]", "name;x",
         "2020-01-01 00:00:00", "Ä", "1 2", "v1.0", "(none)"]
PERMUTE = {
    "permute([0 0 0 1 0 0; 0 0 0 1 0 0], [3 1 2]);":
        [[[0, 0, 0, 1, 0, 0], [0, 0, 0, 1, 0, 0]]],
    "permute([0 0 0 1 0 0], [3 1 2]);": [[[0, 0, 0, 1, 0, 0]]]}
ENCODING = "windows-1252"


def number_text(src):
    x = src.int(-20, 48000)
    if src.chance(50):
        return str(x), x
    f = src.choice([0.0, 0.5, 1.0, -1.25, 48000.0, 3.14159, 0.001])
    return repr(f) if "e" not in repr(f) else "0.001", f


def gen_default(src, name, typ):
    """Text of a default value and its meaning."""
    if "Version" in name:
        return src.choice([["1.0", "1.0"], ["1", "1.0"], ["2.1", "2.1"],
                           ["0.3", "0.3"], ["2", "2.0"], ["", ""],
                           ["10.0", "10.0"], ["beta", "beta"]])
    if typ == "attribute":
        text = src.choice(["", "", " "] + TEXTS)
        return [text, text.strip()]
    if typ == "string":
        return src.choice([["{''}", [""]], ["", ""], ["text", "text"]])
    kind = src.int(0, 6)
    if kind == 0:
        return list(number_text(src))
    if kind == 1:
        return ["", ""]
    if kind == 2:
        text = src.choice(sorted(PERMUTE))
        return [text, PERMUTE[text]]
    sep = src.choice([" ", ","])
    rows = 1 if kind < 5 else src.int(2, 4)
    columns = src.int(1, 6)
    text, value = [], []
    for _ in range(rows):
        numbers = [number_text(src) for _ in range(columns)]
        text.append(sep.join(n[0] for n in numbers))
        value.append([n[1] for n in numbers])
    joined = src.choice([";", "; ", " ;"]).join(text)
    if src.chance(20):
        joined = " " + joined + " "
    return ["[" + joined + "]", value[0] if rows == 1 else value]


def literal(src, value):
    """Text of the default value of a definition, or None."""
    if isinstance(value, str):
        return value
    if isinstance(value, (int, float)):
        return str(value)
    if value == [""]:
        return "{''}"
    for text, v in PERMUTE.items():
        if v == value:
            return text
    try:
        if isinstance(value[0], list):
            if isinstance(value[0][0], list):
                return None
            rows = value
        else:
            rows = [value]
        if any(isinstance(x, str) for r in rows for x in r):
            return None
        sep = src.choice([" ", ","])
        if len(rows) == 1 and isinstance(value[0], list):
            return None
        return "[" + src.choice([";", "; "]).join(
            sep.join(str(x) for x in r) for r in rows) + "]"
    except (TypeError, IndexError):
        return None


class CHECK(Check):
    ID = "C18"
    RULE = (
        "A case is a table with up to 30 rows: entries with every kind of "
        "default value (empty, text, numbers, vectors, matrices, string "
        "lists, the permuted arrays of AES69, versions), flags, dimensions, "
        "types and comments, formatted with random spaces, trailing tabs, "
        "missing comments and line endings; or the table of a convention of "
        "the world; or a malformed table. Non-trivial: more than one row.")
    ASSUMPTIONS = [
        "numbers are separated by single spaces or commas, rows by "
        "semicolons (as in the tables of sofaconventions.org)",
        "numbers are written with digits, sign and '.'",
        "default texts do not look like numbers, unless they are versions"]
    ASCII = True
    QUICK = 875
    THOROUGH = 15000
    GENERATED = 8

    def gen(self, src, ctx):
        kind = src.weighted((5, "table"), (3, "world"), (2, "malformed"))
        rows = []
        name = None
        if kind == "world":
            name, version, _, entries = src.choice(ctx.world.conventions)
            for key, e in entries.items():
                text = literal(src, e["default"])
                if text is None:
                    continue
                rows.append([key, [text, e["default"]], e["flags"] or "",
                             e["dimensions"] or "", e["type"],
                             e["comment"] or None])
        else:
            names = set()
            for _ in range(src.int(1, 30)):
                typ = src.choice(["attribute", "attribute", "double",
                                  "string"])
                base = src.choice(["SourcePosition", "Data.IR", "Data.Delay",
                                   "Data.Sampling_Rate", "Foo", "DataX",
                                   "M", "N", "ListenerView", "Date", "x"])
                if typ == "attribute":
                    base = src.choice(["GLOBAL", "GLOBAL", base])
                    key = base + ":" + src.choice(
                        ["Units", "Type", "Title", "Version", "APIVersion",
                         "SOFAConventionsVersion", "Note", "DataType"])
                else:
                    key = base
                if key in names:
                    continue
                names.add(key)
                rows.append([key, gen_default(src, key, typ),
                             src.choice(["m", "rm", "r", "", "mr"]),
                             src.choice(["IC, MC", "mRn", "I", "", "MS",
                                         "eR"]),
                             typ, src.choice(COMMENTS)])
        case = {"kind": kind, "rows": rows, "name": name,
                "pad": src.choice(["", "", " ", "  "]),
                "tabs": src.choice([0, 0, 1, 2]),
                "end": src.choice(["\n", "\n", "\r\n"]),
                "last": src.chance(70),
                "header": src.choice(["", "", " ", "lower"])}
        if kind == "malformed":
            case["where"] = src.int(0, 99)
            case["how"] = src.choice(["short", "blank", "array", "matrix",
                                      "name"])
        return case

    @staticmethod
    def text(case):
        pad = case["pad"]
        header = [h.lower() if case["header"] == "lower" else
                  h + case["header"] for h in HEADER]
        lines = ["\t".join(header)]
        for key, default, flags, dims, typ, comment in case["rows"]:
            cells = [key, default[0], flags, dims, typ]
            if comment is not None:
                cells.append(comment)
            cells = [c + pad if c or i else c for i, c in enumerate(cells)]
            lines.append("\t".join(cells) + "\t" * case["tabs"])
        if case["kind"] == "malformed":
            i = 1 + case["where"] % len(case["rows"])
            how = case["how"]
            cells = lines[i].split("\t")
            if how == "short":
                lines[i] = "\t".join(cells[:2 + case["where"] % 2])
            elif how == "blank":
                lines[i] = ""
            elif how == "array":
                lines[i] = "\t".join([cells[0], "[1 x 3]"] + cells[2:])
            elif how == "matrix":
                lines[i] = "\t".join([cells[0], "[1 2; 3 b]"] + cells[2:])
            else:
                lines[i] = cells[0]
        out = case["end"].join(lines)
        # (a blank last line ends the file)
        if case["last"] or (case["kind"] == "malformed" and lines[-1] == ""):
            out += case["end"]
        return out

    @staticmethod
    def expected(case):
        ref = {}
        for key, default, flags, dims, typ, comment in case["rows"]:
            def empty(x):
                x = (x or "").strip()
                return x or None
            ref[key] = {"default": default[1], "flags": empty(flags),
                        "dimensions": empty(dims), "type": typ,
                        "comment": empty(comment)}
        keys = [k for k in ref if k.startswith("GLOBAL")]
        keys += [k for k in ref if k not in keys
                 and not k.startswith("Data")]
        keys += [k for k in ref if k not in keys]
        return ref, keys

    def run(self, ctx, case):
        from importlib import import_module
        uc = import_module("sofar.update_conventions")
        folder = ctx.folder()
        sub = folder
        if case["tabs"] == 1:
            os.mkdir(os.path.join(folder, "deprecated"))
            sub = os.path.join(folder, "deprecated")
        path = os.path.join(sub, "Compiled_1.0.csv")
        text = self.text(case)
        with open(path, "wb") as f:
            f.write(text.encode(ENCODING))
        if case["kind"] == "malformed":
            o = ctx.call(uc._compile_conventions, folder)
            check(isinstance(o.exc, ValueError),
                  f"a malformed table gave {o.describe()}: {text!r}")
            check("Compiled_1.0.csv" in str(o.exc),
                  f"the file is not named: {o.exc}")
            ctx.label("malformed")
            return True
        ctx.ok("translating a table", uc._compile_conventions, folder)
        with open(path, "rb") as f:
            check(f.read() == text.encode(ENCODING), "the table was changed")
        with open(path[:-3] + "json") as f:
            found = json.load(f)
        ref, keys = self.expected(case)
        direct = getattr(uc, "_convention_csv2dict", None)
        if direct:
            check(ctx.ok("translating a table", direct, path).value == found,
                  "the definition and its file differ")
        check(set(found) == set(ref), f"entries differ: "
              f"{sorted(set(found) ^ set(ref))}")
        for key, entry in ref.items():
            e = dict(found[key])
            check(set(e) == set(entry), f"fields of {key}: {sorted(e)}")
            comment = e.pop("comment") or None
            check(comment == entry["comment"] and not isinstance(
                comment, (int, float)), f"comment of {key} is {comment!r} "
                f"instead of {entry['comment']!r}")
            for field in ("flags", "dimensions", "type", "default"):
                a, b = e[field], entry[field]
                check(a == b and (isinstance(a, str) == isinstance(b, str)),
                      f"{field} of {key} is {a!r} instead of {b!r}")
        check(list(found) == keys, f"order is {list(found)} instead of "
              f"{keys}")
        ctx.label(case["kind"])
        if case["kind"] == "world":
            self.usable(ctx, case, path, ref)
        return len(case["rows"]) > 1

    @staticmethod
    def usable(ctx, case, path, ref):
        """Objects can be created."""
        target = os.path.join(ctx.package, "sofa_conventions", "conventions",
                              "Compiled_1.0.json")
        shutil.copy(path[:-3] + "json", target)
        try:
            if "GLOBAL:SOFAConventionsVersion" not in ref:
                return
            o = ctx.ok("creating an object", ctx.sf.Sofa, "Compiled",
                       verify=False)
            names = {k.replace(":", "_").replace(".", "_"): v
                     for k, v in ref.items()}
            check(set(names) <= set(public(o.value)), "entries are missing: "
                  f"{set(names) - set(public(o.value))}")
            for key, entry in names.items():
                if entry["type"] == "attribute":
                    continue
                n = len(entry["dimensions"].split(", ")[0])
                default = entry["default"]
                if isinstance(default, list):
                    default = np.array(default)
                    if n > 1 and default.ndim == 1:
                        default = default[None]
                check(vals.canon(getattr(o.value, key), entry["type"], n) ==
                      vals.canon(default, entry["type"], n),
                      f"{key} is {getattr(o.value, key)!r} instead of "
                      f"{entry['default']!r}")
        finally:
            os.remove(target)
