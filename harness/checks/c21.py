"""C21: reports show the actual content and change nothing."""
import os
import re
import numpy as np
import gens
import mutate
import vals
from base import Check
from lib import (apply, apply_model, build_model, check, diff, frozen, pair,
                 public)
from model import mandatory, options, readonly

MODES = ["all", "mandatory", "optional", "read only", "data"]
NUMBER = re.compile(r"nan|-?inf|--|-?\d+\.?\d*(?:e[+-]?\d+)?", re.I)


def tokens(text):
    out = []
    for t in NUMBER.findall(text):
        out.append(None if t == "--" else float(t))
    return out


def close(found, array):
    """Numbers of a printed array (numpy prints eight digits)."""
    mask = np.ma.getmaskarray(array).flatten()
    data = np.ma.getdata(array).astype(float).flatten()
    if len(found) != data.size:
        return False
    eps, tiny = 1e-7, 0
    if np.ma.getdata(array).dtype.kind == "f":
        # (as many digits as required are printed)
        eps = max(eps, np.finfo(np.ma.getdata(array).dtype).eps)
        tiny = float(np.finfo(np.ma.getdata(array).dtype).smallest_subnormal)
    top = np.max(np.abs(data[np.isfinite(data)]), initial=0)
    for x, ref, m in zip(found, data, mask):
        if m:
            if x is not None:
                return False
        elif x is None:
            return False
        elif not (np.isnan(x) and np.isnan(ref)) and x != ref and \
                not (np.isfinite(ref) and
                     abs(x - ref) <= eps * abs(ref) + tiny + 1e-8 * max(1, top)):
            return False
    return True


class CHECK(Check):
    ID = "C21"
    RULE = (
        "A case is a generated object, valid or with up to two violations "
        "introduced before or after a first verification; inspect is called "
        "with and without a file and with all ways to handle issues, info "
        "with all arguments and for up to six entries, and list_dimensions "
        "as well as get_dimension for all dimensions. Non-trivial: the "
        "object has arrays, custom data or violations.")
    ASSUMPTIONS = ["the reference verification of harness/model.py",
                   "numbers are printed by numpy with its default precision"]
    ASCII = True
    QUICK = 325
    THOROUGH = 6000

    def gen(self, src, ctx):
        recipe = gens.valid(src, ctx.world, customs=3, small=src.chance(60),
                            writable=src.chance(60), reserved=ctx.reserved)
        early, late = [], []
        if src.chance(40):
            model = build_model(ctx, recipe)
            if src.chance(50):
                early = mutate.mutate(src, model, None, 2)
            if not early or src.chance(30):
                late = mutate.mutate(src, model, None, 2)
            if src.chance(10):
                late += mutate.forced(model, "GLOBAL_DataType", [
                    "set", "GLOBAL_DataType", {"k": "text", "v": src.choice(
                        ["Audio", "", "fir", "FIRE", "None", "SOS", "TF"])}])
        m = build_model(ctx, recipe)
        return {"recipe": recipe, "early": early, "late": late,
                "verify": src.chance(60),
                "handling": src.choice(["print", "return", "ignore",
                                        "raise"]),
                "default": src.chance(30), "exists": src.chance(30),
                "keys": src.sample(sorted(m.entries), 6),
                "bad": src.choice(["", "everything", "Data", "M", "Data.IR",
                                   "ALL", "no such entry"])}

    def run(self, ctx, case):
        sofa, model = pair(ctx, case["recipe"])
        for op in case["early"]:
            apply(sofa, op)
            apply_model(model, op)
        if case["verify"]:
            ctx.ok("verify", sofa.verify, "ignore")
            model.verify("ignore")
        for op in case["late"]:
            apply(sofa, op)
            apply_model(model, op)
        handling = case["handling"]
        if "GLOBAL_SOFAConventions" not in model.entries or \
                model.entries["GLOBAL_SOFAConventions"] != model.name or \
                model.entries["GLOBAL_SOFAConventionsVersion"] != \
                model.version:
            ctx.label("unknown convention")
            return False
        self.inspect(ctx, case, sofa, model, handling)
        self.dimensions(ctx, case, sofa, model)
        self.info(ctx, case, sofa, model)
        ctx.label("valid" if not case["early"] + case["late"] else "invalid")
        return bool(case["recipe"]["ops"] or case["early"] or case["late"])

    # -- inspect -----------------------------------------------------------------
    def inspect(self, ctx, case, sofa, model, handling):
        dup = sofa.copy()
        m = model.clone()
        issues = m.verify(handling)
        before = frozen(dup)
        path = os.path.join(ctx.folder(), "report.txt")
        if case.get("exists"):
            with open(path, "w") as f:
                f.write("an older report\n" * 1000)
        args = [path] if case["default"] else [path, handling]
        if case["default"]:
            m = model.clone()
            issues = m.verify("print")
            handling = "print"
        o = ctx.call(dup.inspect, *args)
        if handling == "raise" and issues.errors("raise", "write"):
            check(isinstance(o.exc, ValueError), f"inspect with errors gave "
                  f"{o.describe()}: {issues}")
            check(frozen(dup) == before, "inspect changed data")
            return
        check(o.exc is None, f"inspect({handling!r}) raised {o.describe()}, "
              f"{issues}")
        check((o.value is not None) == (handling == "return" and (
            issues.errors("return", "write") or
            issues.warns("return", "write"))),
              f"inspect({handling!r}) returned {o.value!r}: {issues}")
        added = issues.missing if handling != "raise" else []
        changed = diff(before, frozen(dup))
        check(set(changed) == set(added) and not set(added) & set(before),
              f"inspect changed {changed}, missing were {added}")
        with open(path, encoding="utf-8", newline="") as f:
            text = f.read()
        check(o.out.endswith(text), lambda: f"written {text!r}, printed "
              f"{o.out!r}")
        if handling in ("return", "ignore", "raise"):
            check(o.out == text, lambda: f"written {text!r}, printed "
                  f"{o.out!r}")
        again = ctx.ok("inspect without a file", dup.inspect,
                       issue_handling="ignore")
        check(again.out == text, lambda: f"the first report was {text!r}, "
              f"the second {again.out!r}")
        head = text.splitlines()[0]
        check(model.name in head and model.version in head,
              f"the headline is {head!r}")
        self.entries(text, dup, m, issues)

    @staticmethod
    def entries(text, sofa, m, issues):
        keys = public(sofa)
        starts = {}
        for key in keys:
            found = [x.start() for x in re.finditer(
                rf"^{re.escape(key)} : ", text, re.M)]
            check(found, f"inspect does not list {key}")
            starts[key] = found
        # (texts can contain anything)
        for key, found in starts.items():
            value = getattr(sofa, key)
            typ = m.typ(key)
            ends = [x for v in starts.values() for x in v]
            best = None
            for start in found:
                stop = min([x for x in ends if x > start],
                           default=len(text))
                block = text[start + len(key) + 3:stop]
                best = CHECK.entry(block, text[start + len(key) + 3:], key,
                                   value, typ, m, issues)
                if best is None:
                    break
            check(best is None, lambda: f"inspect lists {block!r} for {key} "
                  f"with the value {value!r}: {best}")

    @staticmethod
    def entry(block, rest, key, value, typ, m, issues):
        """None or what is wrong with the lines of an entry."""
        if typ == "attribute" or isinstance(value, str):
            if not rest.startswith(str(value) + "\n"):
                return "other text"
            return None
        if np.size(value) == 1:
            if isinstance(value, (np.ndarray, np.generic)) and \
                    value.dtype.kind in "if":
                found = tokens(block)
                if not close(found, np.ma.atleast_1d(value)):
                    return "other number"
                if isinstance(value, np.float64) and found != [value] and \
                        np.isfinite(value):
                    return "rounded number"
                return None
            if str(value) not in rest:
                return "other value"
            return None
        lines = block.split("\n")
        pairs = re.findall(r"([\w?])=(\d+)", lines[0])
        shape = [int(n) for _, n in pairs]
        true = [vals.strip(np.shape(value))]
        if typ == "double" and 1 in (np.ndim(value), m.ndims(key)):
            # (vectors are row vectors)
            row = vals.row_shape(np.shape(value), m.ndims(key))
            true = [row] if issues.sizes is not None else true + [row]
        if vals.strip(shape) not in true:
            return f"shape {shape} instead of {np.shape(value)}"
        if issues.sizes is not None and not issues.types:
            letters = "".join(p[0] for p in pairs)
            wanted = [x.upper() for x in options(m.entry(key))]
            if letters not in wanted:
                return f"dimensions {letters} are none of {wanted}"
            for letter, n in pairs:
                # (strings of any length are a single element in memory)
                if letter != "S" and issues.sizes.get(letter) != int(n):
                    return f"{letter} is {issues.sizes.get(letter)}"
        values = "\n".join(lines[1:])
        if np.size(value) > 6:
            if values.strip():
                return "too many values"
            return None
        if isinstance(value, np.ndarray) and value.dtype.kind in "if":
            # (parts of it)
            if not close(tokens(values), value):
                return "other numbers"
        elif value.dtype.kind in "U":
            where = 0
            for item in value.flatten().tolist():
                where = values.find(repr(item)[1:-1], where)
                if where < 0:
                    return f"{item!r} is missing"
                where += len(repr(item)) - 2
        return None

    # -- dimensions --------------------------------------------------------------
    @staticmethod
    def dimensions(ctx, case, sofa, model):
        dup = sofa.copy()
        m = model.clone()
        issues = m.verify("return")
        before = frozen(dup)
        o = ctx.call(getattr, dup, "list_dimensions")
        changed = diff(before, frozen(dup))
        check(set(changed) == set(issues.missing) and
              not set(changed) & set(before),
              f"list_dimensions changed {changed}")
        known = not issues.types and issues.sizes is not None and \
            not issues.fatal("return")
        if not known:
            check(isinstance(o.exc, ValueError), f"list_dimensions gave "
                  f"{o.describe()} {o.out} for {issues}")
            o = ctx.call(dup.get_dimension, "M")
            check(isinstance(o.exc, ValueError), f"get_dimension gave "
                  f"{o.describe()} {o.value} for {issues}")
            ctx.label("no dimensions")
            return
        sizes = issues.sizes
        datatype = m.entries.get("GLOBAL_DataType")
        check(o.exc is None, f"list_dimensions failed: {o.describe()}, "
              f"{issues}")
        found = {}
        for line in o.out.splitlines():
            x = re.match(r"\s*(\w+)\s*=\s*(\d+)\s*(.*)", line)
            if x:
                check(x[1] not in found, f"{x[1]} is listed twice: {o.out}")
                found[x[1]] = (int(x[2]), x[3])
        listed = {k: v[0] for k, v in found.items()}
        used = {letter for key in m.variables()
                for option in options(m.entry(key))
                for letter in option.upper()}
        for letter in set(listed) | used:
            if letter == "S":
                # without text, the size is one or zero
                ok = listed.get("S") in (sizes["S"], max(sizes["S"], 1))
                ok = ok or "S" not in used
            elif letter not in used:
                continue
            else:
                ok = letter not in sizes or \
                    listed.get(letter) == sizes[letter]
            check(ok, f"listed dimensions are {listed}, but should be "
                  f"{sizes}")
        for letter in listed:
            n = ctx.ok("get_dimension", dup.get_dimension, letter).value
            check(n == listed[letter] and isinstance(n, (int, np.integer)),
                  f"{letter} is {n!r}, but {listed[letter]} in the list")
        bad = ctx.call(dup.get_dimension, "Z")
        check("Z" in listed or isinstance(bad.exc, ValueError),
              f"size of unknown dimension: {bad.describe()} {bad.value}")
        check(set(diff(before, frozen(dup))) == set(issues.missing),
              "get_dimension changed data")
        if "N" in found and datatype.startswith(("FIR", "TF", "SOS")):
            word = {"FIR": "sample", "TF": "frequenc", "SOS": "SOS"}[
                re.match("FIR|TF|SOS", datatype)[0]]
            check(word in found["N"][1].split("(set by")[0],
                  f"{datatype}: N is shown as {found['N']}")
        for letter, key in (("R", "ReceiverPosition_Type"),
                            ("E", "EmitterPosition_Type")):
            if letter in found:
                harmonic = "harmonic" in m.entries[key].lower()
                check(harmonic == ("harmonic" in found[letter][1].split(
                    "(set by")[0]), f"{key} is {m.entries[key]}, but "
                    f"{letter} is shown as {found[letter]}")
        for letter, (n, comment) in found.items():
            x = re.search(r"\(set by (\w+) of dimension ([^)]*)\)", comment)
            if x:
                check(x[1] in m.entries, f"{letter} is set by {x[1]}, which "
                      "is not contained")
                entry = m.entry(x[1])
                # (lower case letters denote data that set the dimension)
                check(letter.lower() in "".join(options(entry)),
                      f"{letter} is not set by {x[1]}: {entry['dimensions']}")
                ctx.label("set by")
        ctx.label("dimensions")

    # -- info --------------------------------------------------------------------
    @staticmethod
    def info(ctx, case, sofa, model):
        m = model.clone()
        dup = sofa.copy()
        if set(public(dup)) != set(m.entries) or \
                "GLOBAL_Version" not in m.entries:
            # (part of the headline)
            return
        if any(m.entry(k) is None for k in m.entries):
            return
        before = frozen(dup)
        for mode in MODES:
            o = ctx.ok(f"info({mode!r})", dup.info, mode) if mode != "all" \
                else ctx.ok("info", dup.info)
            expected = []
            for key in m.entries:
                e = m.entry(key)
                if mode == "all" or \
                        (mode == "mandatory" and mandatory(e)) or \
                        (mode == "optional" and not mandatory(e)) or \
                        (mode == "read only" and readonly(e)) or \
                        (mode == "data" and e["type"] != "attribute"):
                    expected.append(key)
            lines = {}
            for x in re.finditer(r"^(\w+) : (\w+)(.*)$", o.out, re.M):
                if x[1] in m.entries:
                    check(x[1] not in lines, f"{x[1]} is shown twice")
                    lines[x[1]] = (x[2], x[3], x.end())
            check(set(lines) == set(expected), lambda: f"info({mode!r}) "
                  f"shows {sorted(lines)}, not {sorted(expected)}")
            for key, (typ, rest, end) in lines.items():
                e = m.entry(key)
                check(typ == e["type"], f"type of {key}: {typ}")
                check(("mandatory" in rest) == mandatory(e) and
                      ("optional" in rest) != mandatory(e) and
                      ("read only" in rest) == readonly(e),
                      f"flags of {key} are {e['flags']}: {rest}")
                if e["dimensions"]:
                    check("(" + e["dimensions"].upper() + ")" in rest,
                          f"dimensions of {key}: {rest}")
                if e.get("comment"):
                    check(o.out[end:].lstrip().startswith(
                        str(e["comment"]).strip()),
                        f"comment of {key} is {e['comment']!r}")
        for key in case["keys"]:
            if key not in m.entries:
                continue
            o = ctx.ok(f"info({key!r})", dup.info, key)
            e = m.entry(key)
            x = re.search(rf"^{re.escape(key)}\n((?: .*\n?)*)", o.out, re.M)
            check(x, f"info({key!r}) does not show it: {o.out!r}")
            fields = dict(re.findall(r"^ +([\w ]+?): (.*)$", x[1], re.M))
            check(fields.get("type") == e["type"] and
                  fields.get("mandatory") == str(mandatory(e)) and
                  fields.get("read only") == str(readonly(e)),
                  f"info({key!r}) shows {fields}, but it is {e}")
            if e["dimensions"]:
                check(fields.get("shape") == e["dimensions"].upper(),
                      f"info({key!r}) shows {fields}, but it is {e}")
        if case["bad"] not in m.entries:
            o = ctx.call(dup.info, case["bad"])
            check(isinstance(o.exc, ValueError), f"info({case['bad']!r}) "
                  f"gave {o.describe()}")
        check(frozen(dup) == before, lambda: "info changed "
              f"{diff(before, frozen(dup))}")
