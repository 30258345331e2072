"""C15: comparing objects is an equivalence that sees every difference."""
import copy
import os
import numpy as np
import gens
import vals
from base import Check
from lib import (HarnessError, build_model, check, diff, frozen, pair,
                 public)

NUM = ["tiny", "small", "big", "one", "nan", "inf", "sign", "mask", "resize",
       "transpose", "reverse", "dtype", "ones", "integer", "copy", "order"]


def change(value, kind, where):
    """Another value; may mean the same."""
    if kind == "mask":
        a = np.ma.masked_array(np.array(value, dtype=float, ndmin=1))
        a = a.copy()
        flat = a.reshape(-1)
        flat[where % flat.size] = np.ma.masked
        return a
    a = copy.deepcopy(value)
    if not isinstance(a, np.ndarray):
        a = np.array(a)
    if kind == "resize":
        return np.concatenate([a.reshape(-1), a.reshape(-1)])
    if kind == "transpose":
        return a.T.copy()
    if kind == "order":
        return np.asfortranarray(a) if not np.ma.isMaskedArray(a) else a
    if kind == "reverse":
        return a.reshape(-1)[::-1].reshape(a.shape).copy()
    if kind == "dtype":
        return a.astype(">f8")
    if kind == "ones":
        return a.reshape((1,) + a.shape + (1,))
    if kind == "integer":
        b = np.ma.filled(a, 0).astype(float)
        if np.all(np.isfinite(b)) and np.all(b == np.round(b)) and \
                not np.ma.is_masked(a) and np.all(np.abs(b) < 2**31):
            return a.astype("i8")
        return a
    if kind == "copy":
        return a
    a = a.astype(float)
    if a.ndim == 0:
        a = a.reshape(1)
    flat = a.reshape(-1)
    i = where % flat.size
    if np.ma.is_masked(flat[i]):
        return a
    x = float(flat[i])
    new = {"tiny": x * (1 + 1e-13), "small": x * (1 + 1e-4) if x else 1e-4,
           "big": x * 2 + 1, "one": 1., "nan": np.nan, "inf": np.inf,
           "sign": -x}[kind]
    if kind == "small" and abs(x) < 1e-290:
        new = 1e-4
    flat[i] = new
    return flat.reshape(a.shape)


def same(a, b, typ):
    """Reference comparison of two values."""
    if typ == "attribute":
        return a == b
    if typ == "string":
        def norm(v):
            v = np.asarray(v)
            return np.char.decode(v, "utf-8") if v.dtype.kind == "S" else v
        a, b = norm(a).squeeze(), norm(b).squeeze()
        return a.shape == b.shape and a.reshape(-1).tolist() == \
            b.reshape(-1).tolist()
    ma, mb = (np.ma.getmaskarray(np.ma.asarray(v)).squeeze() for v in (a, b))
    if ma.shape != mb.shape or not np.array_equal(ma, mb):
        return False
    a, b = (np.ma.getdata(np.ma.asarray(v)).astype(float).squeeze()
            for v in (a, b))
    ok = np.isclose(a, b, 1e-8, 0, equal_nan=True)
    return bool(np.all(ok | ma))


class CHECK(Check):
    ID = "C15"
    RULE = (
        "A case is a generated valid object and a second one that was built "
        "in the same way, copied, or written and read, and then changed in "
        "up to three entries: other attributes, strings, numbers (within and "
        "beyond rounding), NaN, infinity, masks, shapes, types, data types, "
        "deleted and added entries; compared in both directions with every "
        "exclude option. Non-trivial: something was changed.")
    ASSUMPTIONS = [
        "the data have valid types (others raise errors of numpy)",
        "relative differences below 1e-12 are rounding, above 1e-5 are not",
        "dates are the entries with 'Date' in their name (documented)"]
    QUICK = 450
    THOROUGH = 7000

    def gen(self, src, ctx):
        recipe = gens.valid(src, ctx.world, customs=2, small=True,
                            reserved=ctx.reserved)
        model = build_model(ctx, recipe)
        ops = []
        for _ in range(src.weighted((2, 0), (5, 1), (2, 2), (1, 3))):
            kind = src.weighted((3, "attribute"), (5, "number"),
                                (2, "string"), (1, "del"), (1, "add"),
                                (1, "retype"), (1, "swap"))
            if kind in ("attribute", "string", "number"):
                typ = "double" if kind == "number" else kind
                keys = [k for k in model.entries if model.typ(k) == typ]
                if typ == "attribute" and src.chance(40):
                    keys = [k for k in keys if "Date" in k]
                if not keys:
                    continue
                key = src.choice(keys)
                if kind == "attribute":
                    old = str(model.entries[key])
                    ops.append(["attribute", key, src.choice([
                        old + " ", old.swapcase(), old[:-1], src.text(),
                        " " + old, old])])
                elif kind == "number":
                    ops.append(["number", key, src.choice(NUM),
                                src.int(0, 99)])
                else:
                    ops.append(["string", key, src.choice(
                        ["append", "case", "space", "bytes", "wide", "more",
                         "transpose", "empty", "newaxis"]), src.int(0, 99)])
            elif kind == "del":
                ops.append(["del", src.choice(sorted(model.entries))])
            elif kind == "swap":
                # one entry less and another one more
                ops.append(["del", src.choice(sorted(
                    k for k in model.entries if k not in (
                        "GLOBAL_SOFAConventions",
                        "GLOBAL_SOFAConventionsVersion")))])
                ops.append(["adda", "GLOBAL_Swapped", "text"])
            elif kind == "add":
                ops.append(src.choice([
                    ["adda", src.choice(["GLOBAL_Fooo", "GLOBAL_UpDate",
                                         "SourcePosition_Date"]), "text"],
                    ["adda", src.choice([
                        "GLOBAL_Updated", "GLOBAL_DATE", "GLOBAL_candidate",
                        "SourcePosition_Validated", "GLOBAL_GLOBALS"]),
                     "text"],
                    ["addv", "FoooDate", "double", "I"],
                    ["addv", "Fooo", "double", "I"]]))
            else:
                ops.append(["retype", src.choice(["Fooo", "Zwei"]),
                            src.choice(["double", "string"]),
                            src.choice(["double", "string"])])
        return {"recipe": recipe, "ops": ops,
                "second": src.choice(["build", "copy", "copy", "disk"]),
                "exclude": src.choice([None, None, "GLOBAL", "ATTR", "DATE",
                                       "global", "attr", "Date", "dAtE",
                                       "foo", "", "GLOBALS"])}

    def run(self, ctx, case):
        sf = ctx.sf
        a, model = pair(ctx, case["recipe"])
        types_a = {k: model.typ(k) for k in model.entries}
        types_b = dict(types_a)
        if case["second"] == "build":
            b, _ = pair(ctx, case["recipe"])
        elif case["second"] == "copy":
            b = a.copy()
        else:
            path = os.path.join(ctx.folder(), "a.sofa")
            ctx.ok("writing", sf.write_sofa, path, a)
            b = ctx.ok("reading", sf.read_sofa, path, "auto", False).value
            b.GLOBAL_DateModified = a.GLOBAL_DateModified
        o = ctx.ok("equals", sf.equals, a, b, True, "DATE")
        check(o.value and not o.messages, f"the object and its "
              f"{case['second']} differ: {o.messages}")
        changed = set()
        for op in case["ops"]:
            changed |= self.apply(a, b, types_a, types_b, op)
        for obj, types in ((a, types_a), (b, types_b)):
            if set(public(obj)) != set(types):
                raise HarnessError("types do not match")
        before = frozen(a), frozen(b)
        exclude = case["exclude"]
        kind = exclude.upper() if exclude is not None else None
        if kind not in (None, "GLOBAL", "ATTR", "DATE"):
            ctx.raises(ValueError, f"equals(exclude={exclude!r})", sf.equals,
                       a, b, True, exclude)
            exclude = None
        self.compare(ctx, a, b, types_a, types_b, exclude)
        for other in (None, "GLOBAL", "ATTR", "DATE"):
            if other != exclude:
                self.compare(ctx, a, b, types_a, types_b, other)
        for obj in (a, b):
            check(ctx.ok("equals", sf.equals, obj, obj, True, exclude).value,
                  "an object differs from itself")
        check((frozen(a), frozen(b)) == before, lambda: "equals changed "
              f"{diff(before[0], frozen(a)) + diff(before[1], frozen(b))}")
        return bool(changed)

    def compare(self, ctx, a, b, types_a, types_b, exclude):
        sf = ctx.sf
        kind = exclude.upper() if exclude is not None else None
        keys_a, keys_b = (self.keys(t, kind) for t in (types_a, types_b))
        wrong = None
        if keys_a != keys_b:
            expected = False
        else:
            wrong = sorted(
                k for k in keys_a if types_a[k] != types_b[k] or
                not same(getattr(a, k), getattr(b, k), types_a[k]))
            expected = not wrong
        for x, y, order in ((a, b, "a, b"), (b, a, "b, a")):
            # (True is the documented default)
            for verbose in (True, False, None):
                args = {} if verbose is None else {"verbose": verbose}
                if exclude is not None:
                    args["exclude"] = exclude
                o = ctx.ok(f"equals({order})", sf.equals, x, y, **args)
                check(isinstance(o.value, (bool, np.bool_)) and
                      bool(o.value) == expected,
                      f"equals({order}, exclude={exclude!r}) is {o.value}, "
                      f"but presence {sorted(keys_a ^ keys_b)} and values "
                      f"{wrong} differ; warnings {o.messages}")
                check(o.out == "", f"equals printed {o.out}")
                if verbose is False or expected:
                    check(not o.messages, f"warnings {o.messages}")
                elif wrong is None:
                    check(len(o.messages) >= 1, "no warning")
                else:
                    check(len(o.messages) == len(wrong), f"{o.messages} for "
                          f"differences in {wrong}")
                    for k in wrong:
                        check(any(k in m for m in o.messages),
                              f"{k} is not named in {o.messages}")
        ctx.label(("equal" if expected else "different")
                  + (f" without {kind}" if kind else ""))

    @staticmethod
    def keys(types, kind):
        out = set()
        for k, t in types.items():
            if kind == "GLOBAL" and k.startswith("GLOBAL_"):
                continue
            if kind == "ATTR" and t == "attribute":
                continue
            if kind == "DATE" and "Date" in k:
                continue
            out.add(k)
        return out

    @staticmethod
    def apply(a, b, types_a, types_b, op):
        kind, key = op[:2]
        b.protected = False
        try:
            if kind == "retype":
                if key in types_a or key in types_b:
                    return set()
                for obj, types, t in ((a, types_a, op[2]),
                                      (b, types_b, op[3])):
                    # (additions switch the protection on)
                    if t == "double":
                        obj.add_variable(key, 1.0, "double", "I")
                    else:
                        obj.add_variable(key, "1.0", "string", "IS")
                    types[key] = t
                return {key}
            if kind == "adda":
                if key in types_b or (
                        not key.startswith("GLOBAL_") and
                        key.rsplit("_", 1)[0] not in types_b):
                    return set()
                b.add_attribute(key, op[2])
                types_b[key] = "attribute"
                return {key}
            if kind == "addv":
                if key in types_b:
                    return set()
                b.add_variable(key, 1.0, op[2], op[3])
                types_b[key] = op[2]
                return {key}
            if key not in types_b:
                return set()
            if kind == "del":
                delattr(b, key)
                del types_b[key]
                return {key}
            old = getattr(b, key)
            if kind == "attribute":
                setattr(b, key, op[2])
            elif kind == "number":
                setattr(b, key, change(old, op[2], op[3]))
            elif kind == "string":
                v = np.array(old)
                if v.dtype.kind == "S":
                    v = np.char.decode(v, "utf-8")
                how = op[2]
                if how == "bytes":
                    if not all(str(s).isascii()
                               for s in v.reshape(-1).tolist()):
                        return set()
                    v = np.char.encode(v, "ascii")
                elif how == "wide":
                    v = v.astype(f"U{v.dtype.itemsize // 4 + 5}")
                elif how == "more":
                    v = np.concatenate([v.reshape(-1)] * 2)
                elif how == "transpose":
                    v = v.T.copy()
                elif how == "newaxis":
                    v = v.reshape((1,) + v.shape + (1,))
                else:
                    flat = v.reshape(-1).tolist()
                    i = op[3] % len(flat)
                    flat[i] = {"append": flat[i] + "x",
                               "case": flat[i].swapcase(),
                               "space": flat[i] + " ",
                               "empty": ""}[how]
                    v = np.array(flat, dtype="U").reshape(v.shape)
                setattr(b, key, v)
            else:
                raise HarnessError(kind)
            return {key}
        finally:
            b.protected = True
