"""C22: assigned data are stored as documented and never altered."""
import os
import numpy as np
import gens
import vals
from base import Check
from lib import build_model, check, compare, diff, frozen, pair

# ways to give the same numbers, for arrays with all dimensions
FORMS = ["array", "array", "list", "tuple", "mixed", "arrays", "trim",
         "trimlist", "ints", "fortran", "strided", "readonly", "npscalars",
         "i8", "f4", "0d", "scalar", "npscalar", "one", "flat", "more"]


def nested(array, tuples, ints=False):
    return vals._nested(array, tuples, ints)


def represent(array, form, definer, ndims):
    """The same data in another form, None if there is no such form."""
    if form == "array":
        return array.copy()
    if form in ("list", "tuple"):
        if array.ndim < 2:
            return None
        return nested(array, form == "tuple")
    if form == "mixed":
        if array.ndim < 2:
            return None
        return [tuple(nested(a, True)) for a in array]
    if form == "arrays":
        # list of arrays
        if array.ndim < 2:
            return None
        return [a.copy() for a in array]
    if form in ("trim", "trimlist"):
        shape = array.shape
        while len(shape) > 2 and shape[-1] == 1:
            shape = shape[:-1]
        if shape == array.shape:
            return None
        array = array.reshape(shape)
        return array if form == "trim" else nested(array, False)
    if form == "more":
        return array[..., None].copy() if array.ndim >= 2 else None
    if form == "fortran":
        return np.asfortranarray(array)
    if form == "strided":
        big = np.zeros(tuple(2 * s for s in array.shape), array.dtype)
        view = big[tuple(slice(None, None, 2) for _ in array.shape)]
        view[...] = array
        return view
    if form == "readonly":
        array = array.copy()
        array.setflags(write=False)
        return array
    if array.dtype.kind == "f":
        whole = np.all(np.isfinite(array)) and np.all(
            array == np.trunc(array)) and np.all(np.abs(array) < 2**53)
        if form == "ints":
            if array.ndim < 2 or not whole or np.any(
                    (array == 0) & np.signbit(array)):
                return None
            return nested(array, False, True)
        if form == "i8":
            if not whole or np.any((array == 0) & np.signbit(array)):
                return None
            return array.astype("i8")
        if form == "f4":
            with np.errstate(all="ignore"):
                small = array.astype("f4")
                same = small.astype("f8").tobytes() == array.tobytes()
            return small if same else None
        if form == "npscalars":
            if array.ndim < 2:
                return None
            return [[x for x in row] for row in array] \
                if array.ndim == 2 else None
        if form == "0d":
            return np.array(array.flatten()[0]) if array.size == 1 \
                and ndims == 1 else None
        if form == "npscalar":
            return array.flatten()[0] if array.size == 1 else None
        if form == "scalar":
            return array.flatten()[0].item() if array.size == 1 else None
    if form == "scalar" and array.size == 1:
        return array.flatten()[0].item()
    if form == "one":
        return [array.flatten()[0].item()] if array.size == 1 else None
    if form == "flat":
        # a row (numbers) or the entries (text)
        if array.ndim == 1 or (array.ndim >= 2 and array.shape[0] == 1 and
                               array.size == array.shape[1]):
            return array.flatten().tolist()
    return None


class CHECK(Check):
    ID = "C22"
    RULE = (
        "A case is the data of a generated valid object, given in two "
        "different random forms per entry (arrays of several data types and "
        "memory layouts, nested lists, tuples, lists of arrays or numpy "
        "scalars, integers, single values, omitted or additional trailing "
        "dimensions). Non-trivial: at least one entry was given in two "
        "different forms.")
    ASSUMPTIONS = ["one dimensional arrays are covered by C01 and C10 only"]
    QUICK = 425
    THOROUGH = 7000

    def gen(self, src, ctx):
        recipe = gens.valid(src, ctx.world, customs=2, small=src.chance(70),
                            reserved=ctx.reserved, mask=False)
        model = build_model(ctx, recipe)
        keys = [k for k in model.variables() if model.can_set(k) and
                not isinstance(model.entries[k], np.ma.MaskedArray)]
        forms = {}
        for key in src.sample(keys, 8):
            forms[key] = [[src.choice(FORMS), src.choice(FORMS)],
                          [src.choice(FORMS), src.choice(FORMS)]]
        loose = [[src.choice(keys), self.loose(src)]
                 for _ in range(src.int(0, 3))] if keys else []
        return {"recipe": recipe, "forms": forms, "loose": loose,
                "order": src.chance(50), "write": src.chance(50)}

    @staticmethod
    def loose(src):
        """Plain data, whether they suit the entry or not."""
        text = src.chance(60)

        def items(n):
            if text:
                return [src.text() for _ in range(n)]
            return [src.choice([src.int(-9, 9), src.int(-9, 9) / 4])
                    for _ in range(n)]
        n = src.int(1, 14)
        if src.chance(60):
            return items(n)
        return [items(n) for _ in range(src.int(1, 12))]

    def data(self, model, key):
        """The data of an entry with all dimensions."""
        value = model.entries[key]
        n = model.ndims(key)
        if model.typ(key) == "double":
            value = np.asarray(value, dtype="f8")
            shape = vals.row_shape(value.shape, n)
            return value.reshape(shape + (1,) * (n - len(shape)))
        value = np.asarray(value)
        if value.dtype.kind == "S":
            value = np.char.decode(value, "utf-8")
        shape = vals.strip(value.shape)
        return value.reshape(shape + (1,) * (n - len(shape)))

    def run(self, ctx, case):
        first, model = pair(ctx, case["recipe"])
        second = ctx.ok("copy", first.copy).value
        different = 0
        for key in (sorted(case["forms"]) if case["order"] else
                    case["forms"]):
            array = self.data(model, key)
            definer = False
            used = []
            for sofa, forms in zip((first, second), case["forms"][key]):
                for form in forms:
                    value = represent(array, form, definer,
                                      model.ndims(key))
                    if value is not None:
                        break
                else:
                    form, value = "array", array.copy()
                used.append(form)
                self.assign(ctx, sofa, model, key, value, form)
                ctx.label(form)
            different += used[0] != used[1]
        compare(first, model, "first object")
        compare(second, model, "second object")
        # both forms are equivalent
        results = [ctx.call(s.verify, "return", "read")
                   for s in (first, second)]
        check([(type(o.exc), o.value) for o in results][0] ==
              [(type(o.exc), o.value) for o in results][1],
              lambda: f"verification differs: {results[0].describe()} "
              f"{results[0].value} and {results[1].describe()} "
              f"{results[1].value}")
        issues = model.clone().verify("raise")
        check(results[0].exc is None, results[0].describe())
        check(bool(results[0].value) == (issues.errors("raise", "read") or
                                         issues.warns("raise", "read")),
              f"verification gave {results[0].value}: {issues}")
        o = ctx.ok("equals", ctx.sf.equals, first, second, False)
        check(o.value is True or o.value == np.True_,
              "objects with the same data are different")
        sizes = [{d: s.get_dimension(d) for d in "MRENS"
                  if d in issues.sizes} for s in (first, second)]
        check(sizes[0] == sizes[1], f"sizes are {sizes}")
        if case["write"] and not issues.errors("raise", "write"):
            back = []
            for name, sofa in (("a.sofa", first), ("b.sofa", second)):
                path = os.path.join(ctx.folder(), name)
                ctx.ok("writing", ctx.sf.write_sofa, path, sofa)
                back.append(ctx.ok("reading", ctx.sf.read_sofa, path, True,
                                   False).value)
            a, b = [frozen(s) for s in back]
            for f in (a, b):
                f.pop("GLOBAL_DateModified", None)
            check(a == b, lambda: f"files differ in {diff(a, b)}")
            ctx.label("written")
        for key, value in case["loose"]:
            self.assign(ctx, first, model, key, value, "list")
            self.assign(ctx, second, model, key, tuple(value), "tuple")
        return different > 0

    @staticmethod
    def assign(ctx, sofa, model, key, value, form):
        original = vals.freeze(value)
        others = {k: v for k, v in frozen(sofa).items() if k != key}
        expected = vals.freeze(vals.stored(value))
        o = ctx.ok(f"assigning {key} as {form}", setattr, sofa, key, value)
        check(not o.out and not o.messages, f"assigning {key} gave output "
              f"{o.out} {o.messages}")
        check(vals.freeze(value) == original, f"assigning {key} as {form} "
              "changed the given data")
        found = getattr(sofa, key)
        check(vals.freeze(found) == expected, lambda: f"{key} assigned as "
              f"{form} is stored as {found!r} instead of "
              f"{vals.stored(value)!r}")
        if not isinstance(value, (str, np.ndarray)):
            check(np.ndim(found) in (0,) or np.ndim(found) >= 2,
                  f"{key} assigned as {form} has {np.ndim(found)} dimensions")
            check(np.size(found) != 1 or np.ndim(found) == 0,
                  f"single value {key} assigned as {form} is {found!r}")
        rest = {k: v for k, v in frozen(sofa).items() if k != key}
        check(rest == others, lambda: f"assigning {key} changed "
              f"{diff(rest, others)}")
