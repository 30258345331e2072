"""C01: writing and reading a SOFA object preserves all data."""
import os
import numpy as np
import gens
import vals
from base import Check
from lib import (Violation, check, compare, frozen, diff, pair, digest,
                 public)

FILENAMES = ["a.sofa", "a", "with space.sofa", "dots.in.name", "v1.0",
             "Ümläut.sofa", "upper.SOFA", ".hidden", "a.sofa.sofa",
             "a_b-c.sofa", "name.sofa.bak", "sofa"]


def expected_path(name):
    """Documented: '.sofa' is appended if it is not given."""
    root, ext = os.path.splitext(name)
    return name if ext == ".sofa" else name + ".sofa"


class CHECK(Check):
    ID = "C01"
    RULE = (
        "A case is a generated valid SOFA object (convention and version of a "
        "generated world, mandatory or all entries, random dimension sizes, "
        "values in random forms/types/memory layouts incl. NaN, infinities "
        "and missing data, string variables, unicode attributes, deleted "
        "optional and added custom entries), a compression level and file "
        "names. Non-trivial: at least one dimension larger than one and "
        "non-default data.")
    ASSUMPTIONS = [
        "conventions and rules are generated fixtures (the data submodule is "
        "not part of the repository)",
        "sizes up to 300 per dimension; no NUL or control characters"]
    QUICK = 275
    THOROUGH = 5000

    def gen(self, src, ctx):
        recipe = gens.valid(src, ctx.world, customs=3, reserved=ctx.reserved)
        case = {"recipe": recipe, "compression": src.int(0, 9),
                "name": src.choice(FILENAMES),
                "as_path": src.chance(20),
                "where": src.choice(["", "", "relative", "./", "a.b", "x.sofa",
                                     "Messungen März"]),
                "previous": src.weighted((4, None), (1, "sofa"),
                                         (1, "junk")),
                "second": src.int(0, 9)}
        return case

    def run(self, ctx, case):
        folder = ctx.folder()
        where = case.get("where", "")
        if where not in ("", "relative", "./"):
            folder = os.path.join(folder, where)
            os.mkdir(folder)
        current = os.getcwd()
        if where in ("relative", "./"):
            os.chdir(folder)
            folder = "." if where == "relative" else "./"
        try:
            return self.files(ctx, case, folder)
        finally:
            os.chdir(current)

    def files(self, ctx, case, folder):
        import pathlib
        sf = ctx.sf
        sofa, model = pair(ctx, case["recipe"])
        name = case["name"] if folder == "." else \
            os.path.join(folder, case["name"])
        path = expected_path(name)
        if case["previous"] == "sofa":
            other = sf.Sofa("GeneralFIR", verify=False)
            other.add_variable("Leftover", [1, 2, 3], "double", "IC")
            ctx.ok("writing", sf.write_sofa, path, other)
        elif case["previous"] == "junk":
            with open(path, "wb") as f:
                f.write(b"no netCDF file" * 50)
        before = frozen(sofa)
        arg = pathlib.Path(name) if case["as_path"] else name
        ctx.ok("writing a valid object", sf.write_sofa, arg, sofa,
               case["compression"])
        check(os.listdir(folder) == [os.path.basename(path)],
              lambda: f"writing {case['name']!r} created "
                      f"{os.listdir(folder)}")
        check(frozen(sofa) == before, "writing changed the object: "
              + str(diff(frozen(sofa), before)))
        read = ctx.ok("reading a written file", sf.read_sofa, arg,
                      verbose=False).value
        compare(read, model, "read object")
        for key in public(read):
            # strings stay strings, numbers are double precision
            value = getattr(read, key)
            if model.typ(key) == "double":
                check(np.asarray(np.ma.getdata(value)).dtype == np.float64,
                      f"{key} is not of type float")
        o = ctx.call(sf.equals, sofa, read, verbose=False)
        if o.exc is None and not o.value and self.comparable(sofa, model):
            raise Violation("sofar.equals reports differences between the "
                            "written and the read object")
        # a second round trip changes nothing
        again = os.path.join(folder, "second.sofa")
        first = digest(path)
        ctx.ok("writing the read object", sf.write_sofa, again, read,
               case["second"])
        read2 = ctx.ok("reading again", sf.read_sofa, again,
                       verbose=False).value
        check(digest(path) == first, "the first file changed")
        check(frozen(read2) == frozen(read),
              lambda: "second round trip changed "
                      + str(diff(frozen(read2), frozen(read))))
        # reading with and without verification gives the same data
        read3 = ctx.ok("reading without verification", sf.read_sofa, arg,
                       verify=False, verbose=False).value
        check(frozen(read3) == frozen(read), "data depend on verification")
        for op in case["recipe"]["ops"]:
            ctx.label(op[0])
        if case["recipe"]["mandatory"]:
            ctx.label("mandatory")
        sizes = model.solve() or {}
        big = [k for k, v in sizes.items() if v > 1 and k != "C"]
        if any(np.ma.is_masked(v) for v in model.entries.values()):
            ctx.label("missing data")
        if any(model.typ(k) == "string" for k in model.variables()):
            ctx.label("string variables")
        if model.custom:
            ctx.label("custom entries")
        if not big:
            ctx.label("all dimensions are one")
        return bool(big) and any(o[0] == "set" for o in
                                 case["recipe"]["ops"])

    @staticmethod
    def comparable(sofa, model):
        return True
