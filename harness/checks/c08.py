"""C08: objects are independent of each other; failed calls are no-ops."""
import copy
from checks import c07
from lib import check, compare, diff, frozen


class CHECK(c07.CHECK):
    ID = "C08"
    RULE = (
        "A case is a history of up to 30 operations on two to four objects "
        "(often of the same convention), which includes copies, objects "
        "written and read, arrays changed in place, and calls that fail. "
        "After each operation all other objects, the objects that failed "
        "and the arrays passed by the user must be exactly as before; in the "
        "end each object behaves according to its own model. Non-trivial: "
        "at least two objects and one failing operation.")
    QUICK = 325
    THOROUGH = 5000
    OBJECTS = (2, 4)
    LENGTH = 30
    WEIGHTS = [(10, "set"), (2, "set_readonly"), (2, "set_unknown"),
               (3, "ragged"), (3, "del"), (5, "del_optional"),
               (2, "del_unknown"), (9, "add"), (6, "add_again"),
               (7, "add_bad"), (3, "add_ragged"), (8, "inplace"),
               (2, "prot"), (4, "verify"), (3, "missing"), (3, "upgrade"),
               (6, "copy"), (5, "disk"), (2, "report")]

    def final(self, ctx, machine):
        # every object only knows its own entries
        names = sorted({k for p in machine.pairs for k in p.model.custom
                        if p.model.custom[k]["dimensions"] is not None})
        for p in machine.pairs:
            if p.model.missing("mandatory"):
                p.model.add_missing(True, False)
                ctx.ok("add_missing", p.sofa.add_missing, True, False)
            issues = p.model.clone().verify("return")
            o = ctx.ok("verify", p.sofa.verify, issue_handling="return")
            bad = issues.errors("return", "write") or \
                issues.warns("return", "write")
            check(bool(bad) == (o.value is not None), lambda: "verification "
                  f"returned {o.value}, the model {issues}")
            for name in names:
                attr = name + "_Probe"
                known = p.model.can_add(attr, "attribute", None)
                before = frozen(p.sofa)
                o = ctx.call(p.sofa.add_attribute, attr, "x")
                check((o.exc is None) == known, f"adding {attr}: known is "
                      f"{known} but result is {o.describe()}")
                if known:
                    p.sofa.delete(attr)
                check(frozen(p.sofa) == before, "an object was changed")
            compare(p.sofa, p.model, "finally")
