"""C07: protected objects only change in permitted ways."""
import gens
import history
from base import Check
from model import Obj

WEIGHTS = [(8, "set"), (2, "set_fixed"), (10, "set_readonly"),
           (8, "set_unknown"), (2, "ragged"), (10, "del"),
           (6, "del_optional"), (3, "del_fixed"), (7, "del_unknown"),
           (6, "add"), (5, "add_again"), (3, "add_bad"), (1, "add_ragged"),
           (5, "prot"), (1, "prot_bad"), (4, "verify"), (3, "missing"), (4, "upgrade"),
           (2, "copy"), (2, "disk"), (1, "report")]


class CHECK(Check):
    ID = "C07"
    RULE = (
        "A case is a history of up to 25 operations on one object of a "
        "random convention: permitted and forbidden assignments, deletions "
        "and additions, switching the protection, verifying, adding missing "
        "data, upgrading, copying, writing and reading. After each operation "
        "the object is compared with the reference model; forbidden ones "
        "have to raise and change nothing. Non-trivial: at least two "
        "forbidden operations in a history of more than three.")
    ASSUMPTIONS = ["the reference model of harness/model.py"]
    QUICK = 550
    THOROUGH = 8000
    OBJECTS = (1, 1)
    LENGTH = 25
    WEIGHTS = WEIGHTS

    def gen(self, src, ctx):
        world = ctx.world
        objects, models = [], []
        for _ in range(src.int(*self.OBJECTS)):
            upgradable = [c[:2] for c in world.conventions
                          if c[0] in world.upgrades]
            if src.chance(40):
                name, version = src.choice(upgradable)
            elif objects and src.chance(50):
                name, version = objects[0][:2]
            else:
                name, version = src.choice(world.conventions)[:2]
            objects.append([name, version, src.chance(30)])
            models.append(Obj(world, *objects[-1]))
        ops = []
        for _ in range(src.int(1, self.LENGTH)):
            i = src.int(0, len(models) - 1)
            op = history.gen_op(src, world, models, i, ctx.reserved,
                                self.WEIGHTS)
            if op is not None:
                ops.append(op)
                history.advance(models[i], op, models)
        return {"objects": objects, "ops": ops}

    def run(self, ctx, case):
        machine = history.Machine(ctx, case)
        for op in case["ops"]:
            machine.step(op)
            ctx.label(op[1])
        self.final(ctx, machine)
        return machine.forbidden >= 2 and len(case["ops"]) > 3

    def final(self, ctx, machine):
        pass
