"""Setup: everything the checks need is importable and the fixtures work."""
import boot
import hypothesis
import model
from world import World

for seed in range(3):
    world = World(seed)
    for name, version, _, _ in world.conventions:
        m = model.Obj(world, name, version)
        issues = m.verify("raise")
        assert not issues.fatal("raise"), (name, version, issues)
        assert not issues.late_errors("read"), (name, version, issues)
sofar, package = boot.load(World(0))
print("hypothesis", hypothesis.__version__, "sofar", sofar.__version__,
      "from", boot.REPO)
