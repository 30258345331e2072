"""Base class of the checks."""


class Check:
    ID = None
    LEVEL = "exploration"
    # how cases are made, and what makes one non-trivial
    RULE = ""
    ASSUMPTIONS = []
    # generated cases per worker process
    QUICK = 100
    THOROUGH = 3000
    # seconds of the coverage-guided phase of the thorough tier
    FUZZ_TIME = 120
    # run in an environment where text files are ASCII by default, too
    ASCII = False
    GENERATED = 6        # generated conventions per world

    def prepare(self, ctx):
        """Called once per worker."""

    def corpus(self, ctx):
        """Plain regression cases, run before anything is generated."""
        return []

    def gen(self, src, ctx):
        """Return a case (plain data)."""
        raise NotImplementedError

    def run(self, ctx, case):
        """Raise Violation, return True if the case was non-trivial."""
        raise NotImplementedError
