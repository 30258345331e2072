"""
Coverage-guided phase of the thorough tier.

libFuzzer (atheris) mutates the bytes Hypothesis draws its choices from, guided
by the branches of sofar the cases reach.  Cases, oracles and replays are those
of the check.
"""
import os
import sys
import time
import boot


def instrument(prefix="sofar"):
    """Instrument the modules of sofar when they are imported."""
    if boot.VT not in sys.path:
        sys.path.append(boot.VT)
    import atheris
    boot.IMPORT = lambda: atheris.instrument_imports(include=[prefix])


def run(worker, seconds, finish):
    """Search for the given time, call finish() and end the process."""
    import atheris
    test = worker.hypothesis_test(10 ** 9)
    one = test.hypothesis.fuzz_one_input
    end = time.time() + seconds
    state = {"n": 0}

    def target(data):
        state["n"] += 1
        try:
            one(data)
        except BaseException:           # noqa: BLE001
            if not worker.failures:
                raise
        if worker.failures or time.time() > end:
            worker.ctx.label("fuzzed inputs", state["n"])
            finish()
            sys.stdout.flush()
            os._exit(0)

    corpus = boot.scratch("verif_corpus_")
    import random
    rng = random.Random(worker.seed)
    # (inputs long enough for whole cases to start with)
    for i in range(40):
        with open(os.path.join(corpus, str(i)), "wb") as f:
            f.write(rng.randbytes(rng.choice([200, 1000, 4000])))
    atheris.Setup([sys.argv[0], f"-seed={worker.seed % 2**31 + 1}",
                   "-max_len=8192", "-len_control=0", "-verbosity=0",
                   "-timeout=600", corpus], target)
    atheris.Fuzz()
