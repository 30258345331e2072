"""
Run one check:  run.py C01 [--tier quick|thorough] [--replay FILE]

The parent starts worker processes, each with its own world of conventions and
its own seed (both derived from VERIF_SEED), collects what they covered and
writes the evidence.  Exit code 0: the property held on everything explored, 1:
violation, 2: error of the check itself.
"""
import argparse
import collections
import errno
import importlib
import json
import os
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)

import boot                                                    # noqa: E402

WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
# generation stops (without a verdict on what was not explored)
BUDGET = {"quick": 240, "thorough": 3600}
LIMIT = 90
# environments of the workers: files are opened with the ASCII encoding by
# default in every other worker (of the checks that open text files)
ASCII = {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0",
         "PYTHONIOENCODING": "utf-8",
         "VERIF_STAGE": "stage_[x] *.deprecated.json"}
# (problems of the computer)
NO_RESOURCES = [errno.ENOSPC, errno.EDQUOT, errno.EMFILE, errno.ENFILE,
                errno.ENOMEM, errno.EAGAIN, errno.EIO, errno.EROFS]
SHRINK = {"quick": 40, "thorough": 120}


def load_check(check_id):
    return importlib.import_module("checks." + check_id.lower()).CHECK()


class Stop(Exception):
    pass


def too_long(*_):
    from lib import Violation
    raise Violation(f"no result after {LIMIT} s of processor time")


class Worker:
    def __init__(self, check_id, tier, seed, index, ctx=None):
        from lib import Ctx
        self.check = load_check(check_id)
        self.tier, self.index = tier, index
        self.seed = seed * 1000 + index
        self.start = time.time()
        self.ctx = ctx or Ctx(self.seed, self.check.GENERATED)
        self.check.prepare(self.ctx)
        signal.signal(signal.SIGVTALRM, too_long)
        self.evaluations = 0
        self.nontrivial = set()
        self.samples = []
        self.failures = []
        self.failed_at = None
        self.error = None
        self.truncated = False
        self.gen_errors = []
        self.run_errors = []

    def one(self, case):
        """Run one case; raise Violation."""
        from lib import Violation, HarnessError, formatted, key_of
        self.evaluations += 1
        # (cases take milliseconds, the limit is for processor time)
        signal.setitimer(signal.ITIMER_VIRTUAL, LIMIT)
        try:
            nontrivial = self.check.run(self.ctx, case)
        except Violation:
            raise
        except HarnessError:
            raise
        except Exception as e:          # noqa: BLE001
            if any(self.ctx.package in f.filename for f in
                   traceback.extract_tb(e.__traceback__)):
                raise Violation("unexpected error:\n"
                                + formatted(e, 4)) from None
            if isinstance(e, MemoryError) or \
                    getattr(e, "errno", None) in NO_RESOURCES:
                raise
            # (the oracles stumble only over results they did not expect)
            raise Violation("unusable result:\n"
                            + formatted(e, 4)) from None
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            self.ctx.clean()
        if nontrivial and self.failed_at is None:
            key = key_of(case)
            if key not in self.nontrivial:
                self.nontrivial.add(key)
                if len(self.samples) < 3 and len(self.nontrivial) % 7 == 1:
                    self.samples.append(case)

    def record(self, case, error):
        self.failures.append((len(json.dumps(case)), json.dumps(case),
                              str(error)))
        if self.failed_at is None:
            self.failed_at = time.time()

    def run(self, examples):
        from lib import Violation
        # plain regression cases
        cases = self.check.corpus(self.ctx)
        for i, case in enumerate(cases):
            if i % WORKERS == self.index % WORKERS:
                self.ctx.label("corpus")
                try:
                    self.one(case)
                except Violation as e:
                    self.record(case, e)
                    return
        self.search(examples)

    def hypothesis_test(self, examples):
        import hypothesis
        from hypothesis import strategies as st, settings, Phase, HealthCheck
        from lib import HarnessError, Violation
        from src import Src
        budget = BUDGET[self.tier]

        @st.composite
        def cases(draw):
            try:
                return self.check.gen(Src(draw), self.ctx)
            except (hypothesis.errors.HypothesisException,
                    hypothesis.errors.StopTest, HarnessError):
                raise
            except Exception:           # noqa: BLE001
                # (a gap of the generator: no case, but counted)
                self.gen_errors.append(traceback.format_exc()[-1500:])
                if len(self.gen_errors) > 10 + .02 * self.evaluations:
                    raise
                return None

        @hypothesis.seed(self.seed)
        @settings(max_examples=examples, database=None, deadline=None,
                  suppress_health_check=list(HealthCheck),
                  phases=[Phase.generate, Phase.shrink],
                  report_multiple_bugs=False, print_blob=False)
        @hypothesis.given(cases())
        def test(case):
            # (replays must not depend on anything but the case)
            now = time.time()
            if self.failed_at is None and now - self.start > budget:
                self.truncated = True
                return
            if self.failed_at is not None and \
                    now - self.failed_at > SHRINK[self.tier]:
                return
            if case is None:
                return
            case = json.loads(json.dumps(case))
            try:
                self.one(case)
            except Violation as e:
                self.record(case, e)
                raise
            except Exception:           # noqa: BLE001
                # (a gap of the harness: the case is not decided, but counted)
                self.run_errors.append(traceback.format_exc()[-1500:]
                                       + json.dumps(case)[:3000])
                if len(self.run_errors) > 3 + .01 * self.evaluations:
                    raise
        return test

    def search(self, examples):
        test = self.hypothesis_test(examples)
        try:
            test()
        except BaseException as e:      # noqa: BLE001
            # (shrinking was cut short or led to different errors)
            if not self.failures or isinstance(e, KeyboardInterrupt):
                raise

    def result(self):
        self.failures.sort()
        return {
            "evaluations": self.evaluations,
            "nontrivial": sorted(self.nontrivial),
            "samples": self.samples, "labels": self.ctx.labels,
            "world": self.ctx.world_args,
            "env": {k: os.environ[k] for k in ["PYTHONHASHSEED", *ASCII]
                    if k in os.environ}, "truncated": self.truncated,
            "failure": None if not self.failures else {
                "case": json.loads(self.failures[0][1]),
                "message": self.failures[0][2],
                "first": self.failures[0][2]},
            "error": self.error, "gen_errors": self.gen_errors[:3],
            "run_errors": self.run_errors[:3]}


def worker_main(args):
    worker = None

    def finish():
        with open(args.out, "w") as f:
            json.dump(worker.result(), f)
    try:
        if args.fuzz:
            import fuzz
            fuzz.instrument()
        worker = Worker(args.check, args.tier, args.seed, args.worker)
        n = worker.check.QUICK if args.tier == "quick" \
            else worker.check.THOROUGH
        if args.examples:
            n = args.examples
        if args.fuzz:
            fuzz.run(worker, args.fuzz, finish)
        else:
            worker.run(n)
        result = worker.result()
    except BaseException:               # noqa: BLE001
        result = worker.result() if worker else {
            "evaluations": 0, "nontrivial": [], "samples": [], "labels": {},
            "world": None, "failure": None, "truncated": False}
        result["error"] = traceback.format_exc()
    with open(args.out, "w") as f:
        json.dump(result, f)


def replay(args):
    from lib import Ctx, Violation
    with open(args.replay) as f:
        data = json.load(f)
    env = data.get("env", {})
    if any(os.environ.get(k) != v for k, v in env.items()):
        return subprocess.run([sys.executable] + sys.argv,
                              env=dict(os.environ, **env)).returncode
    check = load_check(data["property"])
    ctx = Ctx(*data["world"])
    check.prepare(ctx)
    worker = Worker(data["property"], "quick", 0, 0, ctx)
    try:
        worker.one(data["case"])
    except Violation as e:
        print(e)
        print(f"VIOLATION property={data['property']} replay={args.replay}")
        return 1
    print("no violation")
    return 0


def known_findings(check_id):
    path = os.path.join(VERIF, "known_findings.json")
    with open(path) as f:
        entries = json.load(f)["findings"]
    return [e for e in entries if e["property"] == check_id
            and e["status"] == "known"]


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("check")
    parser.add_argument("--tier", default=os.environ.get(
        "VERIF_TIER", "quick"))
    parser.add_argument("--seed", type=int, default=int(
        os.environ.get("VERIF_SEED", "1")))
    parser.add_argument("--worker", type=int)
    parser.add_argument("--out")
    parser.add_argument("--replay")
    parser.add_argument("--examples", type=int, default=0)
    parser.add_argument("--fuzz", type=int, default=0)
    args = parser.parse_args()
    if args.replay:
        return replay(args)
    if args.worker is not None:
        return worker_main(args)

    start = time.time()
    check = load_check(args.check)
    folder = boot.scratch("verif_run_")
    jobs = []
    env = dict(os.environ, PYTHONHASHSEED="0", OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", HDF5_USE_FILE_LOCKING="FALSE",
               TMPDIR=folder, HOME=folder)
    fuzz_time = check.FUZZ_TIME if args.tier == "thorough" and hasattr(
        check, "FUZZ_TIME") else 0
    for index in range(WORKERS + (WORKERS if fuzz_time else 0)):
        jobs.append((index, index >= WORKERS))
    results = []
    running = []
    exit_errors = []
    while jobs or running:
        while jobs and len(running) < WORKERS:
            index, fuzzing = jobs.pop(0)
            out = os.path.join(folder, f"worker_{index}.json")
            command = [sys.executable, os.path.join(HERE, "run.py"),
                       args.check, "--tier", args.tier, "--seed",
                       str(args.seed), "--worker", str(index), "--out", out,
                       "--examples", str(args.examples)]
            if fuzzing:
                command += ["--fuzz", str(fuzz_time)]
            log = open(os.path.join(folder, f"worker_{index}.log"), "w")
            own = dict(env, PYTHONHASHSEED=str(index))
            if check.ASCII and index % 2:
                own.update(ASCII)
            running.append((subprocess.Popen(
                command, stdout=log, stderr=subprocess.STDOUT, env=own,
                cwd=folder), out, log))
        time.sleep(.05)
        for item in list(running):
            process, out, log = item
            if process.poll() is None:
                continue
            running.remove(item)
            log.close()
            if os.path.isfile(out):
                with open(out) as f:
                    results.append(json.load(f))
            else:
                with open(log.name) as f:
                    exit_errors.append(
                        f"worker ended with {process.returncode}\n"
                        + f.read()[-3000:])

    labels = collections.Counter()
    nontrivial = set()
    samples = []
    for r in results:
        labels.update(r["labels"])
        nontrivial.update(r["nontrivial"])
        samples += r["samples"][:2]
    failures = [r for r in results if r["failure"]]
    errors = exit_errors + [r["error"] for r in results if r.get("error")]
    evidence = {
        "property": args.check, "tier": args.tier, "seed": args.seed,
        "level": check.LEVEL,
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in results),
            "distinct_nontrivial": len(nontrivial),
            "rule": check.RULE,
            "samples": samples[:4],
            "labels": dict(sorted(labels.items())),
            "workers": len(results),
            "worlds": [r["world"] for r in results],
            "generator_errors": sum((r.get("gen_errors", [])
                                     for r in results), []),
            "undecided": sum((r.get("run_errors", [])
                              for r in results), []),
            "budget_reached": sum(r["truncated"] for r in results),
        },
        "assumptions": check.ASSUMPTIONS,
        "wall_s": round(time.time() - start, 2),
        "violations": len(failures),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", args.check + ".json"),
              "w") as f:
        json.dump(evidence, f, indent=1, ensure_ascii=True)
        f.write("\n")

    for finding in known_findings(args.check):
        print(f"KNOWN-FINDING: property={args.check} {finding['what']}")
    cov = evidence["coverage"]
    print(f"{args.check} {args.tier} seed={args.seed}: "
          f"{cov['evaluations']} cases, {cov['distinct_nontrivial']} "
          f"distinct non-trivial, {evidence['wall_s']} s")
    if os.environ.get("VERIF_LABELS"):
        print(json.dumps(cov["labels"], indent=1))
    if failures:
        failures.sort(key=lambda r: len(json.dumps(r["failure"]["case"])))
        best = failures[0]
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", args.check + ".json")
        with open(path, "w") as f:
            json.dump({"property": args.check, "world": best["world"],
                       "env": best["env"],
                       "message": best["failure"]["message"],
                       "case": best["failure"]["case"]}, f, indent=1)
        print(best["failure"]["message"])
        print(f"VIOLATION property={args.check} replay={path}")
        return 1
    if errors:
        for e in errors[:2]:
            print(e, file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
