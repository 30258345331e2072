"""
Mutation analysis of the checks:  mutants.py make OUT | run OUT [N] [--full]

make writes small changes of sofar's code (one per file) to OUT, run runs the
checks against every change until one of them reports a violation, and lists
the changes that none reports.
"""
import ast
import concurrent.futures
import copy
import json
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
FILES = ["io", "sofa", "sofastream", "utils", "update_conventions"]
CHECKS = [f"C{i:02d}" for i in range(1, 40) if os.path.isfile(
    os.path.join(ROOT, "harness", "checks", f"c{i:02d}.py"))]
FIRST = {"io": "C01 C04 C02 C03 C14 C05 C23 C18 C13 C09",
         "sofastream": "C05 C21 C04",
         "utils": "C15 C20 C01 C06 C21 C04 C23",
         "update_conventions": "C18 C19 C24 C20",
         "sofa": "C07 C12 C06 C09 C10 C11 C17 C16 C14 C13 C21 C22 C23 C08 "
                 "C15 C01 C04 C03 C20"}
SWAP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE,
        ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
        ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot,
        ast.IsNot: ast.Is}
STRIP = {"upper", "lower", "strip", "copy", "rstrip", "lstrip", "title"}


def changes(node, doc):
    """(description, replacement) of one node."""
    if isinstance(node, ast.Compare) and len(node.ops) == 1:
        new = copy.deepcopy(node)
        new.ops = [SWAP[type(node.ops[0])]()]
        yield "compare", new
    if isinstance(node, ast.BoolOp):
        new = copy.deepcopy(node)
        new.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
        yield "boolop", new
        for i in range(len(node.values)):
            values = node.values[:i] + node.values[i + 1:]
            yield f"drop operand {i}", values[0] if len(values) == 1 else \
                ast.BoolOp(node.op, values)
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
        yield "drop not", node.operand
    if isinstance(node, (ast.If, ast.IfExp, ast.While)):
        pass
    if isinstance(node, ast.Constant) and id(node) not in doc:
        if isinstance(node.value, bool):
            yield "bool", ast.Constant(not node.value)
        elif isinstance(node.value, int):
            yield "int", ast.Constant(node.value + 1)
            if node.value > 0:
                yield "int", ast.Constant(node.value - 1)
        elif isinstance(node.value, str) and 0 < len(node.value) < 30:
            yield "str", ast.Constant(node.value + "x")
        elif node.value is None:
            yield "none", ast.Constant(0)
    if isinstance(node, ast.Call):
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr in STRIP and \
                not node.args:
            yield "drop ." + f.attr, f.value
        elif isinstance(f, ast.Attribute) and f.attr in ("deepcopy", "copy",
                "ravel", "squeeze", "sorted") and len(node.args) >= 1:
            yield "drop " + f.attr, node.args[0]
        elif isinstance(f, ast.Name) and f.id in (
                "list", "tuple", "set", "str", "int", "float", "sorted",
                "dict", "enumerate") and len(node.args) == 1:
            yield "drop " + f.id, node.args[0]
        for i in range(len(node.keywords)):
            new = copy.deepcopy(node)
            new.keywords.pop(i)
            yield "drop keyword", new
        if len(node.args) > 1:
            new = copy.deepcopy(node)
            new.args.pop()
            yield "drop argument", new
    if isinstance(node, (ast.List, ast.Tuple, ast.Set)) and \
            isinstance(getattr(node, "ctx", ast.Load()), ast.Load) and \
            len(node.elts) > 1:
        for i in range(len(node.elts)):
            new = copy.deepcopy(node)
            new.elts.pop(i)
            yield f"drop element {i}", new
    if isinstance(node, ast.BinOp) and isinstance(
            node.op, (ast.Add, ast.Sub)):
        new = copy.deepcopy(node)
        new.op = ast.Sub() if isinstance(node.op, ast.Add) else ast.Add()
        yield "binop", new
    if isinstance(node, ast.comprehension) and False:
        pass


def make(out):
    os.makedirs(out, exist_ok=True)
    n = 0
    for name in FILES:
        source = open(os.path.join(REPO, "sofar", name + ".py")).read()
        lines = source.encode().split(b"\n")
        start = [0]
        for line in lines:
            start.append(start[-1] + len(line) + 1)
        raw = source.encode()
        tree = ast.parse(source)
        doc = set()
        where = {}
        for node in ast.walk(tree):
            if isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.Module)):
                if ast.get_docstring(node) is not None:
                    doc.add(id(node.body[0].value))
                    doc.add(id(node.body[0]))
            if isinstance(node, ast.FunctionDef):
                for sub in ast.walk(node):
                    where[id(sub)] = node.name
            if isinstance(node, ast.JoinedStr):
                for sub in ast.walk(node):
                    doc.add(id(sub))
            if isinstance(node, ast.FunctionDef):
                for sub in node.args.defaults[:0]:
                    doc.add(id(sub))
            if isinstance(node, (ast.Raise,)) or (
                    isinstance(node, ast.Call) and isinstance(
                        node.func, ast.Name) and node.func.id == "print"):
                for sub in ast.walk(node):
                    if isinstance(sub, ast.Constant):
                        doc.add(id(sub))

        def put(node, text, kind):
            nonlocal n
            a = start[node.lineno - 1] + node.col_offset
            b = start[node.end_lineno - 1] + node.end_col_offset
            changed = raw[:a] + text.encode() + raw[b:]
            try:
                compile(changed, name, "exec")
            except (SyntaxError, ValueError):
                return
            with open(os.path.join(out, f"{n:05d}.json"), "w") as f:
                json.dump({"file": name, "line": node.lineno, "kind": kind,
                           "function": where.get(id(node), ""),
                           "old": raw[a:b].decode()[:300],
                           "new": text[:300],
                           "source": changed.decode()}, f)
            n += 1

        for node in ast.walk(tree):
            if id(node) in doc or isinstance(node, (
                    ast.FormattedValue,)) or not hasattr(node, "lineno"):
                continue
            # (conversions inside f-strings are skipped: only text)
            for kind, new in changes(node, doc):
                text = ast.unparse(ast.fix_missing_locations(new))
                if isinstance(node, ast.expr):
                    text = "(" + text + ")"
                put(node, text, kind)
            if isinstance(node, (ast.If, ast.IfExp, ast.While)):
                put(node.test, "True", "condition")
                put(node.test, "False", "condition")
            if isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign,
                                 ast.Raise, ast.Continue, ast.Break,
                                 ast.Delete)):
                put(node, "pass", "delete")
            if isinstance(node, ast.Return) and node.value is not None:
                put(node, "return None", "return")
            if isinstance(node, ast.For):
                put(node.iter, f"list({ast.unparse(node.iter)})[:1]", "first")
                put(node.iter, f"list({ast.unparse(node.iter)})[1:]", "rest")
                put(node.iter, f"list({ast.unparse(node.iter)})[::-1]",
                    "reverse")
            if isinstance(node, ast.With):
                pass
    print(n)


def one(args):
    out, key, full = args
    path = os.path.join(out, f"{key:05d}.json")
    with open(path) as f:
        m = json.load(f)
    repo = os.path.join(out, f"repo_{key}")
    os.makedirs(os.path.join(repo, "sofar"), exist_ok=True)
    for name in os.listdir(os.path.join(REPO, "sofar")):
        target = os.path.join(repo, "sofar", name)
        if os.path.lexists(target):
            os.remove(target)
        if name == m["file"] + ".py":
            with open(target, "w") as f:
                f.write(m["source"])
        elif name != "__pycache__":
            os.symlink(os.path.join(REPO, "sofar", name), target)
    first = FIRST[m["file"]].split()
    order = first + ([c for c in CHECKS if c not in first] if full else [])
    env = dict(os.environ, VERIF_REPO=repo, VERIF_OUT=repo,
               VERIF_WORKERS="8" if full else "1")
    verdict = {}
    for check in order:
        command = ["/opt/venv/bin/python",
                   os.path.join(ROOT, "harness", "run.py"), check]
        if not full:
            command += ["--examples", "60"]
        try:
            r = subprocess.run(command, env=env, capture_output=True,
                               timeout=900 if full else 120).returncode
        except subprocess.TimeoutExpired:
            r = "timeout"
        if r != 0:
            verdict[check] = r
        if r == 1:
            break
    m["verdict"] = verdict
    del m["source"]
    subprocess.run(["/bin/rm", "-r", repo])
    return key, m


def run(out, limit, full):
    done = os.path.join(out, "full.jsonl" if full else "done.jsonl")
    seen = set()
    if os.path.isfile(done):
        seen = {json.loads(x)["key"] for x in open(done)}
    keys = [int(n[:5]) for n in sorted(os.listdir(out))
            if n.endswith(".json")]
    if full:
        alive = {}
        for x in open(os.path.join(out, "done.jsonl")):
            x = json.loads(x)
            alive[x["key"]] = 1 not in x["verdict"].values()
        keys = [k for k in keys if alive.get(k)]
    else:
        import random
        random.Random(1).shuffle(keys)
    keys = [k for k in keys if k not in seen][:limit]
    with concurrent.futures.ThreadPoolExecutor(1 if full else 8) as pool:
        jobs = [pool.submit(one, (out, k, full)) for k in keys]
        for job in concurrent.futures.as_completed(jobs):
            key, m = job.result()
            with open(done, "a") as f:
                f.write(json.dumps(dict(m, key=key)) + "\n")


if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(sys.argv[2])
    else:
        n = [int(a) for a in sys.argv[3:] if a.isdigit()]
        run(sys.argv[2], n[0] if n else 10 ** 9, "--full" in sys.argv)
