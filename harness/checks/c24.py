"""C24: the congruency check reports exactly the diverging conventions."""
import os
import re
from requests.adapters import HTTPAdapter
from base import Check
from lib import check
from checks.c19 import CHECK as Update, EXCLUDED, NAMES, Server, files, table

SITE = "www.sofaconventions.org/conventions"
PAGE = "github.com/sofacoustics/SOFAtoolbox/tree/{}/SOFAtoolbox/conventions"
RAW = ("raw.githubusercontent.com/sofacoustics/SOFAtoolbox/{}/"
       "SOFAtoolbox/conventions")
FAULTS = ["connection", "timeout", "chunked", "redirects", 404, 403, 500, 503]


def forms(data):
    return data, normal(data, False), normal(data, True)


# differences that concern the whole table
WHOLE = {
    "lower": bytes.lower,
    "upper": bytes.upper,
    "swapped": lambda b: b"\n".join(b.split(b"\n")[::-1]),
    "doubled": lambda b: b + b,
    "lines": lambda b: b.replace(b"\n", b"\n\n"),
    "joined": lambda b: b.replace(b"\n", b""),
    "spaces": lambda b: b.replace(b"\t", b" "),
    "comma": lambda b: b.replace(b"\t", b","),
    "half": lambda b: b[:len(b) // 2],
    "end": lambda b: b.rstrip(b"\n"),
    "start": lambda b: b"\n" + b,
    "bom": lambda b: b"\xef\xbb\xbf" + b,
    "quotes": lambda b: b.replace(b'"', b""),
}


def contents(item):
    """The table on the website and in the toolbox."""
    a, b = table(item["a"]), table(item["b"])
    i, n, text = item["edit"]
    i = min(i, len(b))
    if text in WHOLE:
        b = WHOLE[text](b)
    else:
        b = b[:i] + text.encode("latin-1") + b[i + n:]
    return (b, a) if item["swap"] else (a, b)


def normal(data, all_tabs):
    data = data.replace(b"\r\n", b"\n")
    return re.sub(b"\t+\n" if all_tabs else b"\t\n", b"\n", data)


class CHECK(Check):
    ID = "C24"
    RULE = (
        "A case is the state of two servers (the website and the repository "
        "of the toolbox), each listing up to ten tables with generated "
        "content in any order, excluded tables, and other files; tables "
        "agree, agree up to line endings and trailing tabs, differ by "
        "anything from a single character, case or layout, or are missing on "
        "one of them. "
        "Non-trivial: something has to be reported.")
    ASSUMPTIONS = [
        "the transport below requests is replaced (HTTPAdapter.send)",
        "each table is listed once per server",
        "tables that only differ in the number of several trailing tabs may "
        "be reported or not"]
    ASCII = True
    QUICK = 750
    THOROUGH = 6000
    GENERATED = 2

    def gen(self, src, ctx):
        items = []
        for name in src.sample(NAMES + EXCLUDED, 10):
            state = src.weighted((3, "same"), (2, "format"), (3, "other"),
                                 (3, "character"), (2, "whole"),
                                 (2, "site"), (2, "toolbox"))
            a = Update.table(src, ctx, name)
            b = a
            if state == "format":
                b = dict(a, end=src.choice(["\n", "\r\n"]),
                         tabs=src.choice([0, 1, 2]))
            elif state == "other":
                b = Update.table(src, ctx, name)
                if src.chance(60):
                    b = dict(a, rows=[list(r) for r in a["rows"]])
                    row = b["rows"][src.int(0, len(b["rows"]) - 1)]
                    row[5] = (row[5] or "") + src.choice(["x", ".", "\t", " "])
            if state == "character":
                edit = [src.int(0, 400), src.choice([0, 1]), src.choice(
                    ["\r", "\t", " ", "\n", "x", "\xb0", "-", '"', ""])]
            elif state == "whole":
                edit = [0, 0, src.choice(sorted(WHOLE))]
            else:
                edit = [0, 0, ""]
            items.append({"name": name, "state": state, "a": a, "b": b,
                          "edit": edit, "swap": src.chance(50),
                          "at": src.int(0, 99)})
        return {"items": items, "branch": src.choice(
                    [None, "master", "develop", "v1.0"]),
                "save": src.weighted((4, None), (6, "folder"),
                                     (1, "missing"), (2, "exists")),
                "href": src.choice(["", "/conventions/", "./"]),
                "empty": src.weighted((20, None), (1, "site"),
                                      (1, "toolbox")),
                "fault": [src.int(0, 8), src.choice(FAULTS),
                          src.choice(["same", "empty", "page"])]
                if src.chance(20) else None}

    def pages(self, case):
        branch = case["branch"] or "master"
        items = case["items"]
        site = [i for i in items if i["state"] != "toolbox"]
        box = sorted([i for i in items if i["state"] != "site"],
                     key=lambda i: i["at"])
        if case["empty"] == "site":
            site = []
        if case["empty"] == "toolbox":
            box = []
        pages = {}
        links = ['<a href="?C=N;O=D">Name</a>', '<a href="/">Parent</a>',
                 '<a href="deprecated/">deprecated/</a>',
                 '<a href="readme.txt">readme.txt</a>']
        links += [f'<a href="{case["href"]}{i["name"]}.csv">x</a>'
                  for i in site]
        pages[SITE] = ("<html><body>" + "\n".join(links)
                       + "</body></html>").encode()
        rows = ['{"name":"deprecated","path":"SOFAtoolbox/conventions/'
                'deprecated","contentType":"directory"}',
                '{"name":"a.txt","path":"SOFAtoolbox/conventions/a.txt"}']
        rows += [f'{{"name":"{i["name"]}.csv","path":"SOFAtoolbox/'
                 f'conventions/{i["name"]}.csv","contentType":"file"}}'
                 for i in box]
        pages[PAGE.format(branch)] = (
            '<html><script>{"items":[' + ",".join(rows)
            + "]}</script></html>").encode()
        for i in site:
            pages[f"{SITE}/{i['name']}.csv"] = contents(i)[0]
        for i in box:
            pages[f"{RAW.format(branch)}/{i['name']}.csv"] = contents(i)[1]
        return pages, site, box

    def run(self, ctx, case):
        from importlib import import_module
        uc = import_module("sofar.update_conventions")
        pages, site, box = self.pages(case)
        server = Server(pages, case["fault"])
        kwargs = {}
        if case["branch"]:
            kwargs["branch"] = case["branch"]
        root = ctx.folder()
        folder = os.path.join(root, "congruency")
        if case["save"]:
            kwargs["save_dir"] = folder
            if case["save"] != "missing":
                os.makedirs(folder)
            if case["save"] == "exists":
                for n in ("sofaconventions", "sofatoolbox"):
                    os.makedirs(os.path.join(folder, n))
                with open(os.path.join(folder, "notes.txt"), "w") as f:
                    f.write("keep")
        before = files(root)
        send = HTTPAdapter.send
        HTTPAdapter.send = lambda s, request, **k: server(s, request, **k)
        try:
            o = ctx.call(uc._check_congruency, **kwargs)
        finally:
            HTTPAdapter.send = send
        after = files(root)
        if case["save"] == "missing":
            check(isinstance(o.exc, ValueError), f"missing folder to save: "
                  f"{o.describe()}")
            check(before == after, "files were saved")
            return False
        if case["fault"] and len(server.log) > case["fault"][0]:
            check(o.exc is not None, f"{case['fault']} was not reported")
            ctx.label("fault")
            return True
        if not site or not box:
            check(isinstance(o.exc, ValueError), "nothing is listed, but: "
                  + o.describe())
            check(before == after, "files were saved")
            ctx.label("nothing listed")
            return True
        check(o.exc is None, "congruency check: " + o.describe())
        report = {"toolbox": set(), "site": set(), "differs": set()}
        optional = set()
        a = {i["name"]: contents(i)[0] for i in site
             if i["name"] not in EXCLUDED}
        b = {i["name"]: contents(i)[1] for i in box
             if i["name"] not in EXCLUDED}
        report["toolbox"] = set(a) - set(b)
        report["site"] = set(b) - set(a)
        for name in set(a) & set(b):
            if normal(a[name], True) != normal(b[name], True):
                report["differs"].add(name)
            elif normal(a[name], False) != normal(b[name], False):
                optional.add(name)
        found = {"toolbox": [], "site": [], "differs": []}
        for line in o.out.splitlines():
            for name in NAMES + EXCLUDED:
                if re.search(rf"(?<![\w-]){re.escape(name)}(?![\w.-]*\d)",
                             line):
                    kind = "differs" if "differ" in line else "toolbox" \
                        if "SOFAtoolbox" in line else "site"
                    found[kind].append(name)
        for kind, names in report.items():
            check(len(found[kind]) == len(set(found[kind])),
                  f"reported more than once: {o.out}")
            check(names <= set(found[kind]) and set(found[kind]) - names <=
                  (optional if kind == "differs" else set()),
                  f"{kind}: {sorted(names)}, but the report is {o.out!r}")
        something = any(found.values())
        check(bool(o.out.strip()) == something, f"output: {o.out}")
        new = {k: v for k, v in after.items() if before.get(k) != v}
        expected = {}
        if case["save"]:
            for name in found["differs"]:
                for sub, data in (("sofaconventions", a[name]),
                                  ("sofatoolbox", b[name])):
                    expected[os.path.join("congruency", sub, name + ".csv")
                             ] = data
        check(set(new) == set(expected) and not set(before) - set(after),
              f"saved {sorted(new)} instead of {sorted(expected)}")
        for name, data in expected.items():
            check(any(f == g for f in forms(new[name]) for g in forms(data)),
                  f"the saved {name} is not what differs")
        ctx.label("report" if something else "congruent")
        return any(report.values())
