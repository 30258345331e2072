"""C19: updating conventions mirrors the server or changes nothing."""
import builtins
import json
import os
import pathlib
import re
import shutil
import requests
from requests.adapters import HTTPAdapter
from requests.structures import CaseInsensitiveDict
from base import Check
from lib import check
from checks.c18 import CHECK as Tables, ENCODING, gen_default, literal

URL = "www.sofaconventions.org/conventions"
NAMES = ["FreeFieldUPD_1.0", "FreeFieldUPD_2.0", "FreeFieldUPDTF_1.0",
         "RoomUPD_1.0", "MultiUPD_0.3", "GeneralUPD_1.0",
         "GeneralFIR-UPD_2.0", "GeneralStringX_1.0", "GenericUPD_1.0",
         "DirectivityUPD_1.1", "HeadphoneUPD_0.2", "AnnotatedUPD_0.2"]
EXCLUDED = ["General_1.0", "GeneralString_0.1", "General_x"]
FAULTS = ["connection", "timeout", "chunked", 404, 403, 500, 503, "redirects"]
ERRORS = {"connection": requests.exceptions.ConnectionError,
          "timeout": requests.exceptions.Timeout,
          "chunked": requests.exceptions.ChunkedEncodingError,
          "redirects": requests.exceptions.TooManyRedirects}


class Server:
    """Stands in for the transport of requests, nothing leaves the process."""

    def __init__(self, pages, fault):
        self.pages = pages
        self.fault = fault
        self.log = []

    def __call__(self, adapter, request, **kwargs):
        url = re.sub("^https?:/+", "", request.url).split("?")[0]
        url = re.sub("/+", "/", url)
        self.log.append(url)
        r = requests.models.Response()
        r.url = request.url
        r.request = request
        r.headers = CaseInsensitiveDict()
        r.status_code = 200
        r.reason = "OK"
        body = self.pages.get(url.rstrip("/"))
        if body is None:
            r.status_code, r.reason, body = 404, "Not found", b"nothing here"
        if self.fault and len(self.log) - 1 == self.fault[0]:
            kind = self.fault[1]
            if isinstance(kind, str):
                raise ERRORS[kind](f"injected {kind}")
            r.status_code, r.reason = kind, "injected"
            # the body of an error can look like anything
            if self.fault[2] == "empty":
                body = b""
            elif self.fault[2] == "page":
                body = b"<html><body>Sorry</body></html>"
        r._content = body
        r._content_consumed = True
        r.encoding = "utf-8"
        return r


def table(case):
    return Tables.text(case).encode(ENCODING)


def normal(data):
    return re.sub(b"[\t\r]*\n", b"\n", data)


def files(folder):
    out = {}
    for root, _, names in os.walk(folder):
        for name in names:
            path = os.path.join(root, name)
            with open(path, "rb") as f:
                out[os.path.relpath(path, folder)] = f.read()
    return out


class CHECK(Check):
    ID = "C19"
    RULE = (
        "A case is a server state (two pages listing up to 8 tables with "
        "generated content and formatting, excluded tables and other files), "
        "a local folder state (each convention missing, current, current "
        "with other line endings, outdated, still standardized; local extra "
        "conventions and files; no folder at all), an answer to the question "
        "and up to one fault (lost connection, timeout, HTTP error) at any "
        "request. Non-trivial: there was something to update.")
    ASSUMPTIONS = [
        "the transport below requests is replaced (HTTPAdapter.send)",
        "tables on the server are well-formed and listed once",
        "local csv files come with their json files"]
    ASCII = True
    QUICK = 750
    THOROUGH = 6000
    GENERATED = 3

    # -- generation --------------------------------------------------------------
    @staticmethod
    def table(src, ctx, name):
        if src.chance(25):
            _, version, _, entries = src.choice(ctx.world.conventions)
            rows = []
            for key, e in entries.items():
                text = literal(src, e["default"])
                if text is None:
                    continue
                if key == "GLOBAL:SOFAConventions":
                    text = name.split("_")[0]
                    e = dict(e, default=text)
                rows.append([key, [text, e["default"]], e["flags"] or "",
                             e["dimensions"] or "", e["type"],
                             e["comment"] or None])
        else:
            rows = []
            for key in ["GLOBAL:Conventions", "GLOBAL:Note", "Data.IR",
                        "SourcePosition", "SourcePosition:Units"]:
                typ = "attribute" if ":" in key else "double"
                if src.chance(60) or not rows:
                    rows.append([key, gen_default(src, key, typ),
                                 src.choice(["m", "rm", ""]),
                                 src.choice(["IC, MC", "mRn", ""]), typ,
                                 src.choice([None, "", "A comment",
                                             "Größe in µm", "a; b"])])
        return {"kind": "table", "rows": rows, "pad": src.choice(["", " "]),
                "tabs": src.choice([0, 0, 1, 2, 3]),
                "end": src.choice(["\n", "\n", "\r\n"]),
                "last": src.chance(70), "header": ""}

    def gen(self, src, ctx):
        items = []
        quiet = src.chance(15)
        for name in src.sample(NAMES, 8):
            where = src.choice(["std", "std", "dep"])
            now = self.table(src, ctx, name)
            state = src.choice(["none", "same", "format", "old"])
            if quiet:
                state = src.choice(["same", "format"])
            local = None
            if state == "same":
                local = now
            elif state == "format":
                local = dict(now, end=src.choice(["\n", "\r\n"]),
                             tabs=src.choice([0, 1, 2]))
            elif state == "old":
                local = self.table(src, ctx, name)
                if src.chance(50):
                    # one detail differs
                    local = json.loads(json.dumps(now))
                    row = local["rows"][src.int(0, len(local["rows"]) - 1)]
                    if row[5] and src.chance(50):
                        # (of the same length)
                        at = src.int(0, len(row[5]) - 1)
                        row[5] = row[5][:at] + (
                            "x" if row[5][at] != "x" else "y") + \
                            row[5][at + 1:]
                    else:
                        row[5] = (row[5] or "") + "."
            if local and not quiet and src.chance(
                    40 if where == "dep" else 15):
                local_where = "std" if where == "dep" else "dep"
            else:
                local_where = where
            items.append({"name": name, "where": where, "now": now,
                          "local": local, "local_where": local_where})
        used = {i["name"] for i in items}
        extra = []
        for name in src.sample(EXCLUDED + [n for n in NAMES
                                           if n not in used], 3):
            extra.append({"name": name, "where": src.choice(["std", "dep"]),
                          "table": self.table(src, ctx, name)})
        served = [[n, src.choice(["std", "dep"])]
                  for n in src.sample(EXCLUDED, 2)]
        case = {"items": items, "extra": extra, "excluded": served,
                "files": src.sample(["README.txt", "notes.csv.bak", "a.txt",
                                     "deprecated/x.txt"], 2),
                "href": src.choice(["", "/conventions/", "./"]),
                "yes": src.chance(50), "default": src.chance(20),
                "answer": src.choice(["y", "y", "y", "n", "", "Y", "yes",
                                      "no", None]),
                "fault": None, "nodir": False, "malformed": None,
                "folder": src.choice(["conventions", "conventions",
                                      "con [v1]", "conv*", "my %s {1}",
                                      "deprecated", "c.json"]),
                "path": src.choice(["plain", "plain", "relative", "slash",
                                    "Path"])}
        if src.chance(35):
            requests_made = 2 + len(items)
            case["fault"] = [src.int(0, requests_made - 1),
                             src.choice(FAULTS),
                             src.choice(["same", "empty", "page"])]
        elif src.chance(20) and items:
            case["malformed"] = [src.int(0, len(items) - 1), src.choice(
                ["short", "array", "matrix", "name"]), src.int(0, 99)]
        if src.chance(15) and not case["default"]:
            case["nodir"] = True
            for i in items:
                i["local"] = None
            case["extra"], case["files"] = [], []
        return case

    # -- set up ------------------------------------------------------------------
    @staticmethod
    def pages(case):
        def page(names, folder):
            prefix = case["href"]
            if prefix == "/conventions/" and folder:
                prefix += folder + "/"
            links = ['<a href="?C=N;O=D">Name</a>', '<a href="/">Parent</a>',
                     '<a href="deprecated/">deprecated/</a>',
                     '<a href="readme.txt">readme.txt</a>']
            links += [f'<a href="{prefix}{n}.csv">{n}.csv</a>'
                      for n in names]
            return ("<html><body><table>" + "".join(
                f"<tr><td>{x}</td></tr>" for x in links)
                + "</table></body></html>").encode()
        pages = {}
        for where, folder in (("std", ""), ("dep", "deprecated")):
            base = f"{URL}/{folder}".rstrip("/")
            here = [i for i in case["items"] if i["where"] == where]
            names = [i["name"] for i in here]
            for name, w in case["excluded"]:
                if w == where:
                    names.insert(len(names) // 2, name)
                    pages[f"{base}/{name}.csv"] = b"something else"
            pages[base] = page(names, folder)
            for i in here:
                pages[f"{base}/{i['name']}.csv"] = table(CHECK.now(case, i))
        return pages

    @staticmethod
    def now(case, item):
        """The table on the server, if it is malformed."""
        bad = case.get("malformed")
        if bad and case["items"][bad[0]] is item:
            return dict(item["now"], kind="malformed", how=bad[1],
                        where=bad[2])
        return item["now"]

    @staticmethod
    def install(folder, case):
        def put(where, name, tab):
            path = os.path.join(folder, "deprecated" if where == "dep"
                                else "", name)
            with open(path + ".csv", "wb") as f:
                f.write(table(tab))
            ref, keys = Tables.expected(tab)
            with open(path + ".json", "w") as f:
                json.dump({k: ref[k] for k in keys}, f, indent=4)
        for i in case["items"]:
            if i["local"]:
                put(i["local_where"], i["name"], i["local"])
        for e in case["extra"]:
            put(e["where"], e["name"], e["table"])
        for name in case["files"]:
            with open(os.path.join(folder, name), "w") as f:
                f.write("keep me")

    # -- the case ----------------------------------------------------------------
    def run(self, ctx, case):
        if case["default"]:
            folder = os.path.join(ctx.package, "sofa_conventions",
                                  "conventions")
            backup = os.path.join(ctx.folder(), "backup")
            shutil.copytree(folder, backup)
        else:
            folder = os.path.join(ctx.folder(),
                                  case.get("folder", "conventions"))
            backup = None
        try:
            if not case["nodir"]:
                os.makedirs(os.path.join(folder, "deprecated"),
                            exist_ok=True)
                self.install(folder, case)
            return self.update(ctx, case, folder)
        finally:
            if backup:
                shutil.rmtree(folder)
                shutil.copytree(backup, folder)

    def call(self, ctx, case, folder, fault, yes, answer):
        from importlib import import_module
        uc = import_module("sofar.update_conventions")
        server = Server(self.pages(case), fault)
        asked = []

        def ask(*args):
            asked.append(args)
            if len(asked) > 3:
                check(False, "asked again and again")
            if answer is None:
                raise EOFError("no answer")
            return answer
        send, read = HTTPAdapter.send, builtins.input
        HTTPAdapter.send = lambda s, request, **k: server(s, request, **k)
        builtins.input = ask
        try:
            kwargs = {}
            if not case["default"]:
                kwargs["conventions_path"] = {
                    "relative": os.path.relpath, "slash": self.slash,
                    "Path": pathlib.Path, "plain": str}[
                        case.get("path", "plain")](folder)
            if yes:
                kwargs["assume_yes"] = True
            out = ctx.call(uc.update_conventions, **kwargs)
        finally:
            HTTPAdapter.send, builtins.input = send, read
        return out, asked, server

    @staticmethod
    def slash(folder):
        return folder + os.sep

    def update(self, ctx, case, folder):
        before = files(folder)
        changed = {}
        for i in case["items"]:
            if i["local"] is None:
                changed[i["name"]] = "add"
            elif i["local_where"] != i["where"]:
                changed[i["name"]] = "deprecate"
            elif normal(table(i["local"])) != normal(table(
                    self.now(case, i))):
                changed[i["name"]] = "update"
        what = (f"update (to change: {changed}, yes: {case['yes']}, "
                f"answer: {case['answer']!r}, fault: {case['fault']})")
        out, asked, server = self.call(ctx, case, folder, case["fault"],
                                       case["yes"], case["answer"])
        after = files(folder)
        named = {n for n in NAMES + EXCLUDED
                 if re.search(rf"(?<![\w-]){re.escape(n)}(?![\w.-]*\w)",
                              out.out)}
        if case["fault"] and len(server.log) > case["fault"][0]:
            check(out.exc is not None, f"{what}: the fault was not reported")
            check(not asked, f"{what}: asked in spite of the fault")
            check(after == before, lambda: f"{what} changed files: "
                  f"{self.changes(before, after)}")
            ctx.label("fault")
            return bool(changed)
        if not changed:
            check(out.exc is None, f"{what}: {out.describe()}")
            check(not asked, f"{what}: asked although up to date")
            check(not named, f"{what} reported {sorted(named)}")
            check(after == before, lambda: f"{what} changed files: "
                  f"{self.changes(before, after)}")
            ctx.label("up to date")
            return False
        check(bool(asked) != case["yes"], f"{what}: asked {len(asked)} times")
        check(named == set(changed), f"{what} reported {sorted(named)}")
        if not case["yes"] and case["answer"] != "y":
            if case["answer"] is None:
                check(out.exc is not None, f"{what}: finished")
            else:
                check(out.exc is None, f"{what}: {out.describe()}")
            # ("Y" and "yes" are no confirmation, but could be one)
            if case["answer"] in ("Y", "yes") and after != before:
                return True
            check(after == before, lambda: f"{what} changed files: "
                  f"{self.changes(before, after)}")
            ctx.label("declined")
            return True
        bad = case.get("malformed")
        if bad and case["items"][bad[0]]["name"] in changed:
            bad = case["items"][bad[0]]["name"]
            check(isinstance(out.exc, ValueError) and bad in str(out.exc),
                  f"{what}: a malformed table of {bad} gave "
                  f"{out.describe()}")
            check(after == before, lambda: f"{what} with a malformed table "
                  f"of {bad} changed files: {self.changes(before, after)}")
            ctx.label("malformed")
            return True
        check(out.exc is None, f"{what}: {out.describe()}")
        self.mirrored(case, before, after, changed, what)
        ctx.label("updated")
        for kind in set(changed.values()):
            ctx.label(kind)
        if case["default"]:
            self.usable(ctx, case)
        # nothing is left to do
        out, asked, server = self.call(ctx, case, folder, None, False, "y")
        check(out.exc is None, f"second update: {out.describe()}")
        check(not asked, f"the second update asked: {out.out}")
        again = files(folder)
        check(again == after, lambda: "the second update changed files: "
              f"{self.changes(after, again)}")
        return True

    @staticmethod
    def changes(a, b):
        return sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))

    @staticmethod
    def mirrored(case, before, after, changed, what):
        def same(name, tab):
            ref, keys = Tables.expected(tab)
            found = json.loads(after[name + ".json"])
            for e in (found, ref):
                for entry in e.values():
                    entry["comment"] = entry["comment"] or None
            check(found == ref, lambda: f"{what}: {name}.json has other "
                  "content than its table")
        expected = {}
        for i in case["items"]:
            for ending in (".csv", ".json"):
                if i["local"]:
                    sub = "deprecated" if i["local_where"] == "dep" else ""
                    expected.pop(os.path.join(sub, i["name"] + ending), 0)
        touched = set()
        for i in case["items"]:
            other = "" if i["where"] == "dep" else "deprecated"
            sub = "deprecated" if i["where"] == "dep" else ""
            name = os.path.join(sub, i["name"])
            touched |= {name + ".csv", name + ".json"}
            check(name + ".csv" in after and name + ".json" in after,
                  f"{what}: {name} is missing")
            for ending in (".csv", ".json"):
                gone = os.path.join(other, i["name"] + ending)
                touched.add(gone)
                check(gone not in after, f"{what}: {gone} exists")
            check(normal(after[name + ".csv"]) == normal(table(i["now"])),
                  f"{what}: {name}.csv is not the table of the server")
            if i["name"] not in changed:
                check(after[name + ".csv"] == before[name + ".csv"],
                      f"{what}: {name}.csv was changed")
            same(name, i["now"])
        for e in case["extra"]:
            name = os.path.join("deprecated" if e["where"] == "dep" else "",
                                e["name"])
            same(name, e["table"])
            touched.add(name + ".json")
        rest = {k: v for k, v in before.items() if k not in touched}
        found = {k: v for k, v in after.items() if k not in touched}
        check(rest == found, lambda: f"{what}: other files were changed: "
              f"{CHECK.changes(rest, found)}")

    @staticmethod
    def usable(ctx, case):
        from lib import public
        for i in case["items"]:
            rows = {r[0]: r for r in i["now"]["rows"]}
            if "GLOBAL:SOFAConventionsVersion" not in rows or \
                    i["where"] == "dep":
                continue
            name, version = i["name"].split("_")
            o = ctx.ok(f"creating {i['name']}", ctx.sf.Sofa, name,
                       version=version, verify=False)
            found = set(public(o.value))
            names = {k.replace(":", "_").replace(".", "_") for k in rows}
            check(names <= found, f"{i['name']} lacks {names - found}")
            ctx.label("used")
