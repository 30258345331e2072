"""
Reference model of SOFA objects.

`Obj` mirrors the documented behaviour of sofar.Sofa on plain dictionaries.
It is written from the documentation and the properties, uses the convention
fixtures directly and imports nothing from sofar.
"""
import re
import numpy as np
import vals

STANDARD = "ERMNCIS"


def skey(key):
    """Name of an entry in sofar."""
    return key.replace(".", "_").replace(":", "_")


def mandatory(entry):
    return "m" in (entry["flags"] or "")


def readonly(entry):
    return "r" in (entry["flags"] or "")


def options(entry):
    return entry["dimensions"].split(", ")


def definers(entry):
    """True if sizes of dimensions are taken from this entry."""
    d = entry["dimensions"]
    return d is not None and any(
        c.islower() for c in d.split(", ")[0])


def split_unit(text, refs, aliases):
    """
    True if `text` consists, in order, of aliases of the units in `refs`
    separated by comma, comma and space, or space.
    """
    if not refs:
        return text == ""
    for alias, ref in aliases.items():
        if ref == refs[0] and text.startswith(alias):
            rest = text[len(alias):]
            if len(refs) == 1:
                if rest == "":
                    return True
                continue
            for sep in (", ", ",", " "):
                if rest.startswith(sep) and split_unit(
                        rest[len(sep):], refs[1:], aliases):
                    return True
    return False


class Issues:
    """Result of the reference verification."""

    def __init__(self):
        self.missing = []        # mandatory entries
        self.types = []          # entries of wrong type
        self.names = []          # wrong or reserved names
        self.shape_conflict = False
        self.misfits = []        # variables that fit no size at all / others
        self.rules = []          # sets of names, one per violation
        self.units = []          # upper case units (write only)
        self.deprecated = False
        self.preliminary = False
        self.sizes = None

    def fatal(self, handling):
        return bool(self.types) or (handling == "raise" and
                                    bool(self.missing))

    def errors(self, handling, mode):
        return self.fatal(handling) or self.late_errors(mode)

    def late_errors(self, mode):
        return bool(self.names or self.shape_conflict or self.rules or
                    (mode == "write" and (self.units or self.deprecated)))

    def warns(self, handling, mode):
        return bool((self.missing and handling != "raise") or
                    (mode != "write" and self.deprecated) or
                    self.preliminary)

    def clean(self):
        return not (self.missing or self.types or self.names or
                    self.shape_conflict or self.rules or self.units or
                    self.deprecated)

    def __repr__(self):
        return str({k: v for k, v in self.__dict__.items() if v})


class Obj:
    def __init__(self, world, name, version="latest", only_mandatory=False):
        self.world = world
        if version == "latest":
            version = world.latest(name)
        self._load(name, version)
        self.custom = {}
        self.entries = {}
        for key, entry in self.conv.items():
            if mandatory(entry) or not only_mandatory:
                self.entries[key] = self.default(key)
        # filled in upon creation
        self.free = {k for k in (
            "GLOBAL_DateCreated", "GLOBAL_DateModified", "GLOBAL_APIName",
            "GLOBAL_APIVersion", "GLOBAL_ApplicationName",
            "GLOBAL_ApplicationVersion")}
        for key in self.free:
            self.entries.setdefault(key, "")
        self.protected = True

    def _load(self, name, version):
        self.name, self.version = name, version
        self.conv = {skey(k): v
                     for k, v in self.world.by_name[name][version].items()}

    def clone(self):
        new = Obj.__new__(Obj)
        new.__dict__.update(self.__dict__)
        new.entries = dict(self.entries)
        new.custom = {k: dict(v) for k, v in self.custom.items()}
        new.free = set(self.free)
        return new

    def clone_protected(self):
        new = self.clone()
        new.protected = True
        return new

    # -- information ---------------------------------------------------------
    def default(self, key):
        """Reference meaning of the default value, as an array or str."""
        entry = self.conv[key]
        value = entry["default"]
        if entry["type"] == "attribute" or isinstance(value, str):
            return value
        if isinstance(value, list):
            array = np.array(value)
            n = len(options(entry)[0])
            if n > 1 and array.ndim == 1:
                array = array[None]
            return array
        return value

    def entry(self, key):
        return self.conv.get(key) or self.custom.get(key)

    def typ(self, key):
        return self.entry(key)["type"]

    def ndims(self, key):
        d = self.entry(key)["dimensions"]
        return 0 if d is None else len(d.split(", ")[0])

    def variables(self):
        return [k for k in self.entries if self.entry(k)["dimensions"]
                is not None]

    def canon(self, key):
        return vals.canon(self.entries[key], self.typ(key), self.ndims(key))

    def canons(self):
        return {k: self.canon(k) for k in self.entries}

    # -- permitted changes -----------------------------------------------------
    def can_set(self, key):
        if not self.protected:
            return True
        return key in self.entries and not (
            key in self.conv and readonly(self.conv[key]))

    def can_delete(self, key):
        if key not in self.entries:
            return False
        return not self.protected or not (
            key in self.conv and mandatory(self.conv[key]))

    def set(self, key, value):
        self.entries[key] = vals.stored(value)
        self.free.discard(key)

    def delete(self, key):
        del self.entries[key]
        self.custom.pop(key, None)
        self.free.discard(key)

    @staticmethod
    def storable(name, typ):
        """True, if netCDF files can contain this name."""
        parts = name.split("_")
        for part in parts:
            if not part or (part[0].isascii() and not part[0].isalnum()) or \
                    part[-1] == " " or any(c == "/" or c < " " or
                                           c == "\x7f" for c in part):
                return False
        if typ == "attribute":
            return parts[-1] not in ("CLASS", "NAME")
        return "." not in name

    def can_add(self, name, typ, dims, reserved=()):
        """True, if adding is permitted."""
        if name in self.entries or name in reserved:
            return False
        if typ not in ("attribute", "double", "string"):
            return False
        if not self.storable(name, typ):
            return False
        if typ != "attribute":
            if "_" in name or dims is None:
                return False
            if dims and not all(d.isalpha() for d in dims.split(", ")):
                return False
            # strings are stored as characters along the last dimension
            at = dims.upper().find("S")
            return at == (len(dims) - 1 if typ == "string" else -1)
        known = set(self.conv) | set(self.custom)
        if "_" not in name:
            return False
        parent = name[:name.rindex("_")]
        is_data = name.startswith("Data_") and parent in known
        if name.count("_") != (2 if is_data else 1) or name.endswith("_"):
            return False
        return name.startswith("GLOBAL_") or parent in known

    def add(self, name, value, typ, dims):
        if name not in self.conv:
            if dims is not None:
                dims = "".join(d.upper() if d.upper() in STANDARD
                               else d.lower() for d in dims)
            self.custom[name] = {"flags": None, "dimensions": dims,
                                 "type": typ, "default": None,
                                 "comment": ""}
        self.entries[name] = vals.stored(value)
        self.protected = True

    def missing(self, only=None):
        return [k for k, e in self.conv.items() if k not in self.entries and
                (only is None or mandatory(e) == (only == "mandatory"))]

    def add_missing(self, with_mandatory=True, with_optional=True):
        added = [k for k in self.missing()
                 if (with_mandatory and mandatory(self.conv[k])) or
                 (with_optional and not mandatory(self.conv[k]))]
        for key in added:
            self.entries[key] = self.default(key)
        self.protected = True
        return added

    # -- verification ------------------------------------------------------------
    def type_ok(self, key):
        value, typ = self.entries[key], self.typ(key)
        if typ == "attribute":
            return isinstance(value, str)
        if typ == "double":
            if isinstance(value, bool):
                return False
            if isinstance(value, (np.ndarray, np.generic)):
                return value.dtype.kind in "if"
            return isinstance(value, (int, float))
        if isinstance(value, str):
            return True
        return isinstance(value, np.ndarray) and value.dtype.kind in "US"

    def shape(self, key):
        value = self.entries[key]
        if self.typ(key) == "string":
            if isinstance(value, str):
                return ()
            return vals.strip(np.shape(value))
        return vals.row_shape(np.shape(value), self.ndims(key))

    def ambiguous(self, key):
        """Orientation of vectors is not defined where they set sizes."""
        value = self.entries[key]
        return self.ndims(key) > 1 and definers(self.entry(key)) and \
            np.ndim(value) == 1 and np.size(value) > 1

    def string_length(self):
        longest = 0
        for key in self.variables():
            if "S" not in self.entry(key)["dimensions"]:
                continue
            value = np.asarray(self.entries[key])
            if value.dtype.kind == "S":
                value = np.char.decode(value, "utf-8")
            for text in value.flatten().tolist():
                longest = max(longest, len(str(text).encode("utf-8")))
        return longest

    def assignments(self, key):
        """Dimension sizes that fit the variable: list of dicts."""
        out = []
        shape = self.shape(key)
        for option in options(self.entry(key)):
            if len(shape) > len(option):
                continue
            padded = shape + (1,) * (len(option) - len(shape))
            sizes = {}
            for letter, size in zip(option.upper(), padded):
                if letter == "S":
                    ok = size == 1
                elif letter == "C":
                    ok = size == 3
                elif letter == "I":
                    ok = size == 1
                else:
                    ok = sizes.setdefault(letter, size) == size
                if not ok:
                    break
            else:
                out.append(sizes)
        return out

    def solve(self, keys=None):
        """One size per dimension such that all variables fit, or None."""
        todo = []
        for key in (self.variables() if keys is None else keys):
            a = self.assignments(key)
            if not a:
                return None
            todo.append(a)
        todo.sort(key=len)

        def search(i, sizes):
            if i == len(todo):
                return sizes
            for option in todo[i]:
                if all(sizes.get(k, v) == v for k, v in option.items()):
                    found = search(i + 1, {**sizes, **option})
                    if found is not None:
                        return found
            return None
        return search(0, {})

    def value_ok(self, value, ref, key):
        if ref is None:
            return True
        if not isinstance(value, str):
            return False
        if value in ref:
            return True
        if key in ("GLOBAL_DataType", "GLOBAL_SOFAConventions"):
            return False
        if value.lower() in ref:
            return True
        if key.endswith("Units"):
            return split_unit(value.lower(), re.split(", ?", ref[0]),
                              self.world.aliases)
        return False

    def rule_issues(self, sizes):
        out = []
        for key, rule in self.world.rules.items():
            name = skey(key)
            if name not in self.entries:
                continue
            value = self.entries[name]
            if not self.value_ok(value, rule["value"], name):
                out.append({name})
            for dep in rule.get("general", []):
                if skey(dep) not in self.entries:
                    out.append({name, skey(dep)})
            if not isinstance(value, str):
                continue
            specific = rule.get("specific", {})
            if name.endswith("_Type"):
                value = value.lower()
            for dep, ref in specific.get(value, {}).items():
                if dep == "_dimensions":
                    for letter, allowed in ref.items():
                        if sizes is not None and \
                                sizes.get(letter) not in allowed["value"]:
                            out.append({name})
                    continue
                if skey(dep) not in self.entries:
                    out.append({name, skey(dep)})
                elif not self.value_ok(self.entries[skey(dep)], ref,
                                       skey(dep)):
                    out.append({name, skey(dep)})
        return out

    def verify(self, handling="raise"):
        """Return issues; missing data are added unless handling is raise."""
        issues = Issues()
        keys = list(self.entries)
        issues.missing = self.missing("mandatory")
        if handling != "raise":
            for key in issues.missing:
                self.entries[key] = self.default(key)
        issues.types = [k for k in keys if not self.type_ok(k)]
        if issues.fatal(handling):
            return issues
        for key in keys:
            typ = self.typ(key)
            if typ == "attribute":
                bad = "_" not in key or (
                    not key.startswith("GLOBAL_") and
                    key[:key.rindex("_")] not in self.entries)
            else:
                bad = "_" in key.replace("Data_", "")
            bad = bad or key.startswith(("PRIVATE", "API"))
            bad = bad or (key.startswith("GLOBAL") and (
                not key.startswith("GLOBAL_") or typ != "attribute"))
            if bad:
                issues.names.append(key)
        normative = {k.replace("GLOBAL_", "") for k in self.conv}
        for key in self.custom:
            if key.replace("GLOBAL_", "") in normative \
                    and key not in issues.names:
                issues.names.append(key)
        sizes = self.solve()
        issues.shape_conflict = sizes is None
        if sizes is not None:
            sizes = dict(sizes, C=3, I=1, S=self.string_length())
        issues.sizes = sizes
        issues.rules = self.rule_issues(sizes)
        for key in self.entries:
            if key.endswith("Units") and self.typ(key) == "attribute" \
                    and self.entries[key].lower() != self.entries[key]:
                issues.units.append(key)
        issues.deprecated = \
            self.name in self.world.deprecations["GLOBAL:SOFAConventions"]
        issues.preliminary = float(self.version) < 1
        return issues

    # -- upgrading ---------------------------------------------------------------
    def targets(self):
        """Possible targets of an upgrade."""
        up = self.world.upgrades.get(self.name)
        if up is None:
            return None
        for versions, targets, _ in up["from_to"]:
            if self.version in versions:
                return targets
        return None

    def rule(self, target):
        up = self.world.upgrades[self.name]
        return up[next(r for v, t, r in up["from_to"]
                       if self.version in v and target in t)]

    def convert(self, name, version):
        """Another convention, the data stay as they are."""
        self._load(name, version)
        for key in list(self.custom):
            if key in self.conv:
                del self.custom[key]

    def upgrade(self, target):
        rule = self.rule(target)
        old = self.conv
        self.convert(*target.split("_"))
        for key in ("GLOBAL_SOFAConventions", "GLOBAL_SOFAConventionsVersion",
                    "GLOBAL_Version", "GLOBAL_DataType"):
            self.entries[key] = self.conv[key]["default"]
        moved = {}
        for source, move in rule["move"].items():
            source = skey(source)
            if source not in self.entries:
                continue
            value = self.entries.pop(source)
            self.custom.pop(source, None)
            if move["moveaxis"] is not None:
                axes = move["moveaxis"]
                n = len(options(old[source])[0])
                value = np.asanyarray(value)
                if value.ndim == 0:
                    value = value.reshape((1,) * n)
                elif value.ndim == 1:
                    value = value[None]
                value = value.reshape(
                    value.shape + (1,) * (n - value.ndim))
                value = np.moveaxis(value, axes[0], axes[1])
            moved[skey(move["target"])] = value
            self.entries[skey(move["target"])] = value
        removed = []
        for key in rule["remove"]:
            if skey(key) in self.entries:
                removed.append(skey(key))
                del self.entries[skey(key)]
                self.custom.pop(skey(key), None)
        added = self.add_missing(True, False)
        return moved, removed, added
