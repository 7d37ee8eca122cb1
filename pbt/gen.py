"""Hypothesis strategies for specs, raw values and JSON payloads."""

from typing import Any, Dict, List, Optional, Sequence

from hypothesis import strategies as st

from pbt import codec, spec as S

IDENTS = ["a", "b", "c", "d", "e", "f", "g", "h", "name", "value", "id", "kind", "items", "keys", "values", "get", "copy", "fooBar", "count", "index", "data", "config", "type_", "T", "cls", "fields", "schema", "ctx", "obj", "match"]
ALIASES = ["full-name", "Foo Bar", "$id", "a.b", "ключ", "x-y", "class", "0", "@type", "fullName", "some/path", "_", "NAME", "ü", "from", "a'b", 'q"q', "None", "key", "Key('x')", " "]
WORDS = ["", "a", "b", "x", "true", "false", "yes", "no", "null", "None", "0", "1", "-1", "1.5", "abc", "Hello, World!", "type", "2020-01-01", "é", "\U0001f600", "\u2028", "\x00", "\ud800", "nan", "1e5", " 1 ", "~", "[]", "{}", "/", "YQ==", "~x"]


@st.composite
def _drawn(draw, fn):
    return fn(draw)


def drawn(fn):
    """Like `st.composite`, which is expensive to apply, for local functions."""

    return lambda: _drawn(fn)


def texts():
    return st.one_of(st.sampled_from(WORDS), st.text(max_size=8), st.text("abcXYZ019 _-", max_size=6))


def plain_texts():
    return st.one_of(st.sampled_from(["a", "b", "x", "yes", "1", ""]), st.text("abcxyz01", max_size=4))


def ints():
    return st.one_of(
        st.integers(-3, 10),
        st.integers(),
        st.sampled_from([2**31, -(2**31) - 1, 2**53 + 1, 2**63, -(2**63), 2**64 + 1, 10**30, -(10**18) - 7]),
    )


def floats():
    return st.one_of(
        st.floats(allow_nan=False, allow_infinity=False),
        st.sampled_from([0.0, -0.0, 1.0, -1.0, 0.1, 1e300, 5e-324, 2.0**53, 1.5]),
    )


def all_floats():
    return st.one_of(floats(), st.sampled_from([float("nan"), float("inf"), float("-inf")]))


def json_scalars(nonfinite: bool = False):
    return st.one_of(st.none(), st.booleans(), ints(), all_floats() if nonfinite else floats(), texts())


def json_values(max_leaves: int = 8, nonfinite: bool = False):
    return st.recursive(
        json_scalars(nonfinite),
        lambda c: st.one_of(
            st.lists(c, max_size=4),
            st.dictionaries(st.one_of(st.sampled_from(IDENTS + ALIASES + ["type"]), texts()), c, max_size=4),
        ),
        max_leaves=max_leaves,
    )


@st.composite
def decimals(draw):
    how = draw(st.integers(0, 9))
    if how == 4:
        # More digits than fit into the default context
        n = draw(st.integers(26, 60))
        return draw(st.sampled_from(["", "-"])) + str(draw(st.integers(10 ** (n - 1), 10**n - 1))) + draw(st.sampled_from(["", "", ".0", ".5", "E+3", "E-2"]))
    if how == 0:
        return draw(st.sampled_from(["0", "-0", "0.00", "1E+5", "1E-20", "-1.10", "Infinity", "-Infinity", "NaN", "sNaN", "123456789012345678901234567890.1234567890", "1E+999999", "100", "1E+2"]))
    digits = draw(st.integers(-(10**40), 10**40) if how < 4 else st.integers(-10000, 10000))
    exp = draw(st.integers(-50, 20) if how < 4 else st.integers(-3, 2))
    import decimal

    return str(decimal.Decimal(digits).scaleb(exp, decimal.Context(prec=100)))


def raw_scalar(k: str):
    import datetime

    if k == "int":
        return ints()
    if k == "float":
        return floats()
    if k == "bool":
        return st.booleans()
    if k == "str":
        return texts()
    if k == "bytes":
        return st.one_of(st.binary(max_size=9), st.sampled_from([b"", b"\xff\xfe\xfd", b"\xfb\xff\xbf", b"abc", bytes(range(256))]))
    if k == "decimal":
        return decimals()
    if k == "date":
        return st.dates().map(lambda d: (d.year, d.month, d.day))
    micros = st.one_of(st.just(0), st.integers(0, 999999), st.sampled_from([1, 10, 100, 1000, 10000, 100000, 999999]))
    time = st.tuples(st.integers(0, 23), st.integers(0, 59), st.integers(0, 59), micros)
    if k == "time":
        return time
    if k == "datetime":
        tz = st.one_of(st.none(), st.just(0), st.integers(-1439, 1439), st.sampled_from([-30, -1, 1, 59, 60, -60, 330, -570]))
        return st.tuples(st.dates().map(lambda d: (d.year, d.month, d.day)), time, tz).map(lambda x: (*x[0], *x[1], x[2]))
    if k == "duration":
        n = st.one_of(st.just(0), st.integers(0, 30), st.integers(0, 100000))
        return st.tuples(n, n, n, n, n, n, n, st.just(0))
    if k == "uuid":
        return st.one_of(st.integers(0, 2**128 - 1), st.integers(0, 255))
    if k in ("path", "purepath"):
        import pathlib

        return st.one_of(
            st.sampled_from([".", "/", "a", "/a/b", "../x", "a b/c.txt", "//host/x", "C:\\x", "~/y", "é/ü"]),
            st.text("ab/._ ", max_size=8),
        ).map(lambda s: str(pathlib.PurePosixPath(s)))
    if k == "winpath":
        import pathlib

        return st.one_of(
            st.sampled_from(["C:\\x\\y", "a/b", "\\\\host\\share\\x", "d:", "."]), st.text("aC:/\\. ", max_size=8)
        ).map(lambda s: str(pathlib.PureWindowsPath(s)))
    if k in ("any", "object"):
        return json_values(5)
    raise AssertionError(k)


def sized(items, n: int, s, depth: int):
    """Lists of up to *n* items, or some that are a lot longer if the items are of a simple type."""

    lists = st.lists(items, max_size=n)
    if depth < 2 and (s[0] in S.SCALARS and s[0] not in ("any", "object") or s[0] in ("enum", "intenum", "literal")):
        return st.integers(0, 9).flatmap(lambda i: st.lists(items, min_size=n, max_size=24) if i == 7 else lists)
    return lists


def raws(s, defs: Optional[Dict[str, Any]] = None, depth: int = 0):
    """A strategy for raw values of the spec."""

    defs = S.definitions(s) if defs is None else defs
    k = s[0]
    n = 4 if depth < 2 else 2
    if k in S.SCALARS:
        return raw_scalar(k)
    if k == "literal":
        return st.sampled_from(s[1])
    if k in ("enum", "intenum"):
        return st.sampled_from([m for m, _ in s[2]])
    if k == "newtype":
        return raws(s[2], defs, depth)
    if k == "ann":
        return raws(s[1], defs, depth)
    if k == "das":
        return raws(s[3], defs, depth)
    if k == "sub":
        return raw_scalar(s[2])
    if k in S.COLLECTIONS:
        if S.is_set(s) and s[1][0] in ("any", "object"):
            return st.lists(json_scalars(), max_size=n)
        return sized(st.deferred(lambda: raws(s[1], defs, depth + 1)), n, s[1], depth)
    if k == "tuple":
        return st.tuples(*[raws(c, defs, depth + 1) for c in s[1]]).map(list)
    if k in S.MAPPINGS:
        # Two raw keys may stand for the same key.
        pairs = st.tuples(raws(s[1], defs, depth + 1), st.deferred(lambda: raws(s[2], defs, depth + 1))).map(list)
        return sized(pairs, n, s[2], depth)
    if k == "opt":
        inner = raws(s[1], defs, depth + 1).map(lambda x: [x])
        if depth > 6:
            return st.none()
        if s[1][0] in ("any", "object"):
            # None can not be told apart from an absent value.
            inner = inner.filter(lambda x: x[0] is not None)
        if s[1][0] == "literal" and None in s[1][1]:
            inner = inner.filter(lambda x: x[0] is not None)
        return st.one_of(st.none(), inner)
    if k == "union":
        return st.one_of(*[raws(m, defs, depth + 1).map(lambda x, i=i: [i, x]) for i, m in enumerate(s[1])])
    if k == "ref":
        return st.deferred(lambda: raws(defs[s[1]], defs, depth + 1))
    if k in S.STRUCTS:
        return raw_struct(s, defs, depth)
    if k == "dunion":
        return st.one_of(*[raws(m, defs, depth + 1).map(lambda x, i=i: [i, x]) for i, m in s[5]])
    if k == "conv":
        return texts()
    raise AssertionError(k)


@st.composite
def raw_struct(draw, s, defs, depth):
    out = {}
    fields = S.struct_fields(s)
    keys = set()
    for f in fields:
        if f.get("rem"):
            continue
        keys.update(read_keys_deep(f, defs))
        if s[0] == "td" and not s[3] and draw(st.booleans()):
            continue
        if depth > 5 and "d" in f:
            out[f["n"]] = f["d"][0]
            continue
        if "d" in f and draw(st.integers(0, 3)) == 0:
            out[f["n"]] = f["d"][0]
            continue
        out[f["n"]] = draw(raws(f["t"], defs, depth + 1))
    for f in fields:
        if f.get("rem"):
            # The remainder must not collide with any of the other keys.
            pairs = draw(raws(f["t"], defs, depth + 1))
            taken = {a for a, _ in pairs}
            for g in fields:
                # The name of a field that goes by an alias is a key like any other.
                if g is not f and g.get("al") and g["n"] not in keys and g["n"] not in taken and f["t"][1] == ["str"] and draw(st.booleans()):
                    pairs = [*pairs, [g["n"], draw(raws(f["t"][2], defs, depth + 2))]]
            out[f["n"]] = [[a, b] for a, b in pairs if a not in keys]
    return out


def read_keys_deep(f, defs) -> List[str]:
    if f.get("flat"):
        t = f["t"]
        while t[0] in ("ann", "ref"):
            t = t[1] if t[0] == "ann" else defs[t[1]]
        return [k for g in S.struct_fields(t) for k in read_keys_deep(g, defs)]
    return S.read_keys(f)


# ------------------------------------------------------------------------------------------------- specs

LEAVES = ["int", "float", "bool", "str", "bytes", "decimal", "date", "time", "datetime", "duration", "uuid", "path", "purepath", "winpath", "any", "object"]
HASHABLE = ["int", "bool", "str", "bytes", "date", "time", "uuid", "path", "winpath"]
KEYS = ["str", "str", "str", "enum", "uuid", "date", "path", "bytes", "literal_str", "newtype_str", "decimal_key"]


@st.composite
def enums(draw):
    names = draw(st.lists(st.sampled_from(["RED", "GREEN", "blue", "A", "B", "x", "CAT", "DOG", "LION", "value_1", "ON"]), min_size=1, max_size=4, unique=True))
    pool = [a for a in ["red", "Kitty", "0", "on", "foo-bar", "LOWE", "ñ", "", "x y", "cat"] if a not in names]
    al = draw(st.lists(st.sampled_from(pool), max_size=len(pool), unique=True))
    members = []
    for n in names:
        mine = [al.pop() for _ in range(draw(st.integers(0, 2))) if al]
        members.append([n, mine])
    return ["enum", None, members]


@st.composite
def intenums(draw):
    names = draw(st.lists(st.sampled_from(["ONE", "TWO", "a", "b", "Z"]), min_size=1, max_size=4, unique=True))
    values = draw(st.lists(st.integers(-5, 300), min_size=len(names), max_size=len(names), unique=True))
    return ["intenum", None, [list(p) for p in zip(names, values)]]


@st.composite
def literals(draw, kinds: Sequence[str] = ("str", "int", "bool", "none")):
    pool = {
        "str": ["a", "b", "A", "", "yes", "x y", "2", "-1", "100000000000000000000", "True", "false", "None", "null", "0"],
        "int": [2, 3, -1, 10**20],
        "bool": [True, False],
        "none": [None],
    }
    values = []
    for k in draw(st.lists(st.sampled_from(list(kinds)), min_size=1, max_size=3, unique=True)):
        values.extend(draw(st.lists(st.sampled_from(pool[k]), min_size=1, max_size=2, unique=True)))
    return ["literal", values]


@st.composite
def key_specs(draw):
    k = draw(st.sampled_from(KEYS))
    if k == "enum":
        return draw(enums())
    if k == "literal_str":
        return draw(literals(("str",)))
    if k == "newtype_str":
        return ["newtype", None, ["str"]]
    if k == "decimal_key":
        return ["newtype", None, ["uuid"]]
    return [k]


class Gen:
    """Options: which kinds of types to use below the root."""

    def __init__(self, depth: int = 3, structs: bool = True, leaves: Optional[List[str]] = None, recursion: bool = True, unions: bool = True) -> None:
        self.depth = depth
        self.structs = structs
        self.leaves = leaves or LEAVES
        self.recursion = recursion
        self.unions = unions

    def spec(self):
        return self._spec(self.depth, False).map(S.rename)

    def leaf(self):
        return st.one_of(
            st.sampled_from(self.leaves).map(lambda k: [k]),
            st.sampled_from(self.leaves).map(lambda k: [k]),
            enums(),
            st.one_of(intenums(), literals(), st.just(["conv", None]), st.sampled_from(list(S.SUBS)).map(lambda k: ["sub", None, k])),
        )

    def hashable(self):
        return st.one_of(st.sampled_from(HASHABLE).map(lambda k: [k]), enums(), intenums(), st.sampled_from([["any"], ["sub", None, "uuid"], ["sub", None, "purepath"]]), st.sampled_from(HASHABLE).map(lambda k: ["vtuple", [k]]), st.sampled_from(HASHABLE).map(lambda k: ["opt", [k]]))

    def _spec(self, depth: int, owner: bool):
        @drawn
        def go(draw):
            if depth <= 0:
                return draw(self.leaf())
            choice = draw(st.integers(0, 19 if self.structs else 11))
            sub = self._spec(depth - 1, owner)
            if choice <= 1:
                return draw(self.leaf())
            if choice <= 3:
                k = draw(st.sampled_from(["list", "list", "deque", "seq", "coll", "mutseq", "vtuple", "ccoll"]))
                if k == "ccoll":
                    how = draw(st.sampled_from(list(S.CCOLL)))
                    item = ["list", draw(sub)] if how == "nested" else draw(sub)
                    return [k, item, None, draw(st.sampled_from(["list", "list", "deque"])), how]
                return [k, draw(sub)]
            if choice == 4:
                k = draw(st.sampled_from(["set", "frozenset", "aset", "mutset", "ccoll"]))
                if k == "ccoll":
                    how = draw(st.sampled_from([h for h in S.CCOLL if h != "nested"]))
                    return [k, draw(self.hashable()), None, draw(st.sampled_from(["set", "frozenset"])), how]
                return [k, draw(self.hashable())]
            if choice == 5:
                return ["tuple", draw(st.lists(sub, max_size=3))]
            if choice <= 7:
                k = draw(st.sampled_from(["dict", "dict", "mapping", "mutmapping", "odict", "ddict", "cmap"]))
                if k == "cmap":
                    how = draw(st.sampled_from(list(S.CMAP)))
                    key = draw(key_specs())
                    if how == "same" and key[0] in ("newtype", "enum"):
                        key = ["str"]
                    value = key if how == "same" else ["list", draw(sub)] if how == "items" else draw(sub)
                    return [k, key, value, None, draw(st.sampled_from(["dict", "odict", "ddict"])), how]
                return [k, draw(key_specs()), draw(sub)]
            if choice <= 9:
                inner = draw(sub)
                return inner if inner[0] in ("opt", "any", "object") or inner[0] == "literal" and None in inner[1] else ["opt", inner]
            if choice == 10:
                inner = draw(sub)
                return ["ann", inner] if inner[0] != "ann" else inner
            if choice == 11:
                if self.unions and draw(st.booleans()):
                    return draw(self.plain_union(depth - 1))
                return ["newtype", None, draw(st.sampled_from(["int", "str", "date", "bool", "decimal"]).map(lambda k: [k]))]
            if choice <= 15:
                return draw(self.dataclass(depth))
            if choice == 16:
                # What happens to optional keys of an optional type is not specified.
                total = draw(st.booleans())
                return ["td", None, draw(self.fields(depth - 1, owner=False, defaults=False, optional=total)), total]
            if choice == 17:
                fs = draw(self.fields(depth - 1, owner=False, defaults=False, optional=False))
                return ["nt", None, fs] if fs else ["nt", None, [{"n": "a", "t": ["int"]}]]
            if choice == 18:
                return draw(self.generic(depth - 1))
            if self.unions:
                return draw(self.dunion(depth - 1))
            return draw(self.dataclass(depth))

        return go()

    @st.composite
    @staticmethod
    def _fields(draw, self, depth, owner, defaults, optional, min_size=0, max_size=4, names=None, taken=()):
        names = draw(st.lists(st.sampled_from(names or IDENTS), min_size=min_size, max_size=max_size, unique=True))
        used = set(taken) | set(names)
        plain, with_default = [], []
        for n in names:
            t = draw(self._spec(depth, owner))
            if owner and self.recursion and draw(st.integers(0, 9)) == 0:
                t = draw(st.sampled_from([["opt", ["ref", None]], ["list", ["ref", None]], ["dict", ["str"], ["ref", None]]]))
            f: Dict[str, Any] = {"n": n, "t": t}
            if draw(st.integers(0, 3)) == 0:
                pool = [a for a in ALIASES + IDENTS if a not in used]
                al = draw(st.lists(st.sampled_from(pool), min_size=1, max_size=3, unique=True))
                used.update(al)
                f["al"] = al
            if not optional and S.is_opt(t):
                while t[0] in ("ann", "opt"):
                    t = t[1]
                f["t"] = t
            if t[0] == "opt" and draw(st.integers(0, 4)) == 0 and defaults:
                f["req"] = True
            has_ref = any(x[0] == "ref" for x in S.walk(t))
            if defaults and not has_ref and draw(st.integers(0, 2)) == 0 and f.get("req") is None:
                f["d"] = [draw(raws(S.rename(f["t"]), None, 4))]
                with_default.append(f)
            elif defaults and t[0] in ("opt", "list", "dict") and t[-1][0] == "ref" and draw(st.booleans()):
                f["d"] = [None] if t[0] == "opt" else [[]]
                with_default.append(f)
            else:
                plain.append(f)
        return plain + with_default

    def fields(self, depth, owner=True, defaults=True, optional=True, **kw):
        return self._fields(self, depth, owner, defaults, optional, **kw)

    def dataclass(self, depth):
        @drawn
        def go(draw):
            fs = draw(self.fields(depth - 1))
            # A required reference to the class itself would make it impossible to create a value.
            opts: Dict[str, Any] = {}
            flag = draw(st.integers(0, 9))
            if flag == 0:
                opts["frozen"] = True
            elif flag == 1:
                opts["slots"] = True
            elif flag == 2:
                opts["extra"] = draw(st.booleans())
            return ["dc", None, fs, opts]

        return go()

    def generic(self, depth):
        @drawn
        def go(draw):
            n = draw(st.integers(1, 2))
            args = [draw(self._spec(min(depth, 1), False)) for _ in range(n)]
            # Types that are declared need to be shared by all uses of the argument.
            args = [a if not any(x[0] in ("dc", "td", "nt", "gdc", "dunion", "enum", "intenum", "conv", "newtype", "ccoll", "cmap", "sub") for x in S.walk(a)) else ["list", ["int"]] for a in args]
            names = draw(st.lists(st.sampled_from(IDENTS), min_size=n, max_size=n + 2, unique=True))
            fs = []
            for i, name in enumerate(names):
                tv = ["tv", i % n]
                t = draw(st.sampled_from([tv, tv, ["list", tv], ["dict", ["str"], tv], ["tuple", [tv, ["int"]]], ["vtuple", tv]]))
                fs.append({"n": name, "t": t})
            return ["gdc", None, fs, args]

        return go()

    def plain_union(self, depth):
        """Members with disjoint wire forms, so that the first one that accepts a payload is the one it came from."""

        @drawn
        def go(draw):
            pool = draw(st.permutations(["num", "str", "bool", "list", "map"]))[: draw(st.integers(2, 4))]
            members = []
            for p in pool:
                if p == "num":
                    members.append([draw(st.sampled_from(["int", "float"]))])
                elif p == "str":
                    members.append(draw(st.one_of(st.sampled_from(["str", "bytes", "decimal", "date", "time", "datetime", "uuid"]).map(lambda k: [k]), enums())))
                elif p == "bool":
                    members.append(["bool"])
                elif p == "list":
                    members.append(["list", draw(self._spec(min(depth, 1), False))])
                else:
                    members.append(draw(st.one_of(self.dataclass(min(depth, 1)), st.just(["dict", ["str"], ["int"]]))))
            return ["union", members]

        return go()

    def dunion(self, depth, styles=("nested", "flat", "keyed"), hows=("class", "annotated")):
        @drawn
        def go(draw):
            style = draw(st.sampled_from(list(styles)))
            how = draw(st.sampled_from(list(hows)))
            dkey = draw(st.sampled_from(["type", "type", "kind", "$type", "t"]))
            # A union of a single type is no union for Python.
            ids = draw(st.lists(st.sampled_from(["a", "b", "c", "Foo", "foo", "my-type", "x.y", "ü", "", "0"]), min_size=1 if how == "class" else 2, max_size=3, unique=True))
            if how == "class":
                ids = [i or "empty" for i in ids]  # The name of the class stands in for an empty id.
            nkey = draw(st.sampled_from([None, "spec", "with", "data"])) if style == "nested" else None
            members = []
            seen = set()
            for i in ids:
                scalar = draw(st.sampled_from(["int", "str", "float", "bool", "uuid"]))
                if how == "annotated" and style != "flat" and draw(st.integers(0, 2)) == 0 and scalar not in seen:
                    seen.add(scalar)
                    members.append([i, [scalar]])
                else:
                    fs = draw(self.fields(depth - 1, owner=False, taken=(dkey,), names=[x for x in IDENTS if x != dkey], max_size=3))
                    opts = {"extra": True} if draw(st.integers(0, 7)) == 0 else {}
                    members.append([i, ["dc", None, fs, opts]])
            return ["dunion", None, style, dkey, nkey, members, how]

        return go()


def styles():
    return st.fixed_dictionaries({"future": st.booleans(), "modern": st.booleans()})


# ------------------------------------------------------------------------------------------------- payloads

INVALID = st.one_of(
    json_scalars(True),
    st.sampled_from([[], {}, [[]], [{}], {"type": "a"}, {"a": 1}, ["a"], "2020-13-45", "not a date", 1.0, -1.0, 10**400, True, False, "x" * 20]),
    json_values(4, True),
)


@st.composite
def mutated(draw, payload, steps: int = 2, values=INVALID):
    """Changes a few places of the JSON payload."""

    payload = S.copy_json(payload)
    for _ in range(draw(st.integers(1, steps))):
        paths: List[Any] = [()]

        def collect(v, path):
            if isinstance(v, dict):
                for k, x in v.items():
                    paths.append(path + (k,))
                    collect(x, path + (k,))
            elif isinstance(v, list):
                for i, x in enumerate(v):
                    paths.append(path + (i,))
                    collect(x, path + (i,))

        collect(payload, ())
        path = draw(st.sampled_from(paths))
        op = draw(st.integers(0, 5))
        if not path and op in (0, 1, 2) and len(paths) > 1:
            path = draw(st.sampled_from(paths[1:]))
        parent = payload
        for p in path[:-1]:
            parent = parent[p]
        target = parent[path[-1]] if path else payload
        if op == 0 and path:
            del parent[path[-1]]
            continue
        if op in (1, 2) and isinstance(target, dict):
            target[draw(st.one_of(st.sampled_from(IDENTS + ALIASES + ["type"]), texts()))] = S.copy_json(draw(values))
            continue
        if op in (1, 2) and isinstance(target, list):
            target.insert(draw(st.integers(0, len(target))), S.copy_json(draw(values)))
            continue
        if op == 3 and isinstance(target, str) and target:
            i = draw(st.integers(0, len(target) - 1))
            new: Any = target[:i] + draw(st.sampled_from(["", "x", "0", "-", " ", "é", "9"])) + target[i + 1 :]
        elif op == 3 and type(target) is int:
            new = draw(st.sampled_from([target + 1, float(target) if abs(target) < 2**53 else 0.5, str(target) if abs(target) < 10**100 else "1", target + 0.5 if abs(target) < 2**50 else 0.25]))
        elif op == 4 and isinstance(target, dict) and target:
            k = draw(st.sampled_from(list(target)))
            v = target.pop(k)
            target[draw(st.sampled_from(IDENTS + ALIASES + ["type"]))] = v
            continue
        else:
            new = draw(values)
        if path:
            parent[path[-1]] = S.copy_json(new)
        else:
            payload = S.copy_json(new)
    return payload


EVERYTHING = [
    None, True, False, 0, 1, -1, 2, 17, 2**53, 2**53 + 1, 10**20, 10**400, -0.0, 0.0, 0.5, 1.0, -1.0, 3.0, 1e20, 1e300, 5e-324,
    float("nan"), float("inf"), float("-inf"), *WORDS, "True", "False", "TRUE", "NULL", "0.0", "-0", "+1", "1_000", "0x10", "1,5", ".5",
    "5.", "1e400", "Infinity", "-inf", "NaN", "sNaN", "2020-1-1", "2020-02-30", "20200101", "2020-01-01T00:00:00", "2020-01-01 00:00:00",
    "2020-01-01T00:00:00Z", "2020-01-01T25:00:00", "10:00", "10:00:00", "25:00:00", "P1D", "PT1H", "P", "-P1D", "YQ", "YQ=", "YQ==YQ==",
    "6ba7b810-9dad-11d1-80b4-00c04fd430c8", "6ba7b8109dad11d180b400c04fd430c8", "{6ba7b810-9dad-11d1-80b4-00c04fd430c8}",
    "urn:uuid:6ba7b810-9dad-11d1-80b4-00c04fd430c8", "6ba7b810", "C:\\x", "a\\b", "../x", "RED", "Red", "red", "A", "ONE",
    [], [[]], [None], [0], ["a"], [1, 2], [1.0], ["a", "b"], [["a", 1]], [["a", 1], ["b", 2]], [True], [{}], {}, {"": 1}, {"a": 1},
    "name", "value", "mro", "__class__", "__name__", "__members__", "__doc__", "real", "keys",
    {"a": None}, {"1": 1}, {"type": "a"}, {"value": 1}, {"RED": 1}, {"2020-01-01": "2020-01-01"}, {"a": {"a": 1}}, {"a": [1]},
]


def nodes(v) -> int:
    """The number of values that the data consists of."""

    return 1 + sum(map(nodes, v.values() if isinstance(v, dict) else v)) if isinstance(v, (dict, list, tuple)) else 1


# Not from JSON, but of the types that payloads consist of in Python
UNUSUAL = [(), (1,), (1, 2), ("a",), b"", b"abc", {1: 2}, {None: 1}, {b"k": 1}, {("a",): 1}, {True: False}, {1.5: "a", "a": 1}, [()], [b""], {"a": ()}]


def lookalikes(v) -> List[Any]:
    """Payloads that are easily taken for another one."""

    out: List[Any] = [[v], {"value": v}, {str(v)[:20]: v}]
    if isinstance(v, bool) or v is None:
        out += [str(v), str(v).lower(), int(v or 0), float(v or 0), str(int(v or 0))]
    elif isinstance(v, int):
        if abs(v) < 10**300:
            out += [str(v), f" {v}", f"+{v}", f"{v}.0", float(v), v + 1, -v, v + 0.5, hex(v), f"{v}e0"]
    elif isinstance(v, float):
        out += [str(v), repr(-v), -v]
        if v == v and abs(v) < 1e300:
            out += [int(v), f"{v:f}", v * 2, int(v) + 0.5]
    elif isinstance(v, str):
        out += [v + " ", " " + v, v + "\t", "\t" + v, v.upper(), v.lower(), v.swapcase(), v.title(), v[:-1], v[1:], v + v, v + "x", "~" + v]
        out += ["0" + v, v + "0", "+" + v, "-" + v, f'"{v}"', f"'{v}'", v.replace("-", ""), v.replace("-", "_"), v.replace("T", " ")]
        out += [v.replace(":", ""), v.replace("=", ""), v.replace("/", "\\"), v.replace("\\", "/"), v.encode("utf-8", "replace").hex(), list(v[:4])]
        out += [x for f in (int, float) for x in _try(f, v)] + {"true": [True], "false": [False], "none": [None], "null": [None]}.get(v.lower(), [])
    elif isinstance(v, list):
        out += [v + v, v[:-1], v[1:], v[::-1], v + [None], {str(i): x for i, x in enumerate(v)}, [[x] for x in v], v[0] if v else None]
        try:
            out += [dict(v)] if all(isinstance(x[0], str) for x in v) else []
        except (TypeError, ValueError, KeyError, IndexError):
            pass
    elif isinstance(v, dict):
        out += [list(v), list(v.values()), [[a, b] for a, b in v.items()], {**v, "": 1}, {**v, "x": None}, {a.upper(): b for a, b in v.items()}]
        out += [{a: x for a, x in v.items() if a != b} for b in list(v)[:3]] + [{**v, b: None} for b in list(v)[:3]] + [{**v, b: [v[b]]} for b in list(v)[:3]]
    return out


def places(v, path=()):
    yield path
    if isinstance(v, list):
        for i, x in enumerate(v):
            yield from places(x, path + (i,))
    elif isinstance(v, dict):
        for k, x in v.items():
            yield from places(x, path + (k,))


def replaced(v, path, new):
    if not path:
        return new
    v = v.copy()
    v[path[0]] = replaced(v[path[0]], path[1:], new)
    return v


def _try(f, v):
    try:
        return [f(v)]
    except (ValueError, OverflowError):
        return []


EXOTIC = st.one_of(
    st.sampled_from([(), (1, 2), b"abc", b"", {1: 2}, {None: 1, "a": 2}, {1.5: "a"}, {("a",): 1}, {b"k": 1}, {True: False}, [(1,)], {"a": (1, 2)}]),
    st.tuples(json_scalars(True), json_scalars(True)),
    st.dictionaries(st.one_of(st.integers(-2, 5), st.none(), st.booleans(), st.binary(max_size=2), st.text(max_size=2)), json_scalars(True), max_size=3),
)


def wire_of(s, style, raw) -> Any:
    """The payload for a value, by the reference semantics."""

    try:
        with S.World(s, style) as w:
            return S.wire_text(w.ref_dump(s, w.build(s, raw)))
    except Exception:
        # Not known to the reference; or the code under test fails already on the definition of the types, which is
        # for the check to report.
        return None


@st.composite
def payloads(draw, s, style, exotic: bool = False, valid: int = 2, mutate: int = 6, random: int = 2):
    """JSON payloads for the spec: (how it was made, payload)."""

    how = draw(st.sampled_from(["valid"] * valid + ["mutated"] * mutate + ["random"] * random))
    if how == "random":
        return how, draw(st.one_of(INVALID, EXOTIC) if exotic else INVALID)
    wire = wire_of(s, style, draw(raws(s)))
    if how == "valid":
        return how, wire
    return how, draw(mutated(wire, 3, st.one_of(INVALID, INVALID, EXOTIC) if exotic else INVALID))
