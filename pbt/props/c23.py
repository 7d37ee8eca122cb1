import enum
import itertools
import json
import sys
import types

from hypothesis import strategies as st

from databind.core import Strict
from databind.json import get_object_mapper

from pbt import codec, gen
from pbt.util import Info, Part, attempt, check

ID = "C23"
TECHNIQUE = "property-based testing: generated enumerations against an own table of names, aliases and numbers"
RULE = (
    "A case is an enumeration (plain, integer, with a data type mixed in, string enumeration; members with any kind of value, "
    "further names for the same member, aliases, own methods; declared as class, by the functional API or inheriting "
    "methods) and a place where it is used. All members are dumped, and every name, alias, value, number and a few generated "
    "payloads are loaded; results have to be the ones of a table made from the declaration. Non-trivial: at least two members."
)
ASSUMPTIONS = ["Declarations in which an alias is the alias of another member, or the name of a member that has no alias, and flags, are outside of the domain."]

NAMES = ["RED", "GREEN", "blue", "A", "B", "x", "CAT", "value_1", "on", "é", "T", "items", "keys", "class_", "Key", "ON"]
ODD_NAMES = ["foo bar", "a-b", "0", "x.y", "ключ", "class", "None"]
ALIASES = ["red", "Kitty", "0", "1", "On", "foo-bar", "LOW", "ñ", "", "x y", "cat", "true", "null", "a'b", 'q"', "RED ", "2"]
MIXIN = {
    "plain": "enum.Enum",
    "int": "enum.IntEnum",
    "str": "str, enum.Enum",
    "intmix": "int, enum.Enum",
    "strenum": "enum.StrEnum",
    "float": "float, enum.Enum",
}
counter = itertools.count()


@st.composite
def enums(draw):
    kind = draw(st.sampled_from(["plain", "plain", "plain", "int", "int", "str", "intmix", "strenum", "float"]))
    how = draw(st.sampled_from(["class", "class", "class", "class", "inherits", "functional"]))
    names = draw(st.lists(st.sampled_from(NAMES if how != "functional" else NAMES + ODD_NAMES), min_size=1, max_size=5, unique=True))
    value = {
        "plain": st.one_of(st.integers(-2, 3), st.sampled_from(["a", "RED", "x", None, True, 1.5, (1, 2)]), st.just("auto")),
        "int": st.one_of(st.integers(-3, 4), st.integers(), st.sampled_from([0, 1, 2**63, -(10**20)])),
        "intmix": st.integers(-3, 5),
        "str": st.sampled_from(["a", "RED", "x", "", "B", "1"]),
        "strenum": st.sampled_from(["a", "RED", "x", "", "B", "auto"]),
        "float": st.sampled_from([0.0, 1.0, 1.5, -2.5]),
    }[kind]
    pool = [a for a in ALIASES if a not in names]
    pool = draw(st.permutations(pool))
    members = []
    for n in names:
        aliases = [pool.pop() for _ in range(draw(st.sampled_from([0, 0, 1, 1, 2, 3])))] if how != "functional" and kind != "int" else []
        if aliases and draw(st.integers(0, 5)) == 0:
            aliases.insert(draw(st.integers(0, len(aliases))), n)
        v = draw(value)
        more = draw(st.sampled_from(["", "", "", "doc", "second", "high"]))
        members.append([n, v, aliases, more])
    if draw(st.integers(0, 3)) == 0:
        # What is written for a member may be the name of another one, which is written as something else.
        for m, other in zip(members, draw(st.permutations(members))):
            if m is not other and m[2] and other[2] and other[0] not in other[2]:
                m[2].insert(0, other[0])
    return {
        "kind": kind,
        "how": how,
        "members": members,
        "future": draw(st.booleans()),
        "nested": draw(st.integers(0, 3)) == 0,
        "methods": draw(st.lists(st.sampled_from(["__str__", "__eq__", "_missing_", "value_of", "__call__", "annotation"]), max_size=2, unique=True)),
    }


METHODS = {
    "__str__": "def __str__(self): return 'text of a member'",
    "__eq__": "def __eq__(self, other): return self is other\n    def __hash__(self): return 1",
    "value_of": "@property\n    def label(self): return 'label'",
    "__call__": "def __call__(self): return self",
    "annotation": "_ignore_ = ['unused']\n    unused: te.Annotated[int, Alias('unused')] = 5",
    "_missing_": "@classmethod\n    def _missing_(cls, value): return None",
}


def render(e):
    lines = ["from __future__ import annotations"] if e["future"] else []
    lines += ["import enum, typing as t, typing_extensions as te", "from databind.core import Alias, Priority"]
    if e["how"] == "functional":
        items = ", ".join(f"({n!r}, {'enum.auto()' if v == 'auto' else repr(v)})" for n, v, _, _ in e["members"])
        base = MIXIN[e["kind"]].split(", ")
        more = f", type={base[0]}" if len(base) > 1 else ""
        lines.append(f"E = {base[-1]}('E', [{items}], module=__name__{more})")
        return "\n".join(lines) + "\n"
    indent = ""
    bases = MIXIN[e["kind"]]
    if e["how"] == "inherits":
        lines += [f"class Base({bases}):", "    def inherited(self): return self", "    @property", "    def text(self): return self.name"]
        bases = "Base"
    if e["nested"]:
        lines.append("class Outer:")
        indent = "    "
    lines.append(f"{indent}class E({bases}):")
    for m in e["methods"]:
        lines.append(f"{indent}    " + METHODS[m].replace("\n", "\n" + indent))
    for n, v, aliases, more in e["members"]:
        ann = ""
        if aliases:
            meta = [f"Alias({', '.join(map(repr, aliases))})"]
            if more == "doc":
                meta.insert(0, "'documentation'")
            if more == "second":
                meta.append("Alias('not this one')")
            if more == "high" and not e["future"]:  # (the library that reads texts of annotations can't read attributes)
                meta = ["Alias('not this one')", meta[0][:-1] + ", priority=Priority.HIGH)"]
            ann = f": te.Annotated[t.Any, {', '.join(meta)}]"
        elif more == "doc":
            ann = ": int"
        lines.append(f"{indent}    {n}{ann} = {'enum.auto()' if v == 'auto' else repr(v)}")
    if e["nested"]:
        lines.append("E = Outer.E")
    return "\n".join(lines) + "\n"


class Declared:
    def __init__(self, e):
        self.source = render(e)
        self.module = types.ModuleType(f"pbt_enum_{next(counter)}")
        sys.modules[self.module.__name__] = self.module
        exec(compile(self.source, "<enum>", "exec", dont_inherit=True), vars(self.module))
        self.cls = self.module.E

    def __enter__(self):
        return self

    def __exit__(self, *args):
        sys.modules.pop(self.module.__name__, None)


payloads = st.one_of(
    gen.json_scalars(True),
    st.sampled_from(NAMES + ODD_NAMES + ALIASES + ["not this one", "unused", "Base", "E.A", "red ", "name", "value", "_value_", "__class__", "mro", "inherited", "label"]),
    st.sampled_from([[], {}, ["A"], [1], {"name": "A"}, b"A", 1.0, 0.0, -1.0, True, False, None]),
)


@st.composite
def cases(draw):
    return {
        "enum": draw(enums()),
        "other": draw(enums()),
        "payloads": draw(st.lists(payloads, max_size=6)),
        "place": draw(st.sampled_from(["", "", "list", "key", "opt", "ann"])),
        "strict": draw(st.sampled_from([None, None, False])),
    }


def run(case):
    import typing as t

    e = case["enum"]
    with Declared(e) as d, Declared({**case["other"], "nested": False}) as other:
        E = d.cls
        ints = e["kind"] == "int"
        # The table, from the declaration: what reads as which member, and as what is it written
        first, reads, writes = {}, {}, {}
        for n, v, aliases, _ in e["members"]:
            member = E.__members__[n]
            first.setdefault(id(member), (n, v, aliases))
            if ints:
                reads[v] = member
            else:
                reads.setdefault(n, member)
                for a in aliases:
                    reads[a] = member
        members = list(E)
        for m in members:
            n, v, aliases = first[id(m)]
            writes[id(m)] = v if ints else (aliases or [n])[0]
        check(len({repr(w) for w in writes.values()}) == len(members), "two members with the same representation")
        place = case["place"] if not (ints and case["place"] == "key") else "list"
        hint = {"": E, "list": t.List[E], "key": t.Dict[E, int], "opt": t.Optional[E], "ann": t.Annotated[E, "doc"]}[place]
        if place == "key" and any(type(m).__hash__ is None for m in members):
            hint, place = E, ""

        def put(x):
            return [x] if place == "list" else {x: 0} if place == "key" else x

        def take(x):
            return x[0] if place == "list" else next(iter(x)) if place == "key" else x

        mapper = get_object_mapper()
        settings = [] if case["strict"] is None else [Strict(case["strict"])]
        for m in members:
            ok, wire = attempt(mapper.serialize, put(m), hint, settings=settings)
            check(ok, lambda: f"dump({m!r}) failed: {wire}")
            want = writes[id(m)]
            check(type(take(wire)) is type(want) and take(wire) == want, lambda: f"dump({m!r}) gave {wire!r}, expected {want!r}")
            check(json.loads(json.dumps(wire)) == wire, lambda: f"dump({m!r}) gave {wire!r}")
            ok, back = attempt(mapper.deserialize, wire, hint, settings=settings)
            check(ok and take(back) is m, lambda: f"load(dump({m!r})) gave {back!r}")
        inputs = list(reads) + list(case["payloads"])
        for m in members:
            inputs += [m.value, m.name, m.name.lower(), m.name.upper(), m.name + " ", str(m), repr(m.value)]
            if ints:
                inputs += [float(m.value) if abs(m.value) < 2**53 else 0.5, m.value + 1, str(m.value)]
        for x in inputs:
            if place == "key" and (not isinstance(x, str)):
                continue
            if place == "opt" and x is None:
                continue
            if isinstance(x, enum.Enum):
                continue
            ok, got = attempt(mapper.deserialize, put(x), hint, settings=settings)
            member = None
            if type(x) is (int if ints else str):
                member = reads.get(x)
            if member is None:
                check(not ok, lambda: f"load({x!r}) gave {got!r}")
            else:
                check(ok, lambda: f"load({x!r}) failed: {got}, expected {member!r}")
                check(take(got) is member, lambda: f"load({x!r}) gave {got!r}, expected {member!r}")
        # Values that are not members
        foreign = [x for x in inputs if not (place == "opt" and x is None)] + list(other.cls)
        for x in foreign:
            if place == "key":
                try:
                    hash(x)
                except TypeError:
                    continue
            ok, got = attempt(mapper.serialize, put(x), hint, settings=settings)
            check(not ok, lambda: f"dump({x!r}) gave {got!r}, although it is not a member")
    return Info(len(members) > 1, [e["kind"], e["how"], place or "root"])


def show(case):
    return render(case["enum"])


PARTS = {"enums": Part(cases, run, 3000, 150000, show)}
REGRESSIONS = []
