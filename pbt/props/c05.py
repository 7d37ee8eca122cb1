import collections
import dataclasses
import datetime
import decimal
import enum
import pathlib
import uuid

from hypothesis import strategies as st

from pbt import gen, spec as S
from pbt.util import Info, Part, Violation, attempt, check, describe, dump

ID = "C05"
TECHNIQUE = "property-based testing: dump of values with foreign parts against a reference encoder that checks types"
RULE = (
    "A case is a generated type (rendered as a Python module with its classes), a value of it, and the positions of up to "
    "two parts of the value that are replaced by values of other types (from a fixed list, or other parts of the same "
    "value); or one part that is replaced by each value of the list in turn. Non-trivial: the reference encoder refuses the resulting value."
)
ASSUMPTIONS = [
    "The outcome is left open for a datetime in place of a date, for strings, bytes and mappings in place of abstract "
    "sequences and collections, for literals that only equal a listed value, for mapping classes other than the declared "
    "one, and for undeclared keys of typed dicts: there, the outcome must be JSON data or the conversion error."
]


class Colour(enum.Enum):
    RED = 1


class Level(enum.IntEnum):
    LOW = 1


@dataclasses.dataclass
class Other:
    a: int = 1
    name: str = "x"


class Opaque:
    pass


Point = collections.namedtuple("Point", "x y")

FOREIGN = {
    "none": lambda: None,
    "true": lambda: True,
    "false": lambda: False,
    "zero": lambda: 0,
    "int": lambda: 17,
    "huge": lambda: 10**400,
    "half": lambda: 1.5,
    "integral": lambda: 3.0,
    "nan": lambda: float("nan"),
    "inf": lambda: float("inf"),
    "empty": lambda: "",
    "str": lambda: "foo",
    "digits": lambda: "12",
    "iso": lambda: "2020-02-03",
    "bytes": lambda: b"foo",
    "bytearray": lambda: bytearray(b"foo"),
    "complex": lambda: 1j,
    "decimal": lambda: decimal.Decimal("1.5"),
    "date": lambda: datetime.date(2020, 1, 2),
    "time": lambda: datetime.time(1, 2, 3),
    "datetime": lambda: datetime.datetime(2020, 1, 2, 3),
    "timedelta": lambda: datetime.timedelta(1),
    "uuid": lambda: uuid.UUID(int=5),
    "path": lambda: pathlib.Path("/x"),
    "winpath": lambda: pathlib.PureWindowsPath("C:/x"),
    "enum": lambda: Colour.RED,
    "dataclass": lambda: Other(),
    "opaque": lambda: Opaque(),
    "class": lambda: Other,
    "function": lambda: Opaque.__init__,
    "list": lambda: [],
    "list1": lambda: [1],
    "lists": lambda: ["a"],
    "tuple": lambda: (),
    "tuple1": lambda: (1,),
    "tuple2": lambda: ("a", 2),
    "point": lambda: Point(1, 2),
    "set": lambda: set(),
    "frozenset": lambda: frozenset({1}),
    "deque": lambda: collections.deque(["a"]),
    "dict": lambda: {},
    "dict1": lambda: {"a": 1},
    "dicti": lambda: {1: "a"},
    "odict": lambda: collections.OrderedDict(a=1),
    "range": lambda: range(2),
    "iterator": lambda: iter([1]),
}


@st.composite
def cases(draw):
    g = gen.Gen(depth=draw(st.sampled_from([0, 1, 1, 2, 2, 3])))
    s = draw(g.spec())
    swaps = draw(
        st.lists(st.tuples(st.integers(0, 12), st.one_of(st.sampled_from(sorted(FOREIGN)), st.integers(0, 12))), min_size=1, max_size=2)
    )
    return {"spec": s, "raw": draw(gen.raws(s)), "style": draw(gen.styles()), "swaps": swaps}


def run(case):
    with S.World(case["spec"], case["style"]) as w:
        return examine(case, w)


def examine(case, w):
    s = case["spec"]
    parts = []
    w.build_with(s, case["raw"], lambda s, v: parts.append(v) or v)
    swaps = {n % len(parts): what for n, what in case["swaps"]}
    counter = iter(range(10**9))

    def hook(s, v):
        n = next(counter)
        if n in swaps:
            what = swaps[n]
            return parts[what % len(parts)] if isinstance(what, int) else FOREIGN[what]()
        return v

    try:
        value = w.build_with(s, case["raw"], hook)
    except TypeError:
        # Not hashable, where it needs to be.
        return Info(False, ["unhashable"])

    try:
        expected = w.ref_dump(s, value)
        verdict = "valid"
    except S.Reject:
        verdict = "reject"
    except S.Unknown:
        verdict = "unknown"
    except TypeError:
        return Info(False, ["unhashable"])
    ok, wire = attempt(dump, value, w.hint)
    if verdict == "reject":
        check(not ok, lambda: f"dump() of {value!r}, which is not a value of the type, gave {wire!r}")
    elif verdict == "valid":
        check(ok, lambda: f"dump() refused {value!r}: {wire}")
        check(S.wire_matches(expected, wire), lambda: f"dump() of {value!r} gave {wire!r}, expected {expected!r}")
    return Info(verdict == "reject", [verdict] + S.kinds(s))


@st.composite
def part_cases(draw):
    g = gen.Gen(depth=draw(st.sampled_from([0, 0, 1, 1, 2])))
    s = draw(g.spec())
    if draw(st.integers(0, 5)) == 0:
        # Keys of any type (the first part of a mapping is a key).
        k = draw(st.sampled_from(["int", "int", "str", "float", "bool", "decimal", "date", "uuid", "bytes", "path"]))
        s = draw(st.sampled_from([["dict", [k], ["int"]], ["list", ["dict", [k], ["str"]]]]))
    return {"spec": s, "raw": draw(gen.raws(s)), "style": draw(gen.styles()), "part": draw(st.integers(0, 5))}


def run_part(case):
    """Replaces one part by every foreign value."""

    labels = set()
    with S.World(case["spec"], case["style"]) as w:
        for what in FOREIGN:
            labels.update(examine({**case, "swaps": [[case["part"], what]]}, w).labels)
    return Info("reject" in labels, sorted(labels))


PARTS = {
    "values": Part(cases, run, 2400, 120000, describe),
    "parts": Part(part_cases, run_part, 500, 25000, describe),
}
REGRESSIONS = []
