import copy
import dataclasses
import datetime
import enum
import pathlib
import typing as t
import uuid
from decimal import Decimal

import typing_extensions as te
from hypothesis import strategies as st

from databind.core import Alias, SerializeDefaults
from databind.json import get_object_mapper
from databind.json.converters import SchemaConverter

from pbt import codec, gen, spec as S
from pbt.props import c07
from pbt.util import Info, Part, attempt, check, describe, load

ID = "C21"
TECHNIQUE = "property-based testing: generated types, values and placements of the option against the reference dump with the fields left out, and round trip"
RULE = (
    "A case is a generated type with classes in it (defaults, default factories, aliases, flattened and remainder fields, "
    "generic classes, unions), a value in which fields are often equal to their defaults, and the option given on fields, on "
    "the root type, per class, per call, per mapper or to the converter. The dumped form has to be the reference one in which "
    "exactly the fields with default values are left out of exactly the objects that the option is in effect for, and loading "
    "it has to give an equal value. Part 'lookalikes': fields with a value that is not the default, but has the same JSON form. Non-trivial: at least one field is left out and one is not."
)
ASSUMPTIONS = ["Values that are not equal to themselves (NaN) do not occur."]

PLACES = [None, None, True, False]
PLACES_OFF = [None, True, False, False]


class Model(S.World):
    def __init__(self, case):
        self.case = case
        self.scope = None
        self.omitted = self.kept = 0
        super().__init__(case["spec"], case["style"])

    def ref_dump(self, s, v):
        scope, self.scope = self.scope, None
        if s[0] in ("opt", "ref"):
            self.scope = scope
        elif s[0] == "ann":
            own = option(s[2:])
            self.scope = scope if own is None else own
        elif s[0] == "td":
            out = super().ref_dump(s, v)
            if not self.in_effect(s, scope):
                for f in s[2]:
                    if not f.get("flat") and not f.get("rem") and f["n"] in v and self.is_default(f, v[f["n"]]) and f.get("req") is not True:
                        del out[S.wire_key(f)]
                        self.omitted += 1
            return out
        elif s[0] in S.STRUCTS:
            S.need(isinstance(v, self.cls(s)))
            return self.dump_struct(s, v, self.in_effect(s, scope))
        try:
            return super().ref_dump(s, v)
        finally:
            self.scope = None

    def in_effect(self, s, scope):
        for x in (scope, self.case["call"], self.case["local"].get(s[1]), self.case["mapper"], self.case["converter"]):
            if x is not None:
                return x
        return True

    def dump_struct(self, s, v, serialize_defaults):
        out, rest = {}, {}
        for f in S.struct_fields(s):
            x = getattr(v, f["n"])
            self.scope = option(f.get("meta", []))
            w = self.ref_dump(f["t"], x)
            if f.get("flat"):
                out.update(w)
                continue
            if self.is_default(f, x) and f.get("req") is not True:
                if not serialize_defaults:
                    self.omitted += 1
                    continue
                self.kept += 1
            if f.get("rem"):
                rest = w
            else:
                out[S.wire_key(f)] = w
        if rest.keys() & out.keys():
            raise S.Reject
        out.update(rest)
        return out


def option(texts):
    for x in texts:
        if x.startswith("SerializeDefaults"):
            return "False" not in x
    return None


@st.composite
def texts(draw):
    return draw(st.sampled_from([[], [], ["SerializeDefaults(False)"], ["SerializeDefaults()"], ["SerializeDefaults(True)"]]))


def mark(draw, s):
    """Adds the option to annotations and fields in the spec."""

    k = s[0]
    if k in ("dc", "nt", "gdc"):
        fs = []
        for f in s[2]:
            meta = draw(texts())
            fs.append({**f, "t": mark(draw, f["t"]), **({"meta": meta} if meta else {})})
        return [k, s[1], fs, *([[mark(draw, x) for x in s[3]]] if k == "gdc" else s[3:])]
    if k == "td":
        return [k, s[1], [{**f, "t": mark(draw, f["t"])} for f in s[2]], s[3]]
    if k == "ann":
        return [k, mark(draw, s[1]), *draw(texts())]
    if k in S.COLLECTIONS or k == "opt":
        return [k, mark(draw, s[1]), *s[2:]]
    if k in ("tuple",):
        return [k, [mark(draw, x) for x in s[1]]]
    if k in S.MAPPINGS:
        return [k, s[1], mark(draw, s[2]), *s[3:]]
    if k == "dunion":
        return [*s[:5], [[i, mark(draw, m) if m[0] == "dc" else m] for i, m in s[5]], s[6]]
    return s


def more_defaults(draw, s):
    """Gives more of the fields a default."""

    k = s[0]
    if k == "dc":
        fs = []
        for f in s[2]:
            f = {**f, "t": more_defaults(draw, f["t"])}
            free = not f.keys() & {"d", "req", "flat", "rem"} and not any(x[0] == "ref" for x in S.walk(f["t"]))
            if free and draw(st.integers(0, 2)):
                f["d"] = [draw(gen.raws(f["t"], None, 4))]
            fs.append(f)
        return [k, s[1], [f for f in fs if "d" not in f] + [f for f in fs if "d" in f], s[3]]
    if k in S.COLLECTIONS and not S.is_set(s) or k in ("opt", "ann"):
        return [k, more_defaults(draw, s[1]), *s[2:]]
    if k in S.MAPPINGS:
        return [k, s[1], more_defaults(draw, s[2]), *s[3:]]
    if k == "dunion":
        return [*s[:5], [[i, more_defaults(draw, m)] for i, m in s[5]], s[6]]
    return s


def use_defaults(draw, s, raw, defs):
    """Sets more fields to their defaults."""

    k = s[0]
    if raw is None:
        return raw
    if k == "ref":
        return use_defaults(draw, defs[s[1]], raw, defs)
    if k in ("dc", "gdc", "nt"):
        return {
            f["n"]: f["d"][0] if "d" in f and draw(st.booleans()) else use_defaults(draw, f["t"], raw[f["n"]], defs)
            for f in S.struct_fields(s)
        }
    if k == "opt":
        return None if draw(st.integers(0, 3)) == 0 else [use_defaults(draw, s[1], raw[0], defs)]
    if k == "ann":
        return use_defaults(draw, s[1], raw, defs)
    if k in S.COLLECTIONS and not S.is_set(s):
        return [use_defaults(draw, s[1], x, defs) for x in raw]
    if k in S.MAPPINGS:
        return [[a, use_defaults(draw, s[2], b, defs)] for a, b in raw]
    if k == "dunion":
        return [raw[0], use_defaults(draw, dict(map(tuple, s[5]))[raw[0]], raw[1], defs)]
    return raw


@st.composite
def cases(draw):
    if draw(st.integers(0, 4)) == 0:
        s = draw(c07.specs())
    else:
        g = gen.Gen(depth=draw(st.sampled_from([1, 2, 2, 3])))
        s = draw(g.dataclass(draw(st.sampled_from([1, 2, 2, 3]))).map(S.rename))
        s = draw(st.sampled_from([s, s, ["list", s], ["opt", s], ["ann", s], ["dict", ["str"], s], ["ann", ["opt", s]]]))
    s = mark(draw, more_defaults(draw, s))
    names = sorted({x[1] for x in S.walk(s) if x[0] == "dc"})
    return {
        "spec": s,
        "raw": use_defaults(draw, s, draw(gen.raws(s)), S.definitions(s)),
        "style": draw(gen.styles()),
        "call": draw(st.sampled_from([None, False, False, False, True])),
        "mapper": draw(st.sampled_from([None, None, None, False])),
        "local": draw(st.dictionaries(st.sampled_from(names), st.booleans(), max_size=2)) if names and draw(st.integers(0, 2)) == 0 else {},
        "converter": draw(st.sampled_from([None, None, False])),
    }


def run(case):
    if "nan" in codec.canon(case).lower():
        return Info(False, ["NaN"])
    s = case["spec"]
    with Model(case) as w:
        v = w.build(s, case["raw"])
        mapper = get_object_mapper()
        if case["converter"] is not None:
            for module in mapper.module.converters:
                for i, c in enumerate(getattr(module, "converters", [])):
                    if type(c) is SchemaConverter:
                        module.converters[i] = SchemaConverter(serialize_defaults=case["converter"])
        if case["mapper"] is not None:
            mapper.settings.add_global(SerializeDefaults(case["mapper"]))
        for name, x in case["local"].items():
            mapper.settings.add_local(w.ns[name], SerializeDefaults(x))
        settings = [] if case["call"] is None else [SerializeDefaults(case["call"])]
        expected = w.ref_dump(s, v)
        ok, got = attempt(mapper.serialize, v, w.hint, settings=settings)
        check(ok, lambda: f"dump({v!r}) failed: {got}")
        check(S.wire_matches(expected, got), lambda: f"dump({v!r}) gave {got!r}, expected {expected!r}\ncase: {case}")
        for m in (get_object_mapper(), mapper):
            ok, back = attempt(m.deserialize, got, w.hint, settings=[])
            check(ok, lambda: f"load({got!r}) failed: {back}")
            a, b = w.abstract(s, back), w.abstract(s, v)
            check(codec.canon(a) == codec.canon(b) or back == v, lambda: f"load({got!r}) gave {back!r} instead of {v!r}")
    return Info(w.omitted > 0 and (w.kept > 0 or bool(got)), ["omitted" if w.omitted else "nothing omitted"] + (["kept"] if w.kept else []))


# --- values that look like others when they are dumped -----------------------------------------------------------------


class Word(enum.Enum):
    x = 1
    Red = 2




@dataclasses.dataclass
class Point:
    a: int


# Values of different types with the same JSON form. Loading it gives the first one. (The typing module does not tell
# unions of the same types in different order apart.)
LOOKALIKES = [
    (pathlib.PurePosixPath("x"), "x"),
    (Word.Red, "Red"),
    (Decimal("1.50"), "1.50"),
    (datetime.date(2020, 1, 2), "2020-01-02"),
    (datetime.time(10, 30, 0, 5), "10:30:00.000005"),
    (uuid.UUID(int=5), str(uuid.UUID(int=5))),
    (b"abc", "YWJj"),
    ([1, 2], (1, 2)),
    ([1], {1}),
    (Point(1), {"a": 1}),
    ([], set()),
    ([], ()),
]
TYPES = {list: t.List[t.Any], tuple: t.Tuple[t.Any, ...], set: t.Set[int], dict: t.Dict[str, t.Any]}


def hint_of(v):
    return TYPES.get(type(v), type(v))


@st.composite
def lookalike_cases(draw):
    fields = []
    for _ in range(draw(st.integers(1, 3))):
        pair = draw(st.integers(0, len(LOOKALIKES) - 1))
        default, value = draw(st.tuples(st.integers(0, 1), st.integers(0, 1)))
        fields.append([pair, default, value, draw(st.sampled_from(["default", "factory"])), draw(st.sampled_from(["", "opt", "alias"]))])
    return {"fields": fields, "how": draw(st.sampled_from(["call", "class", "mapper"]))}


def run_lookalikes(case):
    fields, values, expected = [], {}, set()
    for i, (pair, d, v, how, extra) in enumerate(case["fields"]):
        first, second = LOOKALIKES[pair]
        hint = t.Union[hint_of(first), hint_of(second)]
        if extra == "opt":
            hint = t.Optional[hint]
        elif extra == "alias":
            hint = te.Annotated[hint, Alias(f"{i}")]
        default = (first, second)[d]
        # What is no default has to be the value that is loaded from its JSON form.
        value = default if v == d else first
        hashable = type(default).__hash__ is not None
        given = {"default": default} if how == "default" and hashable else {"default_factory": lambda x=default: copy.deepcopy(x)}
        fields.append((f"f{i}", hint, dataclasses.field(**given)))
        values[f"f{i}"] = copy.deepcopy(value)
        if value is not default:
            expected.add(f"{i}" if extra == "alias" else f"f{i}")
    cls = dataclasses.make_dataclass("Holder", fields)
    cls.__module__ = __name__
    mapper, settings, v = get_object_mapper(), [], cls(**values)
    if case["how"] == "call":
        settings = [SerializeDefaults(False)]
    elif case["how"] == "class":
        mapper.settings.add_local(cls, SerializeDefaults(False))
    else:
        mapper.settings.add_global(SerializeDefaults(False))
    ok, got = attempt(mapper.serialize, v, cls, settings=settings)
    check(ok, lambda: f"dump({v!r}) failed: {got}")
    check(set(got) == expected, lambda: f"dump({v!r}) gave {got!r}, expected the keys {sorted(expected)}; the defaults are {cls()!r}")
    ok, back = attempt(mapper.deserialize, got, cls)
    check(ok and repr(back) == repr(v) and back == v, lambda: f"load({got!r}) gave {back!r} instead of {v!r}")
    return Info(bool(expected), ["all omitted" if not expected else "some kept"])


PARTS = {"lookalikes": Part(lookalike_cases, run_lookalikes, 500, 20000, str), "dump": Part(cases, run, 3000, 100000, describe)}
REGRESSIONS = []
