import base64
import dataclasses
import decimal
import math
import re
import typing as t
from fractions import Fraction

from hypothesis import strategies as st

from databind.core import Strict
from databind.json import get_object_mapper

from pbt import codec, gen, spec as S
from pbt.util import Info, Part, attempt, check, describe, dump, load

ID = "C19"
TECHNIQUE = "property-based testing: generated types, strictness settings and payloads against an own table of conversions; differential for the rest"
RULE = (
    "Part table: a nesting of plain types with strictness given on annotations, per call, per mapper and per type, and a "
    "payload of texts, numbers and other values; every leaf has to be what an own parser says that the payload denotes under "
    "the strictness in effect, or the whole is refused. Dumping must not depend on it. Part others: for generated types of "
    "all kinds, what strict loading accepts is loaded to the same value if strictness is turned off, and dumped the same. "
    "Non-trivial: a leaf where the strictness matters; or a type with at least two nodes."
)
ASSUMPTIONS = ["Texts are ASCII; integers in text have less than 4000 digits (a limit of Python)."]

TARGETS = {"int": int, "float": float, "bool": bool, "str": str, "bytes": bytes, "decimal": decimal.Decimal}


class Unknown(Exception):
    pass


class Refused(Exception):
    pass


# --- the model


def exact(text):
    """The value of a decimal number in text."""

    m = re.fullmatch(r"([+-]?)([0-9]*)(?:\.([0-9]*))?(?:[eE]([+-]?[0-9]+))?", text)
    if m is None or not (m[2] or m[3]):
        raise Refused
    digits = (m[2] or "") + (m[3] or "")
    exponent = int(m[4] or 0) - len(m[3] or "")
    value = int(digits)
    if value and abs(exponent) > 5000:
        raise Unknown
    value = Fraction(value) * Fraction(10) ** (exponent if value else 0)
    return -value if m[1] == "-" else value, m[1] == "-"


def nearest(text):
    value, negative = exact(text)
    try:
        f = float(value)  # correctly rounded
    except OverflowError:
        f = -math.inf if value < 0 else math.inf
    if f == math.inf or f == -math.inf:
        # Halfway above the largest number
        return f
    return math.copysign(f, -1.0 if negative else 1.0)


def plain(text):
    """Removes what Python allows around and in numbers."""

    text = text.strip(" \t\n\r\v\f")
    if re.search("__|^_|_$|[^0-9]_|_[^0-9]", text):
        raise Refused
    return text.replace("_", "")


def model(target, strict, v):
    k = type(v)
    if target == "int":
        if k is int:
            return v
        if k is float:
            if not math.isfinite(v) or v != math.floor(v):
                raise Refused
            return int(v)
        if k is str and not strict:
            s = plain(v)
            if not re.fullmatch("[+-]?[0-9]+", s):
                raise Refused
            n = 0
            for c in s.lstrip("+-"):
                n = n * 10 + "0123456789".index(c)
            return -n if s[0] == "-" else n
    elif target == "float":
        if k is float:
            return v
        if k is int:
            try:
                return float(Fraction(v))
            except OverflowError:
                raise Refused
        if k is str and not strict:
            s = plain(v)
            word = s.lstrip("+-").lower()
            if word in ("inf", "infinity", "nan") and len(s) - len(word) <= 1:
                if "_" in v:
                    raise Refused
                x = math.nan if word == "nan" else math.inf
                return -x if s[0] == "-" else x
            return nearest(s)
    elif target == "bool":
        if k is bool:
            return v
        if k is str and not strict:
            if v.lower() in ("yes", "true", "on", "enabled"):
                return True
            if v.lower() in ("no", "false", "off", "disabled"):
                return False
    elif target == "str":
        if k is str:
            return v
        if not strict and k in (int, float, bool):
            return str(v)
    elif target == "bytes":
        if k is bytes:
            return v
        if k is str:
            if re.fullmatch("(?:[A-Za-z0-9+/]{4})*(?:[A-Za-z0-9+/]{2}==|[A-Za-z0-9+/]{3}=)?", v):
                return base64.b64decode(v)
            raise Unknown
    elif target == "decimal":
        if k is str:
            s = v.strip()
            if not re.fullmatch(r"[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]{1,4})?", s):
                raise Unknown if re.search("[nN]|_|[eE][+-]?[0-9]{5}|[0-9] | [0-9]", v) or not v.isascii() else Refused
            return decimal.Decimal(s)
        if not strict and k is int:
            return decimal.Decimal(v)
        if not strict and k is float:
            if not math.isfinite(v):
                raise Unknown
            sign, digits = (-1 if v < 0 else 1), Fraction(v)
            # A binary fraction has a finite decimal expansion.
            shift = digits.denominator.bit_length() - 1
            return decimal.Decimal(digits.numerator * 5**shift).scaleb(-shift, decimal.Context(prec=2000)) if sign else None
        if not strict and k is bool:
            raise Unknown
    raise Refused


def equal(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, float):
        return a == b and math.copysign(1, a) == math.copysign(1, b) or a != a and b != b
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(equal, a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(equal(a[k], b[k]) for k in a) and all(map(equal, a, b))
    if dataclasses.is_dataclass(a):
        return equal(vars(a), vars(b))
    if isinstance(a, decimal.Decimal):
        return a.compare_total(b) == 0 or a == b
    return a == b


# --- types


@st.composite
def annotations(draw):
    return draw(st.sampled_from([None, None, None, True, False, False]))


@st.composite
def trees(draw, depth):
    kind = "leaf" if depth <= 0 else draw(st.sampled_from(["leaf", "list", "dict", "opt", "tuple", "class", "union"]))
    if kind == "leaf":
        return ["leaf", draw(st.sampled_from(list(TARGETS))), draw(annotations())]
    if kind in ("list", "opt"):
        inner = draw(trees(depth - 1))
        return inner if kind == "opt" and inner[0] == "opt" else [kind, inner, draw(annotations())]
    if kind == "dict":
        return ["dict", ["leaf", draw(st.sampled_from(["str", "int", "bool", "float"])), draw(annotations())], draw(trees(depth - 1))]
    if kind == "tuple":
        return ["tuple", draw(st.lists(trees(depth - 1), min_size=1, max_size=3))]
    if kind == "class":
        return ["class", [[n, draw(trees(depth - 1))] for n in draw(st.lists(st.sampled_from("abcd"), min_size=1, max_size=3, unique=True))]]
    return ["union", [["leaf", x, None] for x in draw(st.lists(st.sampled_from(list(TARGETS)), min_size=2, max_size=4, unique=True))]]


def numbers():
    return st.one_of(
        st.integers(-20, 20).map(str),
        st.integers().map(str),
        st.floats().map(repr),
        st.from_regex(r"\A[ \t]{0,2}[+-]?[0-9_]{1,6}(\.[0-9]{0,4})?([eE][+-]?[0-9]{1,3})?[ \n]{0,2}\Z"),
        st.sampled_from(["1_000", "_1", "1__0", "+5", "-0", "007", "0x10", "1e3", "1e400", "-1e400", ".5", "5.", "1e-400", "inf", "-Infinity", "NaN", "--1", "1 0", "", " ", "+", ".", "e5", "1,5", "0b1", "9" * 50, "2.5e-324", "1.7976931348623159e308", "9007199254740993"]),
    )


WORDS = ["true", "TRUE", "Yes", "on", "enabled", "no", "Off", "FALSE", "disabled", "y", "1", "0", "t", "none", "null", " true", "yes\n", "True", "False"]
PADDED = st.tuples(st.sampled_from(["", "", " ", "\t", "\n"]), st.sampled_from(WORDS), st.sampled_from(["", "", " ", "\n", "."])).map("".join)


def texts():
    return st.one_of(numbers(), numbers(), st.sampled_from(WORDS), PADDED, st.text("abc01 ._-", max_size=5), st.sampled_from(["YQ==", "YWJj", ""]))


@st.composite
def scalars(draw, target):
    # (Not one_of(), which gives each of the alternatives of its parts the same weight.)
    right = {
        "int": gen.ints(),
        "float": gen.all_floats(),
        "bool": st.one_of(st.booleans(), PADDED, PADDED),
        "str": texts(),
        "bytes": st.sampled_from([b"", b"abc", "YQ==", "YWJj"]),
        "decimal": st.one_of(numbers(), gen.ints().map(str)),
    }[target]
    other = st.one_of(
        gen.ints(), gen.all_floats(), st.booleans(), st.sampled_from([None, [], {}, b"1", (1,), ["1"], {"a": "1"}, (0, (1, 2), -1), [0, [1, 2], 0], (0, (), "F")])
    )
    return draw({0: right, 1: right, 2: texts(), 3: texts()}.get(draw(st.integers(0, 5)), other))


@st.composite
def payloads(draw, s):
    if draw(st.integers(0, 39)) == 0:
        return draw(scalars("str"))
    k = s[0]
    if k == "leaf":
        return draw(scalars(s[1]))
    if k == "list":
        return draw(st.lists(payloads(s[1]), max_size=2))
    if k == "opt":
        return draw(payloads(s[1])) if draw(st.integers(0, 4)) else None
    if k == "dict":
        keys = draw(st.lists(texts() if s[1][1] != "bool" else st.sampled_from(["yes", "no", "x"]), max_size=2, unique=True))
        return {n: draw(payloads(s[2])) for n in keys}
    if k == "tuple":
        return [draw(payloads(x)) for x in s[1]]
    if k == "class":
        return {n: draw(payloads(x)) for n, x in s[1]}
    return draw(scalars(draw(st.sampled_from(s[1]))[1]))


@st.composite
def cases(draw):
    s = draw(trees(draw(st.sampled_from([0, 0, 1, 1, 2]))))
    return {
        "type": s,
        "payload": draw(payloads(s)),
        "call": draw(st.sampled_from([None, None, True, False])),
        "mapper": draw(st.sampled_from([None, None, False, True])),
        "local": draw(st.dictionaries(st.sampled_from(list(TARGETS)), st.booleans(), max_size=2)),
    }


def build(s):
    k = s[0]

    def annotate(hint, a):
        return hint if a is None else t.Annotated[hint, Strict(a)]

    if k == "leaf":
        return annotate(TARGETS[s[1]], s[2])
    if k == "list":
        return annotate(t.List[build(s[1])], s[2])
    if k == "opt":
        return annotate(t.Optional[build(s[1])], s[2])
    if k == "dict":
        return t.Dict[build(s[1]), build(s[2])]
    if k == "tuple":
        return t.Tuple[tuple(map(build, s[1]))]
    if k == "class":
        return dataclasses.make_dataclass("Generated", [(n, build(x)) for n, x in s[1]], namespace={"__module__": __name__})
    return t.Union[tuple(map(build, s[1]))]


def run_table(case):
    for clear in getattr(t, "_cleanups", []):
        clear()
    s = case["type"]
    hint = build(s)
    matters = []

    def effective(target, a):
        for x in (a, case["call"], case["local"].get(target), case["mapper"]):
            if x is not None:
                return x
        return True

    def leaf(target, a, v):
        strict = effective(target, a)
        if not strict:
            matters.append(target)
        return model(target, strict, v)

    def expected(s, h, v, outer=None):
        k = s[0]
        if k == "leaf":
            return leaf(s[1], outer if s[2] is None else s[2], v)
        if k == "opt":
            # An annotation of the optional is one of what it wraps, behind its own ones.
            if v is None:
                return None
            a = s[2] if s[2] is not None else outer
            if s[1][0] == "leaf":
                inner = s[1]
                if a is not None and inner[2] is not None and a != inner[2]:
                    # The typing module joins both lists of annotations, inner ones first, and the first one counts.
                    a = inner[2]
                return leaf(inner[1], a if a is not None else inner[2], v)
            return expected(s[1], None, v)
        if k == "list":
            if not isinstance(v, (list, tuple)):
                raise Refused
            return [expected(s[1], None, x) for x in v]
        if k == "tuple":
            if not isinstance(v, (list, tuple)) or len(v) != len(s[1]):
                raise Refused
            return tuple(expected(x, None, y) for x, y in zip(s[1], v))
        if k == "dict":
            if not isinstance(v, dict):
                raise Refused
            out = {}
            for n, x in v.items():
                n, x = expected(s[1], None, n), expected(s[2], None, x)
                if n in out or n != n:
                    raise Unknown
                out[n] = x
            return out
        if k == "class":
            if not isinstance(v, dict) or set(v) - {n for n, _ in s[1]}:
                raise Refused
            values = {}
            for n, x in s[1]:
                if n in v:
                    values[n] = expected(x, None, v[n])
                elif x[0] == "opt":
                    values[n] = None
                else:
                    raise Refused
            return Struct(values)
        for x in s[1]:
            try:
                return leaf(x[1], None, v)
            except Refused:
                pass
        raise Refused

    mapper = get_object_mapper()
    for target, x in case["local"].items():
        mapper.settings.add_local(TARGETS[target], Strict(x))
    if case["mapper"] is not None:
        mapper.settings.add_global(Strict(case["mapper"]))
    settings = [] if case["call"] is None else [Strict(case["call"])]
    payload = case["payload"]
    try:
        want = expected(s, hint, payload)
        accepted = True
    except Refused:
        want, accepted = None, False
    except Unknown:
        accepted = None
    ok, got = attempt(mapper.deserialize, payload, hint, settings=settings)
    if accepted is not None:
        check(
            ok == accepted and (not ok or equal(structs(got), structs(want))),
            lambda: f"load({payload!r}) gave {got!r}, expected {want!r}\ntype: {hint}",
        )
    # It makes no difference for dumping.
    value = got if ok else payload
    for v in (value, payload):
        with_it = attempt(mapper.serialize, v, hint, settings=settings)
        without = attempt(get_object_mapper().serialize, v, hint, settings=[])
        check(
            with_it[0] == without[0] and (not with_it[0] or codec.canon(with_it[1]) == codec.canon(without[1])),
            lambda: f"dump({v!r}): {with_it[1]!r}, without the settings: {without[1]!r}\ntype: {hint}",
        )
    labels = ["undecided" if accepted is None else "accepted" if ok else "refused"]
    if matters:
        labels.append("not strict")
    return Info(bool(matters) and accepted is not None, labels)


class Struct:
    def __init__(self, values):
        self.values = values

    def __repr__(self):
        return repr(self.values)


def structs(v):
    if isinstance(v, Struct):
        return {"$class": structs(v.values)}
    if dataclasses.is_dataclass(v):
        return {"$class": structs(dict(vars(v)))}
    if isinstance(v, (list, tuple)):
        return type(v)(map(structs, v))
    if isinstance(v, dict):
        return {k: structs(x) for k, x in v.items()}
    return v


# --- all other types


@st.composite
def others(draw):
    g = gen.Gen(depth=draw(st.sampled_from([0, 1, 2])), unions=False)
    s = draw(g.spec())
    style = draw(gen.styles())
    return {"spec": s, "style": style, "payload": draw(gen.payloads(s, style, valid=4, mutate=4, random=1))[1], "mapper": draw(st.booleans())}


def run_others(case):
    s = case["spec"]
    with S.World(s, case["style"]) as w:
        w.loose = True
        payload = case["payload"]
        ok, strict = attempt(load, payload, w.hint)
        mapper = get_object_mapper()
        settings = [Strict(False)]
        if case["mapper"]:
            mapper.settings.add_global(settings.pop())
        ok2, lax = attempt(mapper.deserialize, payload, w.hint, settings=settings)
        if ok:
            check(ok2, lambda: f"load({payload!r}) gave {strict!r}, but without strictness it failed: {lax}")
            a, b = w.abstract(s, strict), w.abstract(s, lax)
            check(codec.canon(a) == codec.canon(b), lambda: f"load({payload!r}) gave {strict!r}, but without strictness {lax!r}")
        if ok2:
            one, two = attempt(dump, lax, w.hint), attempt(mapper.serialize, lax, w.hint, settings=settings)
            check(one[0] == two[0] and (not one[0] or repr(one[1]) == repr(two[1])), lambda: f"dump({lax!r}) gave {one[1]!r}, without strictness {two[1]!r}")
    return Info(ok and S.size(s) > 1, ["same" if ok else "more accepted" if ok2 else "refused"])


PARTS = {"table": Part(cases, run_table, 6000, 400000), "others": Part(others, run_others, 1500, 60000, describe)}
REGRESSIONS = []
