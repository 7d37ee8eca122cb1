import collections
import copy
import dataclasses
import ipaddress
import typing as t

import typing_extensions as te
from hypothesis import strategies as st

from databind.core import ObjectMapper, SerializeDefaults, Settings, Strict
from databind.json import JsonConverter, JsonModule, get_object_mapper
from databind.json.converters import (
    CollectionConverter,
    DecimalConverter,
    MappingConverter,
    PlainDatatypeConverter,
    SchemaConverter,
    StringifyConverter,
)

from pbt import codec, gen, spec as S
from pbt.props import c12, c21
from pbt.util import Info, Part, attempt, check, describe, dump

ID = "C27"
TECHNIQUE = "property-based testing: differential between options of converters and the equivalent settings, and a model of text converters"
RULE = (
    "Part options: a generated type with a payload and a value, converted by a mapper whose converters are not strict by "
    "default or do not write defaults, which has to behave like the mapper with the equivalent settings. Part containers: "
    "converters that write other collections and mappings have to write the same content as otherwise, in the given "
    "classes, and read it again. Part texts: hierarchies of own classes with text converters (registered or annotated; with "
    "and without parser and formatter, which may fail) against a model. Part delegates: converters that call methods of the class, with any of their options. Non-trivial: the option makes a difference to the outcome, the "
    "result has a collection or mapping, or a text is converted."
)


def mapper(*converters, settings=None):
    """A mapper with these converters in place of the ones of the same types."""

    module = JsonModule()
    own = {type(c): c for c in converters}
    module.converters = [own.get(type(c), c) for c in module.converters]
    m = ObjectMapper(Settings(global_settings=settings))
    m.module.register(module)
    return m


# --- options ----------------------------------------------------------------------------------------------------------


@st.composite
def options(draw):
    how = draw(st.sampled_from(["plain", "decimal", "both", "defaults"]))
    g = gen.Gen(depth=draw(st.sampled_from([0, 1, 2, 2])), leaves=["int", "float", "bool", "str", "decimal", "bytes", "int", "bool"])
    s = draw(g.spec())
    if how == "defaults":
        s = c21.more_defaults(draw, s)
    style = draw(gen.styles())
    raw = draw(gen.raws(s))
    payload = gen.wire_of(s, style, raw)
    swaps = st.one_of(gen.INVALID, st.sampled_from(["1", "1.5", "true", "no", "x", 1, 1.5, True, "NaN", "1e3"]))
    payloads = [payload, draw(gen.mutated(payload, 3, swaps)), draw(gen.mutated(payload, 3, swaps))]
    return {"spec": s, "style": style, "how": how, "raw": raw, "payloads": payloads, "explicit": draw(st.sampled_from([None, None, None, True, False]))}


def run_options(case):
    s, how = case["spec"], case["how"]
    kinds = S.kinds(s)
    if how == "plain" and ("decimal" in kinds or any(x[0] == "sub" for x in S.walk(s))) or how == "decimal" and set(kinds) & {"int", "float", "bool", "str", "bytes", "conv"}:
        how = "both"
    if how == "defaults" and "nt" in kinds:
        return Info(False, ["named tuple"])
    if how == "defaults" and "snan" in codec.canon(case).lower():
        return Info(False, ["signaling NaN"])  # can not be compared to the default
    explicit = case["explicit"]
    if how == "defaults":
        converters, setting, Setting = [SchemaConverter(serialize_defaults=False)], SerializeDefaults(False), SerializeDefaults
    else:
        converters = [PlainDatatypeConverter(strict_by_default=False)] if how != "decimal" else []
        converters += [DecimalConverter(False)] if how != "plain" else []
        setting, Setting = Strict(False), Strict
    given = [] if explicit is None else [Setting(explicit)]
    own = mapper(*converters, settings=given)
    other = get_object_mapper(Settings(global_settings=given or [setting]))
    strict = get_object_mapper()
    different = False
    with S.World(s, case["style"]) as w:
        def result(m, p):
            ok, v = attempt(m.deserialize, copy.deepcopy(p), w.hint)
            return codec.canon(w.abstract(s, v)) if ok else "refused"

        w.loose = True
        for p in case["payloads"]:
            a, b = result(own, p), result(other, p)
            check(a == b, lambda: f"load() of {p!r} with {how} in the converters ({given}): {a}\nbut as a setting: {b}\n{w.source[600:]}")
            different = different or a != result(strict, p)
        value = w.build(s, case["raw"])
        a, b = attempt(own.serialize, value, w.hint), attempt(other.serialize, value, w.hint)
        check(a[0] and b[0], lambda: f"dump() of {value!r} failed: {a[1]} {b[1]}")
        check(codec.canon(a[1]) == codec.canon(b[1]), lambda: f"dump() of {value!r} with {how} in the converters ({given}): {a[1]}\nbut as a setting: {b[1]}\n{w.source[600:]}")
        different = different or codec.canon(a[1]) != codec.canon(dump(value, w.hint))
    return Info(different, [how, f"explicit {explicit}"])


# --- containers -------------------------------------------------------------------------------------------------------


class Items(list):
    pass


class Keys(dict):
    pass


SEQUENCES = {"list": list, "tuple": tuple, "Items": Items, "deque": collections.deque}
DICTS = {"dict": dict, "OrderedDict": collections.OrderedDict, "Keys": Keys}


@st.composite
def containers(draw):
    leaves = [k for k in gen.LEAVES if k not in ("any", "object")]
    s = draw(gen.Gen(depth=draw(st.sampled_from([1, 2, 2, 3])), leaves=leaves).spec())
    if s[0] in S.SCALARS or draw(st.integers(0, 2)) == 0:
        s = draw(st.sampled_from([["list", s], ["dict", ["str"], s], ["vtuple", s], ["seq", ["tuple", [s, s]]], ["mapping", ["path"], ["opt", s]]]))
    return {
        "spec": s,
        "style": draw(gen.styles()),
        "raw": draw(gen.raws(s).filter(bool)),
        "collection": draw(st.sampled_from(sorted(SEQUENCES))),
        "mapping": draw(st.sampled_from(sorted(DICTS))),
        "schema": draw(st.sampled_from(sorted(DICTS))),
    }


def expected_form(w, case, s, v):
    """What is to be written, by the kinds of the types."""

    Seq, Map, Obj = SEQUENCES[case["collection"]], DICTS[case["mapping"]], DICTS[case["schema"]]

    def go(s, v):
        k = s[0]
        if k in ("ann",):
            return go(s[1], v)
        if k == "newtype":
            return go(s[2], v)
        if k == "opt":
            return None if v is None else go(s[1], v)
        if k == "ref":
            return go(w.defs[s[1]], v)
        if k in S.COLLECTIONS:
            return Seq(go(s[1], x) for x in v)
        if k == "tuple":
            return Seq(go(c, x) for c, x in zip(s[1], v))
        if k in S.MAPPINGS:
            return Map((go(s[1], a), go(s[2], b)) for a, b in v.items())
        if k == "union":
            for m in s[1]:
                try:
                    w.ref_dump(m, v)
                except S.Reject:
                    continue
                return go(m, v)
        if k in ("dc", "gdc", "td"):
            get = (lambda n: v[n]) if k == "td" else (lambda n: getattr(v, n))
            return Obj((S.wire_key(f), go(f["t"], get(f["n"]))) for f in S.struct_fields(s) if k != "td" or f["n"] in v)
        if k == "nt":
            return {S.wire_key(f): go(f["t"], getattr(v, f["n"])) for f in s[2]}
        return dump(v, eval(spelling(w, s), w.ns))

    return go(s, v)


def spelling(w, s):
    return S.Renderer({}).type(s)


def shape(v):
    if isinstance(v, (list, tuple, collections.deque)):
        return [type(v).__name__, [shape(x) for x in v]]
    if isinstance(v, dict):
        return [type(v).__name__, [[k, shape(x)] for k, x in sorted(v.items())]]
    return [type(v).__name__, repr(v)]


def run_containers(case):
    s = case["spec"]
    if "dunion" in S.kinds(s):
        return Info(False, ["discriminated union"])
    with S.World(s, case["style"]) as w:
        m = mapper(
            CollectionConverter(json_collection_type=SEQUENCES[case["collection"]]),
            MappingConverter(DICTS[case["mapping"]]),
            SchemaConverter(json_mapping_type=DICTS[case["schema"]]),
        )
        raw = w.normal(s, case["raw"])
        value = w.build(s, case["raw"])
        wire = m.serialize(value, w.hint)
        want = expected_form(w, case, s, value)
        check(shape(wire) == shape(want), lambda: f"dump() of {value!r} gave {wire!r}, expected {want!r}\n{w.source[600:]}")
        # Everything that is a collection or a mapping is accepted in place of the plain ones.
        back = m.deserialize(wire, w.hint)
        try:
            got = w.abstract(s, back)
        except S.Mismatch as exc:
            check(False, lambda: f"load() of {wire!r} gave {back!r}: {exc}")
        check(codec.canon(got) == codec.canon(raw), lambda: f"load() of {wire!r} gave {back!r} instead of {value!r}\n{w.source[600:]}")
    return Info(isinstance(wire, (list, tuple, dict, collections.deque)) and len(wire) > 0, [case["collection"], case["mapping"]] + S.kinds(s))


# --- texts ------------------------------------------------------------------------------------------------------------


class A:
    """Constructed from any text but the ones with a `!` or `?`."""

    def __init__(self, text):
        if "!" in text:
            raise ValueError("exclamation")
        if "?" in text:
            raise TypeError("question")
        self.text = text

    def __str__(self):
        return f"<{type(self).__name__} {self.text}>"

    def __eq__(self, other):
        return type(self) is type(other) and self.text == other.text

    def __hash__(self):
        return hash(self.text)


class B(A):
    pass


class C(B):
    def __str__(self):
        return self.text


class D(A):
    pass


class E:
    """Of no relation to the others; unlike them, it can not be constructed from text."""

    text = "e"

    def __eq__(self, other):
        return type(self) is type(other)

    def __hash__(self):
        return 1


CLASSES = {"A": A, "B": B, "C": C, "D": D, "E": E, "ip": ipaddress.IPv4Address, "net": ipaddress.IPv6Network, "complex": complex}


def spoilt(text):
    if text.startswith("v"):
        raise ValueError(text)
    if text.startswith("t"):
        raise TypeError(text)
    return text


# Given the class of the converter
PARSERS = {
    "none": lambda cls: None,
    "constant": lambda cls: lambda text: 5,
    "null": lambda cls: lambda text: None,
    "marked": lambda cls: lambda text: (cls.__name__, spoilt(text)),
    "class": lambda cls: cls,
    "upper": lambda cls: lambda text: cls(text.upper()),
}
FORMATTERS = {
    "none": lambda cls: None,
    "repr": lambda cls: lambda v: f"{cls.__name__}|{v}",
    "number": lambda cls: lambda v: 7,
    "empty": lambda cls: lambda v: "",
}
TEXTS = ["", "x", "!", "?", "vx", "tx", "1.2.3.4", "::/0", "1+2j", "300.1.1.1", "e"]
WRAPS = ["", "list", "dict", "key", "opt", "field", "tuple"]


@st.composite
def texts(draw):
    def converter():
        return [
            draw(st.sampled_from(["A", "A", "A", "B", "B", "C", "D", "E", "ip", "net", "complex"])),
            draw(st.sampled_from(["none", "none", "none", "marked", "upper", "class", "constant", "null"])),
            draw(st.sampled_from(["none", "none", "none", "repr", "number", "empty"])),
        ]

    converters = [converter() for _ in range(draw(st.integers(0, 4)))]
    places = [draw(st.booleans()) for _ in converters]
    steps = []
    for _ in range(draw(st.integers(1, 4))):
        near = [k for c in converters for k in CLASSES if issubclass(CLASSES[k], CLASSES[c[0]])]
        target = draw(st.sampled_from(near if near and draw(st.integers(0, 3)) else ["A", "B", "B", "C", "D", "E", "ip", "net", "complex"]))
        step = {"type": target, "wrap": draw(st.sampled_from(WRAPS)), "attached": converter() if draw(st.integers(0, 4)) == 0 else None}
        step["supplier"] = draw(st.sampled_from(["instance", "function", "class"]))
        if draw(st.booleans()):
            step["load"] = draw(st.one_of(st.sampled_from(TEXTS), st.sampled_from(TEXTS), st.text("!?vtx1.", max_size=4), gen.json_scalars()))
        else:
            step["dump"] = [draw(st.sampled_from([target, target, target, *CLASSES])), draw(st.sampled_from(TEXTS))]
        steps.append(step)
    return {"converters": [[*c, first] for c, first in zip(converters, places)], "steps": steps}


def text_converter(cls, parser, formatter):
    args = {}
    if parser != "none":
        args["parser"] = PARSERS[parser](CLASSES[cls])
    if formatter != "none":
        args["formatter"] = FORMATTERS[formatter](CLASSES[cls])
    return StringifyConverter(CLASSES[cls], **args)


def make(cls, text):
    try:
        return CLASSES[cls]() if cls == "E" else CLASSES[cls](text)
    except (TypeError, ValueError):
        return {"ip": ipaddress.IPv4Address(5), "net": ipaddress.IPv6Network("::1/128"), "complex": 1j}.get(cls) or CLASSES[cls]("x")


def wrapped(hint, wrap, v, value):
    """The type, the value in it and a function to get it out again."""

    @dataclasses.dataclass
    class Holder:
        member: hint  # type: ignore[valid-type]

    if wrap == "list":
        return t.List[hint], [v], lambda x: x[0]
    if wrap == "dict":
        return t.Dict[str, hint], {"k": v}, lambda x: x["k"]
    if wrap == "key":
        return t.Dict[hint, int], {v: 1}, lambda x: list(x)[0]
    if wrap == "opt":
        return t.Optional[hint], v, lambda x: x
    if wrap == "field":
        return Holder, (Holder(v) if value else {"member": v}), lambda x: x["member"] if value else x.member
    if wrap == "tuple":
        return t.Tuple[int, hint], ((1, v) if value else [1, v]), lambda x: x[1]
    return hint, v, lambda x: x


def run_texts(case):
    m = get_object_mapper()
    order = []
    for cls, parser, formatter, first in case["converters"]:
        m.module.register(text_converter(cls, parser, formatter), first=first)
        order.insert(0 if first else len(order), (cls, parser, formatter))
    labels = set()
    for step in case["steps"]:
        target = CLASSES[step["type"]]
        hint = target
        mine = list(order)
        if step["attached"]:
            conv = text_converter(*step["attached"])
            made = {"instance": conv, "function": lambda: conv, "class": type("Supplier", (), {"__new__": lambda cls: conv})}[step["supplier"]]
            hint = te.Annotated[target, JsonConverter(made)]
            # It is the module of the library that asks the attached converter.
            mine.insert(sum(c[3] for c in case["converters"]), step["attached"])
        mine = [c for c in mine if issubclass(target, CLASSES[c[0]])]
        loading = "load" in step
        v = step["load"] if loading else make(*step["dump"])
        if step["wrap"] == "opt" and v is None:
            continue
        expected = None
        for cls, parser, formatter in mine:
            if loading:
                if type(v) is not str:
                    continue
                try:
                    expected = [(PARSERS[parser](CLASSES[cls]) or target)(v)]
                except (TypeError, ValueError):
                    continue
            else:
                if not isinstance(v, target):
                    continue
                expected = [(FORMATTERS[formatter](CLASSES[cls]) or str)(v)]
            break
        T, arg, out = wrapped(hint, step["wrap"], v, not loading)
        ok, got = attempt(m.deserialize if loading else m.serialize, arg, T)
        what = f"{'load' if loading else 'dump'}() of {arg!r} as {T} (converters {mine})"
        if expected is None:
            check(not ok, lambda: f"{what} gave {got!r}")
            labels.add("refused")
        else:
            check(ok, lambda: f"{what} failed: {got}")
            got = out(got)
            same = got == expected[0] or got != got and repr(got) == repr(expected[0])  # complex("nan") is unequal to itself
            check(type(got) is type(expected[0]) and same, lambda: f"{what} gave {got!r}, expected {expected[0]!r}")
            labels.add("loaded" if loading else "dumped")
    return Info(bool(labels & {"loaded", "dumped"}), sorted(labels))


PARTS = {
    "texts": Part(texts, run_texts, 2400, 120000),
    "options": Part(options, run_options, 1200, 50000, describe),
    "delegates": Part(c12.delegate_cases, c12.run_delegate, 600, 20000),
    "containers": Part(containers, run_containers, 1200, 50000, describe),
}
REGRESSIONS = []
