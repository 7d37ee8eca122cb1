import copy
import json
import re

from hypothesis import strategies as st
from typeapi import TypeHint

from databind.core import ConversionError, Direction, Location, Module, ObjectMapper, Settings
from databind.json import JsonModule, dump, dumps, get_object_mapper, load, loads

from pbt import codec, gen, spec as S
from pbt.props.c25 import SETTINGS, failure
from pbt.util import Info, Part, check, describe

ID = "C26"
TECHNIQUE = "property-based testing: metamorphic relation between all functions and mappers that do the same conversion"
RULE = (
    "A case is a generated type with a payload (possibly invalid) or a value (possibly of another type), settings and a file "
    "name, converted through every way of the library to do so: the functions of the module for data and for text, mappers with the settings "
    "given to the call, to the mapper or split between them, copies, mappers put together by hand, and the type as a hint or wrapped. "
    "All have to give the same value, the same data or the same error; the text is the standard encoding of the "
    "data with the layout that was asked for. Non-trivial: the type has at least two nodes, or the conversion fails."
)


@st.composite
def cases(draw):
    g = gen.Gen(depth=draw(st.sampled_from([0, 1, 1, 2, 2, 3])))
    s = draw(g.spec())
    style = draw(gen.styles())
    case = {
        "spec": s,
        "style": style,
        "settings": draw(st.sampled_from(["", "", *SETTINGS])),
        "filename": draw(st.sampled_from([None, None, "a.json", "some dir/x y.yml", "", "{}", "%s"])),
    }
    if draw(st.booleans()):
        case["payload"] = draw(gen.payloads(s, style, exotic=draw(st.integers(0, 3)) == 0))[1]
        case["indent"] = draw(st.sampled_from([None, 2, "\t"]))
    else:
        case["raw"] = draw(gen.raws(s))
        if draw(st.integers(0, 3)) == 0:
            case["as"] = draw(st.sampled_from(gen.LEAVES))
        case["indent"] = draw(st.sampled_from([None, None, 0, 1, 4, "\t", "--"]))
        case["sort_keys"] = draw(st.booleans())
    return case


def mappers(settings):
    """Mappers that are to behave the same, each with the settings for the calls: (name, mapper, settings of the call)"""

    def own(settings=None, nested=False):
        m = ObjectMapper(Settings(global_settings=settings) if settings else None)
        module = JsonModule()
        if nested:
            outer = Module("outer")
            outer.register(module)
            module = outer
        m.module.register(module)
        return m

    yield "the settings in the call", get_object_mapper(), settings
    yield "no list of settings" if not settings else "copied list of settings", get_object_mapper(), list(settings) or None
    yield "the settings of the mapper", get_object_mapper(Settings(global_settings=settings)), None
    yield "the settings of the mapper, and an empty list", get_object_mapper(Settings(global_settings=settings)), []
    m = get_object_mapper()
    for x in settings:
        m.settings.add_global(x)
    yield "settings added to the mapper", m, None
    yield "a copy of it", m.copy(), None
    yield "settings in the parent", get_object_mapper(Settings(Settings(global_settings=settings))), None
    m = get_object_mapper()
    yield "other settings for the call", m, Settings(m.settings, global_settings=settings)
    m = get_object_mapper(Settings())
    m.settings.add_conditional(lambda ctx: True, settings[0]) if settings else None
    yield "settings of both", m, settings[1:]
    yield "a mapper put together", own(settings), None
    yield "a mapper of nested modules", own(None, True), settings
    yield "its copy", own(settings, True).copy(), None
    m = ObjectMapper(Settings(global_settings=settings))
    for converter in JsonModule().converters:
        m.module.register(converter)
    yield "a mapper with all converters by itself", m, None
    yield "a copy of that", m.copy(), None


def normal(text):
    return re.sub(r"0x[0-9a-f]+", "0x", text)


def run(case):
    s = case["spec"]
    settings = SETTINGS[case["settings"]]()
    filename = case["filename"]
    loading = "payload" in case
    with S.World(s, case["style"]) as w:
        if loading:
            payload = case["payload"]
            value = None
        else:
            value = w.build(s, case["raw"])
        hint = w.hint if "as" not in case else eval(S.SCALARS[case["as"]], w.ns)

        def outcome(fn, *args, text=False):
            try:
                if loading:
                    result = fn(args[0] if args else copy.deepcopy(payload))
                else:
                    result = fn(value)
            except ConversionError as exc:
                return normal(failure(exc))
            if loading:
                try:
                    return "loaded " + codec.canon(w.abstract(s, result))
                except S.Mismatch as exc:
                    return normal(f"loaded {type(result)} {exc}")
            if text:
                check(type(result) is str, lambda: f"dumps() gave {result!r}")
                return "dumped " + result
            try:
                return "dumped " + (encoded(result) if not text else result)
            except (TypeError, ValueError) as exc:
                return f"not JSON: {exc}"

        def encoded(wire):
            return json.dumps(wire, indent=case["indent"], sort_keys=case["sort_keys"])

        if loading:
            first = outcome(lambda p: get_object_mapper().deserialize(p, hint, filename, settings))
        else:
            first = outcome(lambda v: get_object_mapper().serialize(v, hint, filename, settings))

        def same(what, other):
            check(other == first, lambda: f"{what}: {other}\nbut otherwise: {first}\n{w.source[600:]}")

        direction = Direction.DESERIALIZE if loading else Direction.SERIALIZE
        size = gen.nodes(payload if loading else case["raw"])
        for n, (name, m, given) in enumerate(mappers(settings)):
            if size > 100 and (n + size) % (size // 50):
                continue  # A conversion of much data takes a while; other sizes are for the other ways.
            method = m.deserialize if loading else m.serialize
            same(name, outcome(lambda v: method(v, hint, filename, given)))
            same(f"{name}, as keywords", outcome(lambda v: method(v, datatype=hint, settings=given, filename=filename)))
            same(f"{name}, by convert()", outcome(lambda v: m.convert(direction, v, hint, Location(filename, None, None), given)))
            if filename is None:
                same(f"{name}, by convert() without location", outcome(lambda v: m.convert(direction, v, hint, settings=given)))
        wrapped = TypeHint(hint)
        m = get_object_mapper()
        same("the type as TypeHint", outcome(lambda v: (m.deserialize if loading else m.serialize)(v, wrapped, filename, settings)))
        fn = load if loading else dump
        same("the function", outcome(lambda v: fn(v, hint, filename, settings)))
        same("the function with keywords", outcome(lambda v: fn(v, settings=tuple(settings) and settings, filename=filename, type_=hint)))
        same("the function with a TypeHint", outcome(lambda v: fn(v, wrapped, filename, settings)))
        if loading:
            if S.is_json_native(payload):
                text = json.dumps(payload, indent=case["indent"])
                same("loads()", outcome(lambda p: loads(p, hint, filename, settings), text))
                same("loads() with repeated keys", outcome(lambda p: loads(p, hint, filename, settings), repeated(payload)))
                same("loads() with keywords", outcome(lambda p: loads(p, type_=hint, settings=settings, filename=filename), "\n " + text + " "))
        elif not first.startswith("not JSON"):
            args = {"indent": case["indent"], "sort_keys": case["sort_keys"]}
            same("dumps()", outcome(lambda v: dumps(v, hint, filename, settings, **args), text=True))
            same("dumps() by position", outcome(lambda v: dumps(v, hint, filename, settings, case["indent"], case["sort_keys"]), text=True))
            if case["indent"] is None and not case["sort_keys"]:
                same("dumps() without options", outcome(lambda v: dumps(v, hint, filename=filename, settings=settings), text=True))
        # The name of the file only is part of errors.
        plain = outcome(lambda v: fn(v, hint, None, settings))
        if filename is not None and first.startswith("failed"):
            check(plain.startswith("failed"), f"without file name: {plain}")
            check(plain.split("\n")[0] == first.split("\n")[0], f"without file name: {plain}\nbut with it: {first}")
        else:
            same("without file name", plain)
    failed = first.startswith("failed")
    return Info(failed or S.size(s) > 1, ["load" if loading else "dump", "failed" if failed else "succeeded", f"settings {case['settings']}"])


def repeated(p):
    """JSON with keys that occur twice, of which the last one counts."""

    if isinstance(p, dict) and p:
        items = [f"{json.dumps(k)}: {repeated(v)}" for k, v in p.items()]
        return "{" + ", ".join([f"{json.dumps(next(iter(p)))}: 17", *items]) + "}"
    if isinstance(p, list):
        return "[" + ", ".join(map(repeated, p)) + "]"
    return json.dumps(p)


PARTS = {"ways": Part(cases, run, 2400, 100000, describe)}
REGRESSIONS = []
