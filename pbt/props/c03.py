import collections
import types
import typing as t

from hypothesis import strategies as st

from pbt import codec, gen, spec as S
from pbt.util import Info, Part, Violation, attempt, describe, load

ID = "C03"
TECHNIQUE = "property-based fuzzing of payloads with a conformance oracle for results and errors"
RULE = (
    "A case is a generated type (rendered as a Python module with its classes) together with a payload: one of a value of "
    "the type, one with random mutations (including keys that are no strings, tuples, bytes), or an unrelated one; or, in the "
    "second part, together with a valid payload of which every place is replaced in turn by up to 200 others; in a third "
    "part, named tuples of which the types of the fields are not declared are loaded; in a fourth part, mappings whose keys are collections. Non-trivial: the payload is not simply valid, or some of the replacements are loaded and some refused."
)


@st.composite
def cases(draw):
    g = gen.Gen(depth=draw(st.sampled_from([0, 1, 1, 2, 2, 3])))
    s = draw(g.spec())
    style = draw(gen.styles())
    how, payload = draw(gen.payloads(s, style, exotic=draw(st.booleans())))
    return {"spec": s, "payload": payload, "style": style, "how": how}


def run(case):
    s = case["spec"]
    with S.World(s, case["style"]) as w:
        ok, value = attempt(load, case["payload"], w.hint)
        if ok:
            w.loose = True
            try:
                w.abstract(s, value)
            except S.Mismatch as exc:
                raise Violation(f"load() of {case['payload']!r} returned {value!r}, which is not a value of the type: {exc}")
    return Info(case["how"] != "valid", [case["how"], f"{case['how']}:{'loaded' if ok else 'refused'}"] + S.kinds(s))


@st.composite
def place_cases(draw):
    g = gen.Gen(depth=draw(st.sampled_from([0, 0, 1, 1, 2, 3])))
    s = draw(g.spec())
    style = draw(gen.styles())
    return {"spec": s, "payload": gen.wire_of(s, style, draw(gen.raws(s))), "style": style, "how": "places", "skip": draw(st.integers(0, 15))}


def run_places(case):
    """Everything that can be wrong with a payload is put in every place of a valid one."""

    s, p = case["spec"], case["payload"]
    loaded = tried = 0
    with S.World(s, case["style"]) as w:
        w.loose = True
        places = list(gen.places(p))
        step = 1 + gen.nodes(p) // 25
        for path in places[:4] + places[4:][case["skip"] :][:3]:
            target = p
            for x in path:
                target = target[x]
            for n, x in enumerate(gen.EVERYTHING + gen.UNUSUAL + gen.lookalikes(target)):
                if (n + case["skip"]) % step:
                    continue
                q = gen.replaced(p, path, x)
                ok, value = attempt(load, q, w.hint)
                tried += 1
                loaded += ok
                if ok:
                    try:
                        w.abstract(s, value)
                    except S.Mismatch as exc:
                        raise Violation(f"load() of {q!r} returned {value!r}, which is not a value of the type: {exc}")
    return Info(0 < loaded < tried, [f"payloads of a case: {len(str(tried))} digits"] + S.kinds(s))


ITEMS = {"int": (int, [1, 0]), "str": (str, ["", "x"]), "any": (t.Any, [None, [1]]), "ints": (t.List[int], [[], [2]])}


@st.composite
def record_cases(draw):
    item = draw(st.sampled_from(sorted(ITEMS)))
    valid = st.sampled_from(ITEMS[item][1])
    return {
        "names": draw(st.lists(st.sampled_from("abcd"), min_size=1, max_size=3, unique=True)),
        "defaults": draw(st.integers(0, 2)),
        "item": item,
        "base": draw(st.sampled_from(["Sequence", "Collection"])),
        "outer": draw(st.booleans()),
        "payload": draw(st.one_of(st.lists(valid, max_size=4), st.lists(st.one_of(valid, valid, st.sampled_from([1.5, "y", None, {}])), max_size=4), st.sampled_from(["ab", {}, None, 3, {"a": 1}]))),
    }


def run_records(case):
    """Named tuples of which only the type of all items is known."""

    names, p = case["names"], case["payload"]
    defaults = [case["defaults"]] * min(case["defaults"], len(names))
    hint, _ = ITEMS[case["item"]]
    plain = collections.namedtuple("plain", names, defaults=defaults)  # type: ignore[misc]
    cls = types.new_class("Record", (plain, getattr(t, case["base"])[hint]))
    valid = isinstance(p, list) and len(names) - len(defaults) <= len(p) <= len(names) and all(attempt(load, x, hint)[0] for x in p)
    ok, value = attempt(load, {"k": p} if case["outer"] else p, t.Dict[str, cls] if case["outer"] else cls)
    if ok != valid:
        raise Violation(f"load() of {p!r} as named tuple of {names} (defaults: {defaults}) of {hint} gave {value!r}")
    if ok:
        value = value["k"] if case["outer"] else value
        if type(value) is not cls or list(value) != p + defaults[len(defaults) - len(names) + len(p) :]:
            raise Violation(f"load() of {p!r} as named tuple of {names} (defaults: {defaults}) of {hint} gave {value!r}")
    return Info(isinstance(p, list) and bool(p), ["record: " + ("loaded" if ok else "refused")])


HASHABLE = {"tuple": t.Tuple[int, ...], "frozenset": t.FrozenSet[int], "pair": t.Tuple[int, int]}
UNHASHABLE = {"list": t.List[int], "set": t.Set[int], "sequence": t.Sequence[int], "any": t.Any}
KEY_SHAPES = {
    "root": (lambda h: h, lambda v: v),
    "list": (lambda h: t.List[h], lambda v: [v]),
    "optional": (lambda h: t.Optional[h], lambda v: v),
    "dict": (lambda h: t.Dict[str, h], lambda v: {"k": v}),
    "union": (lambda h: t.Union[int, h], lambda v: v),
}


@st.composite
def key_cases(draw):
    return {
        "type": draw(st.sampled_from(sorted(HASHABLE) + sorted(UNHASHABLE))),
        "mapping": draw(st.sampled_from(["Dict", "Mapping", "OrderedDict", "DefaultDict"])),
        "keys": draw(st.lists(st.lists(st.integers(0, 3), min_size=2, max_size=2, unique=True).map(sorted), max_size=3, unique_by=tuple)),
        "shape": draw(st.sampled_from(sorted(KEY_SHAPES))),
    }


def run_keys(case):
    """Keys of mappings that are collections. (Such payloads are no JSON.)"""

    kind, keys = case["type"], [tuple(k) for k in case["keys"]]
    key_type = {**HASHABLE, **UNHASHABLE}[kind]
    wrap_hint, wrap = KEY_SHAPES[case["shape"]]
    hint = wrap_hint(getattr(t, case["mapping"])[key_type, int])
    payload = wrap({k: i for i, k in enumerate(keys)})
    ok, value = attempt(load, payload, hint)
    if kind in UNHASHABLE and kind != "any" and keys:
        if ok:
            raise Violation(f"load({payload!r}, {hint}) gave {value!r}, but the keys can't be keys of a mapping")
    else:
        make = {"frozenset": frozenset, "any": lambda k: k}.get(kind, tuple)
        expected = wrap({make(k): i for i, k in enumerate(keys)})
        if not ok or value != expected:
            raise Violation(f"load({payload!r}, {hint}) gave {value!r}, expected {expected!r}")
    return Info(bool(keys), ["keys: " + kind])


PARTS = {
    "keys": Part(key_cases, run_keys, 300, 4000),
    "records": Part(record_cases, run_records, 400, 8000),
    "payloads": Part(cases, run, 3200, 150000, describe),
    "places": Part(place_cases, run_places, 500, 30000, describe),
}
REGRESSIONS = []
