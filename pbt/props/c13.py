import collections
import dataclasses
import decimal
import enum
import pathlib
import types
import typing as t
import uuid

from hypothesis import strategies as st

from databind.core import ExtraKeys, SerializeDefaults, Settings, Strict
from databind.json import get_object_mapper

from pbt import codec, gen, spec as S
from pbt.props import c07
from pbt.util import Info, Part, Violation, attempt, check, describe, dump, load

ID = "C13"
TECHNIQUE = "property-based testing: snapshots of inputs, and object identities of inputs, results and defaults"
RULE = (
    "A case is a generated type together with a value or a payload of it (possibly invalid, or with keys left out so that "
    "defaults are used), which is converted several times. Compared are snapshots of the inputs before and after, and the "
    "identities of all mutable objects reachable from inputs and results; then one result is overwritten in all places "
    "and the conversion is done once more. Non-trivial: there is a mutable object in the input or in a result."
)


def mutables(v: t.Any, out: t.Optional[t.Dict[int, t.Any]] = None) -> t.Dict[int, t.Any]:
    """All mutable objects that are part of the value, by their identity."""

    out = {} if out is None else out
    if isinstance(v, (type, types.FunctionType, enum.Enum, decimal.Decimal, uuid.UUID, pathlib.PurePath)) or id(v) in out:
        return out
    if isinstance(v, t.Mapping):
        out[id(v)] = v
        for a, b in v.items():
            mutables(a, out)
            mutables(b, out)
    elif isinstance(v, (list, set, collections.deque, bytearray)):
        out[id(v)] = v
        for x in list(v):
            mutables(x, out)
    elif isinstance(v, (tuple, frozenset)):
        for x in v:
            mutables(x, out)
    elif dataclasses.is_dataclass(v) or type(v).__module__.startswith("pbt_case_"):
        if not (dataclasses.is_dataclass(v) and type(v).__dataclass_params__.frozen):
            out[id(v)] = v
        for n in [f.name for f in dataclasses.fields(v)] if dataclasses.is_dataclass(v) else list(vars(v)):
            mutables(getattr(v, n, None), out)
    return out


class Spy(S.World):
    """Collects the mutable parts of arbitrary values that are part of the values it looks at."""

    def __init__(self, *args):
        self.free = {}
        super().__init__(*args)

    def build(self, s, raw):
        v = super().build(s, raw)
        if s[0] in ("any", "object"):
            mutables(v, self.free)
        return v

    def abstract(self, s, v):
        if s[0] in ("any", "object"):
            mutables(v, self.free)
        return super().abstract(s, v)


def snapshot(v, seen=None):
    """The structure of a value down to the plain parts, with the identities of the mutable objects."""

    if isinstance(v, t.Mapping):
        return (type(v).__name__, id(v), [(snapshot(a), snapshot(b)) for a, b in v.items()])
    if isinstance(v, (list, tuple, collections.deque)):
        return (type(v).__name__, id(v), [snapshot(x) for x in v])
    if isinstance(v, (set, frozenset)):
        return (type(v).__name__, id(v), sorted(repr(x) for x in v))
    if dataclasses.is_dataclass(v) and not isinstance(v, type):
        return (type(v).__name__, id(v), [(f.name, snapshot(getattr(v, f.name, None))) for f in dataclasses.fields(v)])
    if type(v).__module__.startswith("pbt_case_") and not isinstance(v, enum.Enum):
        return (type(v).__name__, id(v), sorted((k, repr(x)) for k, x in vars(v).items()))
    return (type(v).__name__, repr(v))


def declared(w):
    """What is declared on the classes of the world."""

    out = {}
    for name, cls in w.ns.items():
        if isinstance(cls, type) and cls.__module__ == w.name and dataclasses.is_dataclass(cls):
            out[name] = [
                (f.name, repr(f.type), id(f.default), repr(f.default), id(f.default_factory), f.init)
                for f in dataclasses.fields(cls)
            ]
            out[name].append(sorted(n for n in vars(cls) if n in {f.name for f in dataclasses.fields(cls)}))
    return out


def spoil(v):
    """Overwrites everything that can be overwritten."""

    for x in mutables(v).values():
        try:
            if isinstance(x, t.MutableMapping):
                x.clear()
                x["spoiled"] = "spoiled"
            elif isinstance(x, (list, collections.deque)):
                x.clear()
                x.append("spoiled")
            elif isinstance(x, set):
                x.clear()
                x.add("spoiled")
            elif dataclasses.is_dataclass(x):
                for f in dataclasses.fields(x):
                    setattr(x, f.name, "spoiled")
            else:
                for n in list(vars(x)):
                    setattr(x, n, "spoiled")
        except (AttributeError, TypeError, KeyError):
            pass


def disjoint(a, b, w, what):
    shared = [x for i, x in mutables(a).items() if i in mutables(b) and i not in w.free]
    check(not shared, lambda: f"{what} share {shared[0]!r}\n{w.source[600:]}")


def make_settings(which):
    return {
        "none": None,
        "list": [ExtraKeys(True), Strict(True)],
        "empty": [],
        "defaults": [SerializeDefaults(False)],
        "own": Settings(None, [ExtraKeys(True)]),
    }[which]


def settings_snapshot(x):
    if isinstance(x, list):
        return [(id(s), sorted(vars(s).items(), key=lambda p: p[0])) for s in x]
    if isinstance(x, Settings):
        return (settings_snapshot(x.global_settings), list(x.local_settings), len(x.providers), id(x.parent))
    return x


@st.composite
def dump_cases(draw):
    flat = draw(st.integers(0, 3)) == 0
    s = draw(c07.specs() if flat else gen.Gen(depth=draw(st.sampled_from([1, 2, 2, 3]))).spec())
    return {"spec": s, "raw": draw(gen.raws(s)), "style": draw(gen.styles()), "settings": draw(st.sampled_from(["none", "none", "list", "empty", "defaults", "own"])), "shared": draw(st.booleans())}


def convert(mapper, direction, case, *args):
    settings = make_settings(case["settings"])
    before = settings_snapshot(settings)
    result = attempt(getattr(mapper, direction), *args, settings=settings)
    check(settings_snapshot(settings) == before, "the settings that were passed in have changed")
    return result


def run_dump(case):
    s = case["spec"]
    with Spy(s, case["style"]) as w:
        classes = declared(w)
        value = w.build(s, case["raw"])
        before = snapshot(value)
        mapper = get_object_mapper()
        ok, first = convert(mapper, "serialize", case, value, w.hint)
        check(snapshot(value) == before, lambda: f"dump() has changed the value to {value!r}\n{w.source[600:]}")
        if not ok:
            return Info(False, ["refused"])
        text = codec.canon(first)
        disjoint(first, value, w, "the dumped form and the value")
        other = mapper if case["shared"] else get_object_mapper()
        ok, second = convert(other, "serialize", case, value, w.hint)
        check(ok, "the second dump() failed")
        disjoint(first, second, w, "the results of two calls of dump()")
        check(codec.canon(second) == text and codec.canon(first) == text, lambda: f"dump() gave {first!r} and {second!r}")
        spoil(first)
        if not w.free:
            check(snapshot(value) == before, "changing the dumped form changes the value")
        ok, third = convert(other, "serialize", case, w.build(s, case["raw"]), w.hint)
        check(ok and codec.canon(third) == text, lambda: f"after changing a result, dump() gave {third!r} instead of {text}")
        check(declared(w) == classes, "the declaration of a class has changed")
        return Info(bool(mutables(value)), S.kinds(s))


@st.composite
def load_cases(draw):
    flat = draw(st.integers(0, 3)) == 0
    s = draw(c07.specs() if flat else gen.Gen(depth=draw(st.sampled_from([1, 2, 2, 3]))).spec())
    style = draw(gen.styles())
    how, payload = draw(gen.payloads(s, style, valid=6, mutate=3, random=1))
    payload = S.copy_json(payload)
    if how == "valid":
        with S.World(s, style) as w:
            # Leave out some of the keys that have defaults.
            for path in list(dict_paths(payload))[:12]:
                if draw(st.booleans()):
                    thinner = without(payload, path)
                    try:
                        w.ref_load(s, thinner)
                    except (S.Reject, S.Unknown):
                        continue
                    payload = thinner
    return {"spec": s, "payload": payload, "style": style, "settings": draw(st.sampled_from(["none", "none", "list", "empty", "own"])), "shared": draw(st.booleans())}


def dict_paths(v, path=()):
    if isinstance(v, dict):
        for k, x in v.items():
            yield path + (k,)
            yield from dict_paths(x, path + (k,))
    elif isinstance(v, list):
        for i, x in enumerate(v):
            yield from dict_paths(x, path + (i,))


def without(v, path):
    v = S.copy_json(v)
    target = v
    for p in path[:-1]:
        try:
            target = target[p]
        except (KeyError, IndexError):
            return v
    target.pop(path[-1], None)
    return v


def run_load(case):
    s = case["spec"]
    original = codec.canon(case["payload"])
    payload = codec.dec(codec.enc(case["payload"]))
    with Spy(s, case["style"]) as w:
        classes = declared(w)
        before = snapshot(payload)
        mapper = get_object_mapper()
        ok, first = convert(mapper, "deserialize", case, payload, w.hint)
        check(snapshot(payload) == before, lambda: f"load() has changed the payload to {payload!r}\n{w.source[600:]}")
        if not ok:
            str(first)
            check(snapshot(payload) == before, "looking at the error has changed the payload")
            return Info(bool(mutables(payload)), ["refused"])
        try:
            raw = codec.canon(w.abstract(s, first))
        except S.Mismatch:
            return Info(False, ["unspecified"])
        disjoint(first, payload, w, "the loaded value and the payload")
        other = mapper if case["shared"] else get_object_mapper()
        ok, second = convert(other, "deserialize", case, payload, w.hint)
        check(ok, "the second load() failed")
        check(codec.canon(w.abstract(s, second)) == raw, lambda: f"load() gave {first!r} and {second!r}")
        disjoint(first, second, w, "the results of two calls of load()")
        n = len(mutables(first))
        spoil(first)
        if not has_free(s):
            check(codec.canon(w.abstract(s, second)) == raw, "changing a loaded value changes another one")
        ok, third = convert(other, "deserialize", case, codec.dec(codec.enc(case["payload"])), w.hint)
        check(ok and codec.canon(w.abstract(s, third)) == raw, lambda: f"after changing a result, load() gave {third!r} instead of {raw}\n{w.source[600:]}")
        check(codec.canon(case["payload"]) == original, "the payload has changed")
        check(declared(w) == classes, "the declaration of a class has changed")
        return Info(n > 0, S.kinds(s))


def has_free(s):
    return any(x[0] in ("any", "object") for x in S.walk(s))


PARTS = {"dump": Part(dump_cases, run_dump, 1200, 60000, describe), "load": Part(load_cases, run_load, 2000, 90000, describe)}
REGRESSIONS = []
