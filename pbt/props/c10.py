import dataclasses
import datetime
import decimal
import typing as t

import typing_extensions as te
from hypothesis import strategies as st
from typeapi import AnnotatedTypeHint, ClassTypeHint

from databind.core import (
    Alias,
    ClassDecoratorSetting,
    Context,
    Converter,
    DateFormat,
    ExtraKeys,
    Precision,
    Priority,
    SerializeDefaults,
    Setting,
    Settings,
    Strict,
)
from databind.core.settings import SettingsProvider
from databind.json import get_object_mapper

from pbt.util import Info, Part, Violation, attempt, check

ID = "C10"
TECHNIQUE = "model-based property testing: settings in every place with every priority against a resolution model"
RULE = (
    "A case puts settings (built-in or user-defined ones) with any priorities into any of the places: annotation, class, "
    "per-type, per-condition and global settings of the call, the mapper and its parents; and it has a type to convert. "
    "Non-trivial: at least two settings compete."
)


class Plain(Setting):
    def __init__(self, tag, priority=Priority.NORMAL):
        self.tag = tag
        self.priority = priority


class Derived(Plain):
    pass


class Foreign(Setting):
    """Never the setting that is looked for."""


class Decorator(ClassDecoratorSetting):
    def __init__(self, tag, priority=Priority.NORMAL):
        super().__init__()
        self.tag = tag
        self.priority = priority


class DerivedDecorator(Decorator):
    pass


class OwnExtraKeys(ExtraKeys):
    """A kind of its own."""


class OwnStrict(Strict):
    """A kind of its own."""


class Silent(Setting):
    """Does not say anything about its priority."""

    def __init__(self, tag):
        self.tag = tag


class Probe(Converter):
    """Returns the tag of the setting that it sees."""

    def __init__(self, setting_type, target):
        self.setting_type = setting_type
        self.target = target

    def convert(self, ctx):
        hint = ctx.datatype
        while isinstance(hint, AnnotatedTypeHint):
            hint = hint[0]
        if not isinstance(hint, ClassTypeHint) or hint.type is not self.target:
            raise NotImplementedError
        found = ctx.get_setting(self.setting_type)
        return None if found is None else found.tag


FORMATS = ["%Y-%m-%d", "%d.%m.%Y", "%m/%d/%Y", "%Y/%m/%d", "%d-%m-%Y", "%Y%m%d", "%d/%m/%Y", "%m-%d-%Y", "%Y.%m.%d", "%d %m %Y"]
DATE = datetime.date(2021, 3, 14)


class Kind:
    """What is converted, and what a setting with a given number looks like and does."""

    classes = False  # Whether the setting can be attached to classes

    def make(self, i, prio):
        raise NotImplementedError

    def target(self):
        raise NotImplementedError

    def observe(self, mapper, hint, kwargs):
        raise NotImplementedError

    def expect(self, i):
        raise NotImplementedError


class ProbeKind(Kind):
    def __init__(self, cls, query, classes=False):
        self.cls, self.query, self.classes = cls, query, classes

    def make(self, i, prio):
        cls = self.cls if not isinstance(self.cls, list) else self.cls[i % len(self.cls)]
        return cls(i) if cls is Silent else cls(i, prio)

    def target(self):
        return type("Target", (), {})

    def prepare(self, mapper, target):
        mapper.module.register(Probe(self.query, target), first=True)

    def observe(self, mapper, hint, wrap, kwargs):
        return (
            mapper.deserialize(wrap("value"), hint, **kwargs),
            mapper.serialize(wrap("value"), hint, **kwargs),
        )

    def expect(self, i):
        return i


class StrictKind(Kind):
    def make(self, i, prio):
        return (OwnStrict if i % 3 == 2 else Strict)(bool(i % 2), prio)

    def target(self):
        return int

    def observe(self, mapper, hint, wrap, kwargs):
        ok, value = attempt(mapper.deserialize, wrap("12"), hint, **kwargs)
        check(not ok or value == wrap(12), lambda: f"loading '12' gave {value!r}")
        return wrap(not ok), wrap(not ok)

    def expect(self, i):
        return True if i is None else bool(i % 2)


class DateKind(Kind):
    def make(self, i, prio):
        return DateFormat(FORMATS[i % len(FORMATS)], priority=prio)

    def target(self):
        return datetime.date

    def observe(self, mapper, hint, wrap, kwargs):
        wire = mapper.serialize(wrap(DATE), hint, **kwargs)
        check(mapper.deserialize(wire, hint, **kwargs) == wrap(DATE), lambda: f"{wire!r} is not read back")
        return wire, wire

    def expect(self, i):
        return DATE.isoformat() if i is None else DATE.strftime(FORMATS[i % len(FORMATS)])


class PrecisionKind(Kind):
    def make(self, i, prio):
        return Precision(prec=i % 20 + 1, priority=prio)

    def target(self):
        return decimal.Decimal

    def observe(self, mapper, hint, wrap, kwargs):
        value = mapper.deserialize(wrap("0.1234123412341234123412341234"), hint, **kwargs)
        return value, value

    def expect(self, i):
        full = decimal.Decimal("0.1234123412341234123412341234")
        return full if i is None else decimal.Context(prec=i % 20 + 1).plus(full)


class ExtraKind(Kind):
    classes = True

    def make(self, i, prio):
        record = {"recorder": lambda ctx, keys: self.recorded.append((i, keys))} if i % 4 == 1 else {}
        return (OwnExtraKeys if i % 3 == 2 else ExtraKeys)(bool(i % 2), priority=prio, **record)

    def target(self):
        self.recorded = []
        return dataclasses.dataclass(type("Target", (), {"__annotations__": {"a": int}}))

    def observe(self, mapper, hint, wrap, kwargs):
        del self.recorded[:]
        ok, value = attempt(mapper.deserialize, wrap({"a": 1, "zz": 2}), hint, **kwargs)
        got = wrap((ok, self.recorded[:]))
        return got, got

    def expect(self, i):
        ok = i is not None and bool(i % 2)
        return ok, [(i, {"zz"})] if i is not None and i % 4 == 1 else []


class DefaultsKind(Kind):
    def make(self, i, prio):
        return SerializeDefaults(bool(i % 2), prio)

    def target(self):
        self.cls = dataclasses.dataclass(type("Target", (), {"__annotations__": {"a": int}, "a": 3}))
        return self.cls

    def observe(self, mapper, hint, wrap, kwargs):
        wire = mapper.serialize(wrap(self.cls()), hint, **kwargs)
        return wire, wire

    def expect(self, i):
        return {"a": 3} if i is None or i % 2 else {}


KINDS = {
    "plain": lambda: ProbeKind(Plain, Plain),
    "derived": lambda: ProbeKind(Derived, Plain),
    "silent": lambda: ProbeKind(Silent, Silent),
    "decorator": lambda: ProbeKind(Decorator, Decorator, True),
    "derived decorator": lambda: ProbeKind([DerivedDecorator, Decorator], Decorator, True),
    "mixed": lambda: ProbeKind([Plain, Derived], Plain),
    "strict": StrictKind,
    "date": DateKind,
    "precision": PrecisionKind,
    "extra": ExtraKind,
    "defaults": DefaultsKind,
}

class JsonTuple(tuple):
    """Equal to a list of the same items"""

    def __eq__(self, other):
        return isinstance(other, (tuple, list)) and list(self) == list(other)

    __hash__ = None


# Structures that the value is in: the wrapped hint, and the wrapped value
SHAPES = {
    "root": (lambda h: h, lambda v: v),
    "list": (lambda h: t.List[h], lambda v: [v]),
    "dict": (lambda h: t.Dict[str, h], lambda v: {"k": v}),
    "optional": (lambda h: t.Optional[h], lambda v: v),
    "nested": (lambda h: t.List[t.Dict[str, t.Optional[h]]], lambda v: [{"k": v}]),
    "field": (lambda h: te.TypedDict("Holder", {"x": h}), lambda v: {"x": v}),
    "tuple": (lambda h: t.Tuple[t.Any, h], lambda v: JsonTuple((None, v))),
    "map of fields": (lambda h: t.Dict[str, te.TypedDict("Holder", {"x": h})], lambda v: {"k": {"x": v}}),
    "keys": (lambda h: t.Dict[h, int], lambda v: {v: 1}),
}


class AnyText:
    """Equal to any text"""

    def __eq__(self, other):
        return isinstance(other, str)

    __hash__ = None


# Conditions on the context of the value, of which the true ones hold for it.
PREDICATES = {
    "always": (lambda ctx, target, key: True, True),
    "never": (lambda ctx, target, key: False, False),
    "type": (lambda ctx, target, key: type_of(ctx) is target, True),
    "other type": (lambda ctx, target, key: type_of(ctx) is not target, False),
    "key": (lambda ctx, target, key: ctx.key == key, True),
    "place": (lambda ctx, target, key: len(list(ctx.iter_hierarchy_up())) == 2, None),
}
KEYS = {"root": Context.ROOT, "list": 0, "dict": "k", "optional": None, "nested": None, "field": "x", "tuple": 1, "map of fields": "x", "keys": AnyText()}
DEPTHS = {"root": 1, "list": 2, "dict": 2, "optional": 2, "nested": 4, "field": 2, "tuple": 2, "map of fields": 3, "keys": 2}


def type_of(ctx):
    hint = ctx.datatype
    while isinstance(hint, AnnotatedTypeHint):
        hint = hint[0]
    return hint.type if isinstance(hint, ClassTypeHint) else None


PRIO = st.sampled_from([0, 1, 1, 1, 2, 3])


def some(max_size=2):
    return st.lists(PRIO, max_size=max_size)


@st.composite
def places(draw):
    return {
        "local": draw(some()),
        "elsewhere": draw(some(1)),
        "providers": draw(st.lists(st.tuples(st.booleans(), st.sampled_from(sorted(PREDICATES)), PRIO), max_size=2)),
        "global": draw(some()),
    }


@st.composite
def cases(draw):
    return {
        "kind": draw(st.sampled_from(sorted(KINDS))),
        "shape": draw(st.sampled_from(sorted(SHAPES))),
        "annotation": draw(some()),
        "class": draw(some()),
        "base": draw(some(1)),
        "call": draw(st.one_of(st.none(), some(3), places())),
        "linked": draw(st.booleans()),
        "mapper": draw(places()),
        "parent": draw(st.one_of(st.none(), places())),
        "custom": draw(st.sampled_from(["", "", "parent", "call", "both"])),
        "foreign": draw(st.booleans()),
        "copy": draw(st.booleans()),
    }


class Custom(SettingsProvider):
    """Settings that are provided by a class that is not known to the library."""

    def __init__(self, inner):
        self.inner = inner

    def get_setting(self, context, setting_type):
        return self.inner.get_setting(context, setting_type)


class Resolver:
    def __init__(self, kind, shape):
        self.kind, self.shape = kind, shape
        self.n = 0

    def new(self, prio):
        """A new setting and its (effective priority, number)."""

        i = self.n
        self.n += 1
        s = self.kind.make(i, Priority(prio))
        return s, (int(Priority.NORMAL) if isinstance(s, Silent) else prio, i)

    def fill(self, settings, p, target, foreign):
        """Adds the settings of the place, and returns them in the order in which they are to be found."""

        local, provided, overall = [], [], []
        for prio in p["elsewhere"]:
            s, _ = self.new(prio)
            settings.add_local(type("Elsewhere", (), {}), s)
        for prio in p["global"]:
            s, e = self.new(prio)
            settings.add_global(s)
            overall.append(e)
            if foreign:
                settings.add_global(Foreign())
        for conditional, predicate, prio in p["providers"]:
            s, e = self.new(prio)
            holds, applies = PREDICATES[predicate]
            if applies is None:
                applies = DEPTHS[self.shape] == 2
            test = lambda ctx, holds=holds: holds(ctx, target, KEYS[self.shape])  # noqa: E731
            if conditional:
                settings.add_conditional(test, s)
            else:
                settings.add_provider(lambda ctx, s=s, test=test: [Foreign(), s] if test(ctx) else [Foreign()])
            if applies:
                provided.append(e)
        for prio in p["local"]:
            s, e = self.new(prio)
            settings.add_local(target, s)
            local.append(e)
        return local + provided + overall


def run(case):
    if case["shape"] == "keys" and case["kind"] in ("extra", "defaults"):
        case = {**case, "shape": "dict"}  # Objects are no keys.
    kind = KINDS[case["kind"]]()
    target = kind.target()
    r = Resolver(kind, case["shape"])
    found = []
    hint = target
    if kind.classes:
        class_settings = []
        for prio in case["class"]:
            s, e = r.new(prio)
            s(target)
            class_settings.append(e)
        base = type("Unrelated", (target,), {})
        for prio in case["base"]:
            s, _ = r.new(prio)
            s(base)
    annotation = [r.new(prio) for prio in case["annotation"]]
    if annotation or case["foreign"]:
        meta = [s for s, _ in annotation]
        if case["foreign"]:
            # Annotations may be anything.
            meta = ["text", *meta, Foreign(), 3]
        hint = te.Annotated[(target, *meta)]
    found += [e for _, e in annotation]
    if kind.classes:
        found += class_settings

    parent = Settings() if case["parent"] is not None else None
    custom = case["custom"]
    mapper_settings = Settings(Custom(parent) if parent is not None and custom in ("parent", "both") else parent)
    mapper = get_object_mapper(mapper_settings)
    in_mapper = r.fill(mapper.settings, case["mapper"], target, case["foreign"])
    in_parent = r.fill(parent, case["parent"], target, case["foreign"]) if parent is not None else []
    kwargs = {}
    if isinstance(case["call"], list):
        pairs = [r.new(prio) for prio in case["call"]]
        kwargs["settings"] = [s for s, _ in pairs]
        found += [e for _, e in pairs] + in_mapper + in_parent
    elif isinstance(case["call"], dict):
        # Other settings than those of the mapper, that may refer to them.
        own = Settings(mapper.settings if case["linked"] else None)
        found += r.fill(own, case["call"], target, case["foreign"])
        kwargs["settings"] = Custom(own) if custom in ("call", "both") else own
        if case["linked"]:
            found += in_mapper + in_parent
    else:
        found += in_mapper + in_parent
    if case["copy"] and not isinstance(case["call"], dict):
        mapper = mapper.copy()
    if isinstance(kind, ProbeKind):
        kind.prepare(mapper, target)

    best = None
    for prio, i in found:
        if best is None or prio > best[0]:
            best = (prio, i)
    wrap_hint, wrap = SHAPES[case["shape"]]
    expected = wrap(kind.expect(best[1] if best else None))
    for got in kind.observe(mapper, wrap_hint(hint), wrap, kwargs):
        check(
            (type(got) is type(expected) or isinstance(expected, JsonTuple)) and got == expected,
            lambda: f"{case['kind']}: got {got!r}, expected {expected!r} from {found} (priority, number) in order",
        )
    return Info(len(found) > 1, [case["kind"], case["shape"], f"competing:{min(len(found), 6)}"])


@st.composite
def alias_cases(draw):
    return {"aliases": draw(st.lists(PRIO, min_size=1, max_size=4)), "required": draw(some(3)), "present": draw(st.booleans())}


def run_alias(case):
    """Settings that are given several times for the same field."""

    from databind.core import Required

    meta = [Alias(f"alias{i}", priority=Priority(p)) for i, p in enumerate(case["aliases"])]
    req = [(p, i) for i, p in enumerate(case["required"])]
    meta += [Required(bool(i % 2), Priority(p)) for p, i in req]
    cls = dataclasses.make_dataclass("C", [("field", te.Annotated[(t.Optional[int], *meta)], dataclasses.field(default=None))])
    first = max(range(len(case["aliases"])), key=lambda i: (case["aliases"][i], -i))
    wire = get_object_mapper().serialize(cls(5), cls)
    check(wire == {f"alias{first}": 5}, lambda: f"dumped as {wire}, expected alias{first} from priorities {case['aliases']}")
    required = bool(max(req, key=lambda x: (x[0], -x[1]))[1] % 2) if req else False
    payload = {f"alias{first}": 5} if case["present"] else {}
    ok, value = attempt(get_object_mapper().deserialize, payload, cls)
    check(ok == (case["present"] or not required), lambda: f"loading {payload} with {meta} gave {value!r}")
    if ok:
        check(value == cls(5 if case["present"] else None), lambda: f"loading {payload} gave {value!r}")
    return Info(len(meta) > 1)


PARTS = {"places": Part(cases, run, 4000, 200000), "field": Part(alias_cases, run_alias, 600, 20000)}
REGRESSIONS = []
