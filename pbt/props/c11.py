import dataclasses
import datetime
import decimal
import typing as t

import typing_extensions as te
from hypothesis import strategies as st
from typeapi import AnnotatedTypeHint, ClassTypeHint

from databind.core import Converter, DateFormat, ExtraKeys, ObjectMapper, Precision, Priority, SerializeDefaults, Settings, Strict, Union
from databind.json import dump, get_object_mapper, load
from databind.json.module import JsonModule

from pbt.util import Info, Part, Violation, attempt, check

ID = "C11"
TECHNIQUE = "model-based testing of histories of mappers, copies, settings, converters and conversions"
RULE = (
    "A case is a history of up to 14 operations: create and copy mappers, add settings and converters to one of them, attach "
    "settings to classes, derive classes, convert with settings for the call. After every operation, every mapper and the "
    "module-level functions are compared with a model that keeps the scopes apart. Non-trivial: at least two operations "
    "that change some scope. Part scopes: a setting on the outermost of nested types (in its annotation, on its class, for its "
    "type or for the root) against the same conversion without it."
)

FORMATS = ["%Y-%m-%d", "%d.%m.%Y", "%m/%d/%Y", "%Y%m%d"]
DATE = datetime.date(2021, 3, 14)


def make_setting(kind, value, prio):
    p = Priority(prio)
    if kind == "strict":
        return Strict(bool(value % 2), p)
    if kind == "date":
        return DateFormat(FORMATS[value % 4], priority=p)
    if kind == "extra":
        return ExtraKeys(bool(value % 2), priority=p)
    return SerializeDefaults(bool(value % 2), p)


class Tagger(Converter):
    def __init__(self, target, tag):
        self.target = target
        self.tag = tag

    def convert(self, ctx):
        if isinstance(ctx.datatype, ClassTypeHint) and ctx.datatype.type is self.target:
            return self.tag
        raise NotImplementedError


class World:
    """The classes of a case. They are new in every case, because settings are attached to them."""

    def __init__(self):
        def cls(name, base=None):
            return dataclasses.dataclass(type(name, (base,) if base else (), {"__annotations__": {"a": int}, "a": 3}))

        self.P, self.Q = cls("P"), cls("Q")
        self.classes = {"P": self.P, "Q": self.Q, "R": type("R", (self.P,), {}), "S": cls("S", self.Q)}
        self.holder = dataclasses.make_dataclass(
            "Holder", [("x", te.Annotated[self.P, ExtraKeys(True), SerializeDefaults(False)]), ("y", self.P)]
        )
        self.special = type("Special", (), {})
        self.class_settings = {"P": [], "Q": [], "R": [], "S": [], "T": []}


class Scope:
    """The model of the settings and converters of a mapper."""

    def __init__(self):
        self.globals, self.locals, self.conditionals, self.converters, self.parent = [], {}, [], [], None

    def copy(self):
        new = Scope()
        new.globals = list(self.globals)
        new.locals = {k: list(v) for k, v in self.locals.items()}
        new.conditionals = list(self.conditionals)
        new.converters = list(self.converters)
        new.parent = self.parent
        return new

    def settings(self, kind, type_name):
        """The settings of the kind for the type, in the order in which they count."""

        found = self.locals.get(type_name, []) + [s for only, s in self.conditionals if only in (None, type_name)] + self.globals
        found = [s for s in found if s[0] == kind]
        if self.parent is not None:
            inherited = self.parent.settings(kind, type_name)
            if inherited:
                found.append(max(inherited, key=lambda s: s[2]))
        return found


def resolve(kind, type_name, annotation, class_settings, call, scope):
    found = list(annotation) + class_settings.get(type_name, []) + call
    found += scope.settings(kind, type_name)
    best = None
    for k, value, prio in found:
        if k == kind and (best is None or prio > best[1]):
            best = (value, prio)
    return None if best is None else best[0]


SETTING = st.tuples(
    st.sampled_from(["strict", "date", "extra", "extra", "defaults", "defaults"]), st.integers(0, 3), st.sampled_from([0, 1, 1, 1, 2, 3])
)
TYPES = ["int", "date", "P", "Q", "R", "S"]
N = st.integers(0, 5)

OPS = st.one_of(
    st.tuples(st.just("new"), st.sampled_from(["default", "module", "settings"])),
    st.tuples(st.just("copy"), N),
    st.tuples(st.just("global"), N, SETTING),
    st.tuples(st.just("global"), N, SETTING),
    st.tuples(st.just("local"), N, st.sampled_from(TYPES), SETTING),
    st.tuples(st.just("conditional"), N, SETTING, st.sampled_from([None, *TYPES])),
    st.tuples(st.just("child"), N),
    st.tuples(st.just("register"), N, st.booleans()),
    st.tuples(st.just("class"), st.sampled_from(["P", "Q", "R", "S"]), st.integers(0, 3), st.sampled_from([0, 1, 2])),
    st.tuples(st.just("reuse"), st.sampled_from(["P", "Q", "R", "S"]), st.integers(0, 3), st.sampled_from([0, 1, 2])),
    st.tuples(st.just("derive"), st.sampled_from(["P", "Q"])),
    st.tuples(st.just("call"), N, st.lists(SETTING, min_size=1, max_size=3), st.sampled_from(["method", "module function"])),
    st.tuples(st.just("fail"), N),
    st.tuples(st.just("shared list"), st.lists(SETTING, min_size=1, max_size=2)),
)


@st.composite
def cases(draw):
    return {"ops": draw(st.lists(OPS, min_size=2, max_size=14))}


@st.composite
def copy_cases(draw):
    """Copies of mappers that differ in some settings of one kind."""

    kind = draw(st.sampled_from(["strict", "date", "extra", "defaults"]))
    name = {"strict": "int", "date": "date"}.get(kind) or draw(st.sampled_from(["P", "R"]))
    setting = st.tuples(st.just(kind), st.integers(0, 3), st.sampled_from([0, 1, 1, 2, 3]))
    n = st.integers(0, 3)
    change = st.one_of(
        st.tuples(st.just("global"), n, setting),
        st.tuples(st.just("local"), n, st.just(name), setting),
        st.tuples(st.just("local"), n, st.just(name), setting),
        st.tuples(st.just("conditional"), n, setting, st.sampled_from([None, name, name, "Q"])),
        st.tuples(st.just("register"), n, st.booleans()),
    )
    ops = draw(st.lists(change, min_size=1, max_size=3))
    for _ in range(draw(st.integers(1, 3))):
        ops.append(draw(st.tuples(st.sampled_from(["copy", "copy", "child"]), n)))
        ops += draw(st.lists(change, min_size=1, max_size=3))
    return {"ops": ops}


class History:
    def __init__(self):
        self.w = World()
        self.mappers = [(get_object_mapper(), Scope())]
        self.counter = 0
        self.call_settings = []

    def expected(self, scope, call):
        """What every probe is expected to give."""

        out = {}
        get = lambda kind, name, annotation=(): resolve(kind, name, annotation, self.w.class_settings, call, scope)  # noqa: E731
        strict = get("strict", "int")
        out["strict"] = "refused" if strict is None or strict % 2 else 12
        fmt = get("date", "date")
        out["date"] = DATE.isoformat() if fmt is None else DATE.strftime(FORMATS[fmt % 4])
        for name in self.w.classes:
            extra, defaults = get("extra", name), get("defaults", name)
            out[f"extra {name}"] = "accepted" if extra is not None and extra % 2 else "refused"
            out[f"defaults {name}"] = {} if defaults is not None and not defaults % 2 else {"a": 3}
        annotation = [("extra", 1, 1), ("defaults", 0, 1)]
        x, y = get("extra", "P", annotation), get("extra", "P")
        out["holder x"] = "accepted" if x is not None and x % 2 else "refused"
        out["holder y"] = "accepted" if y is not None and y % 2 else "refused"
        # The Holder itself has no defaults.
        x, y = get("defaults", "P", annotation), get("defaults", "P")
        out["holder dump"] = {"x": {} if not x % 2 else {"a": 3}, "y": {} if y is not None and not y % 2 else {"a": 3}}
        out["special"] = scope.converters[0] if scope.converters else "refused"
        return out

    def observed(self, des, ser):
        w = self.w
        out = {}

        def loading(value, hint, good):
            ok, got = attempt(des, value, hint)
            if ok:
                check(got == good, lambda: f"loading {value!r} gave {got!r}")
            return ok

        out["strict"] = 12 if loading("12", int, 12) else "refused"
        out["date"] = ser(DATE, datetime.date)
        for name, cls in w.classes.items():
            out[f"extra {name}"] = "accepted" if loading({"a": 1, "zz": 2}, cls, cls(1)) else "refused"
            out[f"defaults {name}"] = ser(cls(), cls)
        for f in "xy":
            payload = {"x": {"a": 1}, "y": {"a": 1}}
            payload[f]["zz"] = 1
            out[f"holder {f}"] = "accepted" if loading(payload, w.holder, w.holder(w.P(1), w.P(1))) else "refused"
        out["holder dump"] = ser(w.holder(w.P(), w.P()), w.holder)
        ok, got = attempt(ser, w.special(), w.special)
        out["special"] = got if ok else "refused"
        return out

    def compare(self, what, scope, call, des, ser):
        expected, observed = self.expected(scope, call), self.observed(des, ser)
        for k in expected:
            check(
                expected[k] == observed[k] and type(expected[k]) is type(observed[k]),
                lambda: f"{what}: {k!r} is {observed[k]!r}, expected {expected[k]!r}",
            )

    def look(self, after):
        for i, (m, scope) in enumerate(self.mappers):
            self.compare(f"after {after}: mapper {i}", scope, [], m.deserialize, m.serialize)
        self.compare(f"after {after}: load() and dump()", Scope(), [], load, dump)

    def type_of(self, name):
        return {"int": int, "date": datetime.date, **self.w.classes}[name]

    def predicate(self, only):
        if only is None:
            return lambda ctx: True

        def predicate(ctx):
            datatype = ctx.datatype[0] if isinstance(ctx.datatype, AnnotatedTypeHint) else ctx.datatype
            return isinstance(datatype, ClassTypeHint) and datatype.type is self.type_of(only)

        return predicate

    def apply(self, op):
        what = op[0]
        if what == "new":
            if len(self.mappers) >= 4:
                return False
            if op[1] == "default":
                m = get_object_mapper()
            elif op[1] == "settings":
                m = get_object_mapper(Settings())
            else:
                m = ObjectMapper()
                m.module.register(JsonModule())
            self.mappers.append((m, Scope()))
            return True
        if what == "copy":
            if len(self.mappers) >= 4:
                return False
            m, scope = self.mappers[op[1] % len(self.mappers)]
            self.mappers.append((m.copy(), scope.copy()))
            return True
        if what == "child":
            # A mapper whose settings fall back to those of another mapper, also to those added later
            if len(self.mappers) >= 4:
                return False
            m, scope = self.mappers[op[1] % len(self.mappers)]
            new = Scope()
            new.parent = scope
            self.mappers.append((get_object_mapper(Settings(m.settings)), new))
            return True
        if what == "global":
            m, scope = self.mappers[op[1] % len(self.mappers)]
            m.settings.add_global(make_setting(*op[2]))
            scope.globals.append(op[2])
            return True
        if what == "local":
            m, scope = self.mappers[op[1] % len(self.mappers)]
            m.settings.add_local(self.type_of(op[2]), make_setting(*op[3]))
            scope.locals.setdefault(op[2], []).append(op[3])
            return True
        if what == "conditional":
            m, scope = self.mappers[op[1] % len(self.mappers)]
            m.settings.add_conditional(self.predicate(op[3]), make_setting(*op[2]))
            scope.conditionals.append((op[3], op[2]))
            return True
        if what == "register":
            m, scope = self.mappers[op[1] % len(self.mappers)]
            self.counter += 1
            tag = f"tag{self.counter}"
            m.module.register(Tagger(self.w.special, tag), first=op[2])
            if op[2]:
                scope.converters.insert(0, tag)
            else:
                scope.converters.append(tag)
            return True
        if what == "class":
            _, name, value, prio = op
            ExtraKeys(bool(value % 2), priority=Priority(prio))(self.w.classes[name])
            self.w.class_settings[name].append(("extra", value, prio))
            return True
        if what == "reuse":
            # An instance of a setting belongs to one class; a second one is refused and remains as it was.
            _, name, value, prio = op
            setting = ExtraKeys(bool(value % 2), priority=Priority(prio))
            setting(self.w.classes[name])
            self.w.class_settings[name].append(("extra", value, prio))
            for other in ["P", "Q", "R", "S"]:
                try:
                    setting(self.w.classes[other])
                except RuntimeError:
                    pass
                else:
                    check(False, f"a setting of the class {name} was put on the class {other}, too")
            return True
        if what == "derive":
            # Settings of a class are not those of its subclasses.
            self.w.classes["T"] = type("T", (self.w.classes[op[1]],), {})
            self.w.class_settings["T"] = []
            return True
        if what == "call":
            m, scope = self.mappers[op[1] % len(self.mappers)]
            # One list that is used again and again
            settings = self.call_settings
            settings[:] = [make_setting(*s) for s in op[2]]
            before = list(settings)
            if op[3] == "method":
                des = lambda v, h: m.deserialize(v, h, settings=settings)  # noqa: E731
                ser = lambda v, h: m.serialize(v, h, settings=settings)  # noqa: E731
            else:
                scope = Scope()
                des = lambda v, h: load(v, h, settings=settings)  # noqa: E731
                ser = lambda v, h: dump(v, h, settings=settings)  # noqa: E731
            self.compare("with settings for the call", scope, op[2], des, ser)
            check(
                len(before) == len(settings) and all(a is b for a, b in zip(before, settings)),
                "the list of settings for the call was modified",
            )
            return False
        if what == "fail":
            m, scope = self.mappers[op[1] % len(self.mappers)]
            for value, hint in [("x", int), ({"a": "x"}, self.w.P), ([1, "x"], t.List[int])]:
                ok, got = attempt(m.deserialize, value, hint, settings=[ExtraKeys(True, priority=Priority.ULTIMATE)])
                check(not ok, lambda: f"loading {value!r} gave {got!r}")
            return False
        if what == "shared list":
            # The list that a mapper's settings are made of is not the mapper's.
            if len(self.mappers) >= 4:
                return False
            items = [make_setting(*s) for s in op[1]]
            scope = Scope()
            scope.globals = list(op[1])
            self.mappers.append((get_object_mapper(Settings(global_settings=items)), scope))
            items.append(Strict(False, Priority.ULTIMATE))
            items.append(ExtraKeys(True, priority=Priority.ULTIMATE))
            return True
        raise AssertionError(what)


def run(case):
    h = History()
    changes = 0
    for op in case["ops"]:
        changes += h.apply(op)
        h.look(op)
    return Info(changes >= 2, sorted({op[0] for op in case["ops"]}) + [f"mappers:{len(h.mappers)}"])



# --- settings on what the value is in


OUTER = ["list", "dict", "set", "tuple", "tuples", "field", "td", "nt", "flat", "nested", "keyed"]
LEAF_OF = {"extra": ["struct", "td"], "defaults": ["struct"], "strict": ["int", "str", "key"], "date": ["date", "key"], "precision": ["decimal"]}


@st.composite
def scope_cases(draw):
    kind = draw(st.sampled_from(sorted(LEAF_OF)))
    chain = draw(st.lists(st.sampled_from(OUTER + ["opt"]), max_size=2))
    return {
        "kind": kind,
        "value": draw(st.integers(0, 3)),
        "prio": draw(st.integers(0, 3)),
        "leaf": draw(st.sampled_from(LEAF_OF[kind])),
        "chain": [draw(st.sampled_from(OUTER)), *chain],
        "where": draw(st.sampled_from(["annotation", "class", "local", "condition"])),
    }


class Leaf:
    """A type, a value of it, and payloads whose meaning depends on settings."""

    def __init__(self, kind, leaf):
        self.value = None
        if leaf == "struct":
            self.hint = dataclasses.make_dataclass("Struct", [("a", int, dataclasses.field(default=3))])
            self.value = self.hint(3)
            self.payloads = [{"a": 3}, {}, {"a": 3, "zz": 1}]
        elif leaf == "td":
            self.hint = te.TypedDict("Dict", {"a": int})
            self.value = {"a": 3}
            self.payloads = [{"a": 3}, {"a": 3, "zz": 1}]
        elif leaf in ("int", "str"):
            self.hint, self.value = (int, 3) if leaf == "int" else (str, "x")
            self.payloads = [3, "3", "x", 1.5]
        elif leaf == "key":
            if kind == "strict":
                self.hint, self.value = t.Dict[int, str], {3: "x"}
                self.payloads = [{"3": "x"}, {3: 4}]
            else:
                self.hint, self.value = t.Dict[datetime.date, int], {DATE: 1}
                self.payloads = [{DATE.strftime(f): 1} for f in FORMATS]
        elif leaf == "date":
            self.hint, self.value = datetime.date, DATE
            self.payloads = [DATE.strftime(f) for f in FORMATS]
        else:
            self.hint, self.value = decimal.Decimal, decimal.Decimal("0.123456789")
            self.payloads = ["0.123456789"]


def surround(kind, hint, value, payloads):
    """Puts the type into another one; the result is the class that settings can be attached to, too."""

    if kind == "opt":
        return None, t.Optional[hint], value, payloads
    if kind == "list":
        return list, t.List[hint], [value], [[p] for p in payloads]
    if kind == "set":
        try:
            hash(value)
        except TypeError:
            return surround("list", hint, value, payloads)
        return set, t.Set[hint], {value}, [[p] for p in payloads]
    if kind == "dict":
        return dict, t.Dict[str, hint], {"k": value}, [{"k": p} for p in payloads]
    if kind == "tuple":
        return tuple, t.Tuple[bool, hint], (True, value), [[True, p] for p in payloads]
    if kind == "tuples":
        return tuple, t.Tuple[hint, ...], (value,), [[p] for p in payloads]
    if kind == "td":
        cls = te.TypedDict("Outer", {"x": hint})
        return cls, cls, {"x": value}, [{"x": p} for p in payloads]
    if kind == "nt":
        cls = t.NamedTuple("Outer", [("x", hint)])
        return cls, cls, cls(value), [{"x": p} for p in payloads]
    if kind == "field":
        cls = dataclasses.make_dataclass("Outer", [("x", hint)])
        return cls, cls, cls(value), [{"x": p} for p in payloads]
    base = type("Base", (), {})
    if isinstance(value, tuple) or not dataclasses.is_dataclass(value):
        member = dataclasses.make_dataclass("Member", [("x", hint)], bases=(base,))
        value, payloads = member(value), [{"x": p} for p in payloads]
    else:
        member = hint
    cls = Union({"m": member}, {"flat": Union.FLAT, "nested": Union.NESTED, "keyed": Union.KEYED}[kind])(base)
    wire = {"flat": lambda p: {"type": "m", **p}, "nested": lambda p: {"type": "m", "m": p}, "keyed": lambda p: {"m": p}}[kind]
    return cls, cls, value, [wire(p) for p in payloads]


def run_scope(case):
    """A setting on the outermost type means nothing to the types of what is in it."""

    if case["kind"] == "precision":
        setting = Precision(prec=case["value"] + 1, priority=Priority(case["prio"]))
    else:
        setting = make_setting(case["kind"], case["value"], case["prio"])
    leaf = Leaf(case["kind"], case["leaf"])
    hint, value, payloads = leaf.hint, leaf.value, leaf.payloads
    for k in reversed(case["chain"]):
        cls, hint, value, payloads = surround(k, hint, value, payloads)
    plain = get_object_mapper()
    before = [attempt(plain.deserialize, p, hint) for p in payloads] + [attempt(plain.serialize, value, hint)]
    mapper = get_object_mapper()
    if case["where"] == "annotation":
        hint = te.Annotated[hint, setting]
    elif case["where"] == "class" and case["kind"] == "extra" and cls is hint:
        setting(cls)
    elif case["where"] == "condition":
        mapper.settings.add_conditional(lambda ctx: ctx.parent is None, setting)
    else:
        mapper.settings.add_local(cls, setting)
    after = [attempt(mapper.deserialize, p, hint) for p in payloads] + [attempt(mapper.serialize, value, hint)]
    for x, (ok, one), (ok2, two) in zip([*payloads, "the value"], before, after):
        check(
            ok == ok2 and (not ok or repr(one) == repr(two)),
            lambda: f"{setting} on the outermost type of {hint}: {x!r} gave {two!r}, without it {one!r}",
        )
    return Info(True, [case["kind"], case["where"], *sorted(set(case["chain"]))])


PARTS = {"histories": Part(cases, run, 1000, 40000), "copies": Part(copy_cases, run, 700, 30000), "scopes": Part(scope_cases, run_scope, 2000, 80000)}
REGRESSIONS = []
