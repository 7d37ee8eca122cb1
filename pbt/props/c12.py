import collections.abc
import copy
import dataclasses
import typing as t

import typing_extensions as te
from hypothesis import strategies as st
from typeapi import AnnotatedTypeHint, ClassTypeHint

from databind.core import ConversionError, Converter, Direction, Module, NoMatchingConverter, ObjectMapper, Settings
from databind.core.converter import DelegateToClassmethodConverter
from databind.json import JsonConverter, get_object_mapper

from pbt.util import Info, Part, Violation, attempt, check

ID = "C12"
TECHNIQUE = "model-based testing of converter registrations and conversions with recording converters"
RULE = (
    "A case is a history of registrations of recording converters and nested modules (at the end or at the front) and of "
    "conversions in both directions, or a set of classes and fields with converters attached. The converters that were asked, "
    "in which order, and the outcome are compared with a model. Non-trivial: at least two converters are asked for a "
    "conversion, or at least one attached converter is asked."
)

CRASHES = [TypeError, ValueError, KeyError, AttributeError, RuntimeError, LookupError, AssertionError]
RESULTS = [None, 0, "", [], False, "text", 7, {"a": 1}]


class Text(str):
    """Also a text."""


class Number(int):
    """Also a number."""


class Recording(Converter):
    """Logs that it was asked, and then does what it was told to do for the direction."""

    def __init__(self, number, behaviour, log):
        self.number, self.behaviour, self.log = number, behaviour, log
        self.raised = []

    def act(self, ctx, what):
        self.log.append((self.number, ctx.value))
        if what == "decline":
            raise NotImplementedError(f"declined by {self.number}")
        if what == "fail":
            exc = ConversionError(self, ctx, f"failed in {self.number}")
            self.raised.append(exc)
            raise exc
        if what == "crash":
            exc = CRASHES[self.number % len(CRASHES)](f"crashed in {self.number}")
            self.raised.append(exc)
            raise exc
        if what == "no match":
            exc = NoMatchingConverter(self, ctx, [])
            self.raised.append(exc)
            raise exc
        if what == "recurse":
            # Converts the value once more as another type, with everything that is registered.
            if ctx.datatype.type is int:
                raise NotImplementedError
            return ("recursed", self.number, ctx.spawn(ctx.value, int, None).convert())
        return what[1]

    def convert(self, ctx):
        return self.act(ctx, self.behaviour[0 if ctx.direction == Direction.SERIALIZE else 1])


class Halves(Recording):
    """The same by means of the two methods for the directions, which may be missing."""

    convert = Converter.convert

    def serialize(self, ctx):
        if self.behaviour[0] == "missing":
            self.log.append((self.number, ctx.value))
            return super().serialize(ctx)
        return self.act(ctx, self.behaviour[0])

    def deserialize(self, ctx):
        if self.behaviour[1] == "missing":
            self.log.append((self.number, ctx.value))
            return super().deserialize(ctx)
        return self.act(ctx, self.behaviour[1])


class LateModule(Module):
    """A module that decides for itself which converters it has."""

    def __init__(self, name, hidden):
        super().__init__(name)
        self.hidden = hidden

    def get_converters(self, ctx):
        for c in super().get_converters(ctx):
            if not (self.hidden == ctx.direction.name.lower() and getattr(c, "number", 0) % 2):
                yield c


BEHAVIOUR = st.one_of(
    st.sampled_from(["decline", "decline", "decline", "fail", "fail", "fail", "no match", "recurse", "recurse", "missing", "crash"]),
    st.integers(0, len(RESULTS) - 1).map(lambda i: ["ok", i]),
)
OPS = st.one_of(
    st.tuples(st.just("converter"), st.integers(0, 5), st.booleans(), BEHAVIOUR, BEHAVIOUR),
    st.tuples(st.just("converter"), st.integers(0, 5), st.booleans(), BEHAVIOUR, BEHAVIOUR),
    st.tuples(st.just("module"), st.integers(0, 5), st.booleans(), st.sampled_from(["", "", "serialize", "deserialize"])),
    st.tuples(st.just("again"), st.integers(0, 5), st.booleans(), st.integers(0, 9)),
    st.tuples(st.just("convert"), st.booleans(), st.integers(0, len(RESULTS) - 1)),
    st.tuples(st.just("copy")),
    st.tuples(st.just("delegate"), st.integers(0, 5), st.booleans(), st.integers(0, 5)),
)


@st.composite
def cases(draw):
    return {"ops": draw(st.lists(OPS, min_size=1, max_size=16)), "halves": draw(st.booleans())}


class ModelModule:
    def __init__(self, real, hidden=""):
        self.real = real
        self.hidden = hidden
        self.items = []

    def add(self, item, first):
        self.items.insert(0 if first else len(self.items), item)

    def flat(self, direction):
        for item in self.items:
            if isinstance(item, ModelModule):
                inner = item.flat(direction)
            else:
                inner = [item]
            for c in inner:
                if not (self.hidden == direction and c.number % 2):
                    yield c

    def contains(self, other):
        return self is other or any(isinstance(i, ModelModule) and i.contains(other) for i in self.items)


class Fail(Exception):
    def __init__(self, errors, single):
        self.errors, self.single = errors, single


class Crash(Exception):
    """A converter raises an error of its own, which ends the conversion."""

    def __init__(self, converter):
        self.converter = converter


def model_convert(root, direction, value, datatype, log):
    """Returns the result, or raises Fail."""

    errors = []
    for c in root.flat(direction):
        log.append((c.number, value))
        b = c.behaviour[0 if direction == "serialize" else 1]
        if b in ("decline", "missing"):
            continue
        if b in ("fail", "no match"):
            errors.append((c, c))
            continue
        if b == "crash":
            raise Crash(c)
        if b == "recurse":
            if datatype is int:
                continue
            try:
                return ("recursed", c.number, model_convert(root, direction, value, int, log))
            except Fail as exc:
                errors.append((c, exc))
                continue
        return b[1]
    raise Fail(errors, errors[0][1] if len(errors) == 1 else None)


def same_failure(exc, fail, what):
    """Whether the exception is the one that the model says."""

    if isinstance(fail, Recording):
        check(any(exc is e for e in fail.raised), lambda: f"{what}: got {exc!r}, expected the failure of converter {fail.number}")
        return
    if fail.single is not None:
        same_failure(exc, fail.single, what)
        return
    check(isinstance(exc, NoMatchingConverter), lambda: f"{what}: got {exc!r}, expected NoMatchingConverter")
    got = list(exc.errors)
    check(
        [c for c, _ in got] == [c for c, _ in fail.errors],
        lambda: f"{what}: failures of {[c for c, _ in got]}, expected {[c for c, _ in fail.errors]}",
    )
    for (_, e), (_, f) in zip(got, fail.errors):
        same_failure(e, f, what)


def run(case):
    log = []
    mapper = ObjectMapper()
    root = ModelModule(mapper.module)
    modules = [root]
    converters = []
    most = 0
    labels = set()
    ops = [*case["ops"], ("convert", True, 1), ("convert", False, 2)]
    for op in ops:
        what = op[0]
        if what == "converter":
            m = modules[op[1] % len(modules)]
            cls = Halves if case["halves"] else Recording
            bs = [b if b != "missing" or cls is Halves else "decline" for b in op[3:5]]
            bs = [["ok", RESULTS[b[1]]] if isinstance(b, (list, tuple)) else b for b in bs]
            c = cls(len(converters), bs, log)
            converters.append(c)
            m.real.register(c, first=op[2]) if op[2] else m.real.register(c)
            m.add(c, op[2])
        elif what == "module":
            m = modules[op[1] % len(modules)]
            new = LateModule(f"m{len(modules)}", op[3]) if op[3] else Module(f"m{len(modules)}")
            m.real.register(new, first=op[2])
            child = ModelModule(new, op[3])
            m.add(child, op[2])
            modules.append(child)
        elif what == "again" and converters:
            # The same converter in another place
            m = modules[op[1] % len(modules)]
            c = converters[op[3] % len(converters)]
            m.real.register(c, first=op[2])
            m.add(c, op[2])
        elif what == "delegate":
            m, other = modules[op[1] % len(modules)], modules[op[3] % len(modules)]
            if not other.contains(m):
                m.real.register(other.real, first=op[2])
                m.add(other, op[2])
        elif what == "copy":
            copied = ObjectMapper.copy(mapper)
            new = ModelModule(copied.module)
            new.items = list(root.items)
            mapper, root = copied, new
            modules[0] = root
        elif what == "convert":
            value = RESULTS[op[2]]
            direction = "serialize" if op[1] else "deserialize"
            expected_log = []
            fail = None
            try:
                expected = model_convert(root, direction, value, str, expected_log)
            except (Fail, Crash) as exc:
                fail = exc
            log.clear()
            try:
                ok, got = attempt(getattr(mapper, direction), value, str)
            except tuple(CRASHES) as exc:
                ok, got = False, exc
            text = f"{direction} with {[(c.number, c.behaviour) for c in root.flat(direction)]}"
            check(
                [n for n, _ in log] == [n for n, _ in expected_log],
                lambda: f"{text}: asked {[n for n, _ in log]}, expected {[n for n, _ in expected_log]}",
            )
            most = max(most, len(log))
            if isinstance(fail, Crash):
                check(not ok and any(got is e for e in fail.converter.raised), lambda: f"{text}: got {got!r}, expected the crash of converter {fail.converter.number}")
                labels.add("crash")
            elif fail is None:
                check(ok and type(got) is type(expected) and got == expected, lambda: f"{text}: got {got!r}, expected {expected!r}")
                labels.add("ok")
            else:
                check(not ok and isinstance(got, ConversionError), lambda: f"{text}: got {got!r}, expected a failure")
                same_failure(got, fail, text)
                if not fail.errors:
                    check(got.context.value is value, lambda: f"{text}: the error is about {got.context.value!r}")
                places = [str(got).find(str(e).split("\n")[0]) for _, e in got.errors]
                check(all(n >= 0 for n in places), lambda: f"{text}: the message lacks failures: {got}")
                labels.add(f"failures:{min(len(fail.errors), 3)}")
    return Info(most > 1, sorted(labels) + [f"modules:{min(len(modules), 4)}"])


# ------------------------------------------------------------------------- converters attached to classes and fields


class Attached(Converter):
    def __init__(self, tag, behaviour, log):
        self.tag, self.behaviour, self.log = tag, behaviour, log

    def go(self, ctx, what):
        self.log.append(self.tag)
        if what == "decline":
            raise NotImplementedError
        if what == "fail":
            raise ConversionError(self, ctx, f"failed in {self.tag}")
        value = ctx.value
        if ctx.direction.is_serialize() and dataclasses.is_dataclass(value):
            value = (type(value).__name__, value.x)
        return ("by", self.tag, value)

    def serialize(self, ctx):
        return self.go(ctx, self.behaviour[0])

    def deserialize(self, ctx):
        return self.go(ctx, self.behaviour[1])


WHAT = st.sampled_from(["ok", "ok", "ok", "decline", "fail"])
ATTACHED = st.one_of(st.none(), st.tuples(WHAT, WHAT, st.sampled_from(["instance", "supplier"])))


@st.composite
def attached_cases(draw):
    n = draw(st.integers(1, 3))
    return {
        "classes": [
            {"base": draw(st.integers(-1, i - 1)), "conv": draw(ATTACHED), "inner": draw(st.booleans())} for i in range(n)
        ],
        "fields": [
            {
                "cls": draw(st.integers(-1, n - 1)),
                "conv": draw(ATTACHED),
                "wrap": draw(st.sampled_from(["plain", "plain", "list", "dict", "optional", "tuple"])),
                "n": draw(st.integers(0, 3)),
            }
            for _ in range(draw(st.integers(1, 4)))
        ],
        "root": draw(ATTACHED),
        "values": draw(st.lists(st.integers(-5, 5), min_size=12, max_size=12)),
    }


def run_attached(case):
    log = []
    counter = [0]

    def attach(spec):
        """The setting and the (tag, behaviours) of the converter."""

        tag = f"t{counter[0]}"
        counter[0] += 1
        c = Attached(tag, spec[:2], log)
        return JsonConverter(c if spec[2] == "instance" else (lambda: c)), (tag, spec[:2])

    classes, on_class = [], []
    for i, c in enumerate(case["classes"]):
        base = (classes[c["base"]],) if c["base"] >= 0 else ()
        cls = type(f"K{i}", base, {"__annotations__": {"x": int}})
        setting, info = attach(c["conv"]) if c["conv"] else (None, None)
        if setting and c["inner"]:
            cls = setting(cls)
        cls = dataclasses.dataclass(cls)
        if setting and not c["inner"]:
            cls = setting(cls)
        classes.append(cls)
        on_class.append(info)

    values = list(case["values"])

    def element(cls):
        """A value, its ordinary form, and how it looks like to an attached converter."""

        n = values[len(made) % len(values)]
        made.append(n)
        if cls < 0:
            return n, n, n
        return classes[cls](n), {"x": n}, (classes[cls].__name__, n)

    def convert(info, value, direction, ordinary, seen):
        """What becomes of a value, by the model."""

        if info is not None:
            expected_log.append(info[0])
            b = info[1][0 if direction == "serialize" else 1]
            if b == "ok":
                return ("by", info[0], seen if direction == "serialize" else ordinary)
        return ordinary if direction == "serialize" else value

    made = []
    expected_logs = {}
    outcome = {}
    fields = []
    payload, obj = {}, {}
    plan = []
    for i, f in enumerate(case["fields"]):
        hint = int if f["cls"] < 0 else classes[f["cls"]]
        info = on_class[f["cls"]] if f["cls"] >= 0 else None
        if f["conv"]:
            setting, info = attach(f["conv"])
            hint = te.Annotated[hint, setting]
        name = f"f{i}"
        k = f["n"] if f["wrap"] in ("list", "dict") else 2 if f["wrap"] == "tuple" else 1
        parts = [element(f["cls"]) for _ in range(k)]
        wrap = {
            "plain": lambda xs: xs[0],
            "optional": lambda xs: xs[0],
            "list": list,
            "tuple": list,
            "dict": lambda xs: {f"k{j}": x for j, x in enumerate(xs)},
        }[f["wrap"]]
        hint = {
            "plain": lambda h: h,
            "optional": lambda h: t.Optional[h],
            "list": lambda h: t.List[h],
            "tuple": lambda h: t.Tuple[h, h],
            "dict": lambda h: t.Dict[str, h],
        }[f["wrap"]](hint)
        fields.append((name, hint))
        obj[name] = tuple(p[0] for p in parts) if f["wrap"] == "tuple" else wrap([p[0] for p in parts])
        payload[name] = wrap([p[1] for p in parts])
        plan.append((name, f, info, parts, wrap))
    Root = dataclasses.make_dataclass("Root", fields)
    root_info = None
    if case["root"]:
        setting, root_info = attach(case["root"])
        Root = setting(Root)

    asked = 0
    for direction in ("serialize", "deserialize"):
        expected_log = []
        expected = None
        if root_info:
            expected_log.append(root_info[0])
            if root_info[1][0 if direction == "serialize" else 1] == "ok":
                expected = "root"
        if expected is None:
            expected = {}
            for name, f, info, parts, wrap in plan:
                out = [convert(info, p[0], direction, p[1], p[2]) for p in parts]
                expected[name] = tuple(out) if f["wrap"] == "tuple" and direction == "deserialize" else wrap(out)
        log.clear()
        mapper = get_object_mapper()
        if direction == "serialize" and expected == "root":
            check(attempt(mapper.convert, Direction.SERIALIZE, 5, Root)[1] == ("by", root_info[0], 5), "converter of the class was not used")
        elif expected == "root":
            got = mapper.deserialize(payload, Root)
            check(got == ("by", root_info[0], payload), lambda: f"{direction}: got {got!r}, expected the converter of the class")
        else:
            got = getattr(mapper, direction)(Root(**obj) if direction == "serialize" else payload, Root)
            if direction == "deserialize":
                check(type(got) is Root, lambda: f"got {got!r}")
                got = {name: getattr(got, name) for name in obj}
            check(got == expected, lambda: f"{direction}: got {got!r}, expected {expected!r}")
            check(log == expected_log, lambda: f"{direction}: asked {log}, expected {expected_log}")
        asked += len(log)
    return Info(asked > 0, [f"asked:{min(asked, 6)}"])


# ------------------------------------------------------------------------------------------- class method delegation


@st.composite
def delegate_cases(draw):
    return {
        "serialize": draw(st.booleans()),
        "deserialize": draw(st.booleans()),
        "serialized_type": draw(st.sampled_from([None, "str", "int", "str|int", "list"])),
        "kind": draw(st.sampled_from(["static", "class"])),
        "where": draw(st.sampled_from(["class", "annotation"])),
        "wrap": draw(st.sampled_from(["root", "list", "optional"])),
        "payload": draw(st.one_of(st.integers(-3, 3), st.text(max_size=3), st.just([1]), st.none(), st.just({"x": 1}), st.booleans())),
        "derived": draw(st.booleans()),
        "value": draw(st.sampled_from(["own", "own", "sub", "other", "none", "int"])),
        "annotated": draw(st.booleans()),
    }


def run_delegate(case):
    """DelegateToClassmethodConverter, by itself."""

    types = {None: None, "str": str, "int": int, "str|int": (str, int), "list": list}[case["serialized_type"]]

    class Target:
        def __init__(self, x):
            self.x = x

        def to_wire(self):
            return ["wire", self.x]

        if case["kind"] == "static":

            @staticmethod
            def of(v):
                return ("made", v)

        else:

            @classmethod
            def of(cls, v):
                return ("made", v)

    class Sub(Target):
        pass

    setting = JsonConverter.using_classmethods(
        types,
        serialize="to_wire" if case["serialize"] else None,
        deserialize="of" if case["deserialize"] else None,
    )
    hint = Target
    if case["where"] == "class":
        setting(Target)
        if case["annotated"]:
            hint = te.Annotated[Target, "text"]
    else:
        hint = te.Annotated[Target, "text", setting] if case["annotated"] else te.Annotated[Target, setting]
    wrap = (lambda x: [x]) if case["wrap"] == "list" else (lambda x: x)
    hint = {"root": lambda h: h, "list": lambda h: t.List[h], "optional": lambda h: t.Optional[h]}[case["wrap"]](hint)
    mapper = get_object_mapper()

    value = {"own": Target(3), "sub": Sub(4), "other": object(), "none": None, "int": 5}[case["value"]]
    ok, got = attempt(mapper.serialize, wrap(value), hint)
    if value is None and case["wrap"] == "optional":
        check(ok and got is None, lambda: f"dumping None gave {got!r}")
    else:
        expected = case["serialize"] and isinstance(value, Target)
        check(ok == expected, lambda: f"dumping {value!r} gave {got!r}")
        if ok:
            check(got == wrap(["wire", value.x]), lambda: f"dumping gave {got!r}")

    # For what is no class, it declines.
    for h in (t.Union[int, str], t.Optional[t.Union[int, t.List[int]]], te.Literal["a", 1]):
        for x in (case["payload"], 1, "a"):
            for convert in (mapper.serialize, mapper.deserialize):
                ok, got = attempt(convert, x, te.Annotated[h, setting])
                ok2, got2 = attempt(convert, x, h)
                check(ok == ok2 and (not ok or got == got2), lambda: f"{convert.__name__}({x!r}) as {h} with a converter gave {got!r}, and {got2!r} without")

    payload = case["payload"]
    if case["derived"] and type(payload) in (str, int):
        payload = {str: Text, int: Number}[type(payload)](payload)
    ok, got = attempt(mapper.deserialize, wrap(payload), hint)
    if payload is None and case["wrap"] == "optional":
        check(ok and got is None, lambda: f"loading None gave {got!r}")
    else:
        expected = case["deserialize"] and (types is None or isinstance(payload, types))
        check(ok == expected, lambda: f"loading {payload!r} gave {got!r}")
        if ok:
            check(got == wrap(("made", payload)), lambda: f"loading gave {got!r}")
    return Info(case["serialize"] or case["deserialize"])


# ------------------------------------------------------------------------------------------- converters of plain types


class Marking(Converter):
    """Converts the values of a plain type to other ones, in both directions."""

    def __init__(self, type_):
        self.type_ = type_

    def convert(self, ctx):
        hint = ctx.datatype
        if isinstance(hint, AnnotatedTypeHint):
            hint = hint[0]
        if not isinstance(hint, ClassTypeHint) or hint.type is not self.type_:
            raise NotImplementedError
        if type(ctx.value) is not self.type_:
            raise ConversionError.expected(self, ctx, self.type_)
        return self.mark(ctx.value)

    def mark(self, v):
        return "marked " + v if self.type_ is str else v + 100


@dataclasses.dataclass
class Items:
    s: str
    i: int
    f: float


class Pair(t.NamedTuple):
    s: str
    i: int


# A type, a value of it, its JSON form (the same, but for what is no list)
PLACES = [
    (str, "a"),
    (int, 1),
    (float, 2.5),
    (t.List[str], ["a", "b", ""]),
    (t.List[int], [1, 2]),
    (t.Dict[str, int], {"k": 1, "": 2}),
    (t.Dict[int, str], {1: "x", 2: ""}),
    (t.Mapping[float, t.List[str]], {0.5: ["y"]}),
    (t.Dict[str, t.Dict[str, float]], {"k": {"l": 0.5}}),
    (t.Optional[str], "a"),
    (t.Optional[int], None),
    (t.Tuple[str, int, float], ("a", 1, 1.5)),
    (t.Tuple[int, ...], (1, 2, 3)),
    (t.Union[int, str], "text"),
    (t.Union[str, int], 5),
    (t.List[t.Union[str, float]], ["5", 5.5]),
    (Items, Items("a", 1, 1.5)),
    (t.List[Items], [Items("", 0, 0.5)]),
    (Pair, Pair("p", 2)),
    (te.TypedDict("Entry", {"s": str, "i": int}), {"s": "a", "i": 1}),
    (t.Any, "a"),
    (t.List[t.Any], ["a", 1]),
    (t.List[bool], [True, False]),
    (te.Literal["a", 1], "a"),
    (te.Annotated[str, "documentation"], "a"),
    (t.NewType("Name", str), "a"),
]


@st.composite
def plain_cases(draw):
    return {
        "types": draw(st.lists(st.sampled_from(["str", "int", "float"]), min_size=1, max_size=2, unique=True)),
        "how": draw(st.sampled_from(["module", "own module", "setting", "call"])),
        "places": draw(st.lists(st.integers(0, len(PLACES) - 1), min_size=1, max_size=3)),
    }


def run_plain(case):
    types = [{"str": str, "int": int, "float": float}[n] for n in case["types"]]
    converters = {x: Marking(x) for x in types}
    mapper, settings = get_object_mapper(), None
    if case["how"] == "module":
        for c in converters.values():
            mapper.module.register(c, first=True)
    elif case["how"] == "own module":
        own = Module("own")
        for c in converters.values():
            own.register(c)
        mapper.module.register(own, first=True)
    else:
        holder = mapper.settings if case["how"] == "setting" else Settings(mapper.settings)
        for x, c in converters.items():
            holder.add_local(x, JsonConverter(c))
        settings = None if case["how"] == "setting" else holder

    def model(hint, v, load):
        """What a value in its place becomes."""

        while getattr(hint, "__supertype__", None):
            hint = hint.__supertype__
        if hint in converters:
            assert type(v) is hint
            return converters[hint].mark(v)
        origin, args = te.get_origin(hint), te.get_args(hint)
        if origin is te.Annotated:
            return model(args[0], v, load)
        if origin is list:
            return [model(args[0], x, load) for x in v]
        if origin is tuple:
            inner = [args[0]] * len(v) if args[1:] == (...,) else args
            out = [model(h, x, load) for h, x in zip(inner, v)]
            return tuple(out) if load else out
        if origin in (dict, collections.abc.Mapping):
            return {model(args[0], k, load): model(args[1], x, load) for k, x in v.items()}
        if origin is t.Union:
            if v is None:
                return None
            for h in args:
                if h is type(v):
                    return model(h, v, load)
            raise AssertionError(v)
        if hint in (Items, Pair) or hasattr(hint, "__required_keys__"):
            hints = t.get_type_hints(hint)
            get = (lambda n: v[n]) if isinstance(v, dict) else (lambda n: getattr(v, n))
            out = {n: model(h, get(n), load) for n, h in hints.items()}
            return hint(**out) if load else out
        return list(v) if isinstance(v, tuple) and not load else v

    marked = 0
    for i in case["places"]:
        hint, value = PLACES[i]
        wire = plainly(value)
        for load in (False, True):
            expected = model(hint, value, load)
            convert = mapper.deserialize if load else mapper.serialize
            ok, got = attempt(convert, copy.deepcopy(wire if load else value), hint, settings=settings)
            check(ok, lambda: f"{'load' if load else 'dump'} of {value!r} as {hint} with converters of {case['types']} failed: {got}")
            check(repr(got) == repr(expected), lambda: f"{'load' if load else 'dump'} of {value!r} as {hint} with converters of {case['types']} gave {got!r}, expected {expected!r}")
            marked += repr(expected) != repr(value)
    return Info(marked > 0, [case["how"]])


def plainly(v):
    if isinstance(v, Items):
        return {"s": v.s, "i": v.i, "f": v.f}
    if isinstance(v, Pair):
        return v._asdict()
    if isinstance(v, (list, tuple)):
        return [plainly(x) for x in v]
    if isinstance(v, dict):
        return {k: plainly(x) for k, x in v.items()}
    return v


PARTS = {
    "plain types": Part(plain_cases, run_plain, 600, 15000),
    "dispatch": Part(cases, run, 4000, 200000),
    "attached": Part(attached_cases, run_attached, 1200, 50000),
    "delegate": Part(delegate_cases, run_delegate, 1200, 20000),
}
REGRESSIONS = [
    {
        "part": "delegate",
        "case": {"serialize": True, "deserialize": True, "serialized_type": None, "kind": "class", "where": "annotation", "wrap": "root", "payload": 1, "value": "own", "annotated": False, "derived": False},
    }
]
