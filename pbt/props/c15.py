import base64
import dataclasses
import datetime
import decimal
import inspect
import itertools
import sys
import types
import typing

import typing_extensions as te
from hypothesis import strategies as st
from typeapi import TypeHint

from databind.core import convert_to_schema
from databind.core.schema import convert_dataclass_to_schema

from pbt import codec
from pbt.util import Info, Part, Violation, attempt, check, dump, load

ID = "C15"
TECHNIQUE = "property-based testing: generated class hierarchies over several modules against a model of dataclasses"
RULE = (
    "A case is a hierarchy of up to five classes, distributed over up to three generated modules, with overriding, type "
    "parameters, forward references, fields that are no parameters and mixed defaults. The schema is compared with the "
    "constructor and with a model that resolves every name where it is declared; then a value is dumped and loaded. "
    "Non-trivial: the class that is looked at has a base class or type parameters or forward references. The part "
    "'markers' has one field with any number of markers (required, flattened, remainder, aliases) of any priority, "
    "nested in any way; the first of the highest priority decides. Non-trivial: there is a marker."
)
ASSUMPTIONS = [
    "Type parameters of generic base classes are always given, and consistently so if there are several paths to a base. "
    "Names in annotations are global names of the declaring module."
]

HEADER = """\
{future}import dataclasses, datetime, decimal, typing as t
import typing_extensions as te
T0 = t.TypeVar("T0")
T1 = t.TypeVar("T1")
"""

BASIC = ["int", "str", "bool", "date", "bytes", "decimal"]
SOURCE = {"int": "int", "str": "str", "bool": "bool", "date": "datetime.date", "bytes": "bytes", "decimal": "decimal.Decimal"}


@st.composite
def exprs(draw, depth, tvs, later, classes):
    """Types of fields: basic ones, names that mean something else in every module, type variables, containers."""

    pool = ["basic", "basic", "num", "num", "either"]
    if later:
        pool += ["later", "nested"]
    if tvs:
        pool += ["tv", "tv", "tv"]
    if depth > 0:
        pool += ["list", "opt", "dict", "ann"]
        if classes:
            pool += ["cls"]
    k = draw(st.sampled_from(pool))
    if k == "basic":
        return [draw(st.sampled_from(BASIC))]
    if k == "tv":
        return ["tv", draw(st.integers(0, tvs - 1))]
    if k in ("list", "opt", "dict", "ann"):
        inner = draw(exprs(depth - 1, tvs, later, classes))
        return inner if k == "opt" and inner[0] == "opt" else [k, inner]
    if k == "cls":
        j = draw(st.integers(0, len(classes) - 1))
        return ["cls", j, [draw(exprs(0, tvs, later, [])) for _ in range(classes[j]["tvs"])]]
    if k == "either":
        return draw(st.sampled_from([["either"], ["either"], ["opt", ["either"]]]))
    return [k]


FIELD_NAMES = ["a", "b", "c", "d", "e"]


@st.composite
def cases(draw):
    nmod = draw(st.integers(1, 3))
    modules = [
        {
            "future": draw(st.booleans()),
            "num": draw(st.sampled_from(BASIC)),
            "later": draw(st.sampled_from(BASIC)),
            "nested": draw(st.sampled_from(BASIC)),
        }
        for _ in range(nmod)
    ]
    classes = []
    for i in range(draw(st.integers(1, 5))):
        nb = draw(st.sampled_from([0, 1, 1, 1, 2])) if i else 0
        nb = min(nb, i)
        bases = sorted(draw(st.lists(st.integers(0, i - 1), min_size=nb, max_size=nb, unique=True)), reverse=True) if nb else []
        least = max([classes[b]["mod"] for b in bases], default=0)
        mod = draw(st.integers(least, nmod - 1))
        tvs = draw(st.sampled_from([0, 0, 1, 2]))
        usable = [c for c in classes if c["mod"] <= mod]
        usable = classes[: len(usable)] if usable == classes[: len(usable)] else []
        fields = []
        plain = bool(bases) and draw(st.integers(0, 5)) == 0
        kw_only = draw(st.booleans())
        for n in draw(st.lists(st.sampled_from(FIELD_NAMES), max_size=3, unique=True)):
            kind = "field" if plain else draw(st.sampled_from(["field"] * 6 + ["noinit", "classvar"]))
            e = draw(exprs(2, tvs, True, usable))
            if draw(st.integers(0, 7)) == 0:
                e = ["self"]
            f = {"n": n, "t": e, "kind": kind, "quoted": draw(st.booleans())}
            if kind == "noinit" or (kind == "field" and kw_only and not plain and draw(st.integers(0, 2)) == 0) or (e == ["self"] and kw_only and not plain):
                f["d"] = draw(st.sampled_from(["default", "factory"]))
            if kind != "classvar" and not plain and draw(st.integers(0, 2)) == 0:
                f["opts"] = draw(st.lists(st.sampled_from(["repr=False", "compare=False", "hash=False", "metadata={'x': 1}", "kw_only=True"]), min_size=1, max_size=3, unique=True))
                if kind == "noinit":
                    f["opts"] = [x for x in f["opts"] if x != "kw_only=True"]
            fields.append(f)
        classes.append(
            {
                "mod": mod,
                "tvs": tvs,
                "bases": [[b, [draw(exprs(1, tvs, draw(st.booleans()), [])) for _ in range(classes[b]["tvs"])]] for b in bases],
                "fields": fields,
                "plain": plain,
                "kw_only": kw_only,
                "slots": draw(st.integers(0, 7)) == 0 and len(bases) < 2 and not plain,
            }
        )
    tvs = classes[-1]["tvs"]
    return {
        "modules": modules,
        "classes": classes,
        "args": [draw(exprs(1, 0, False, [])) for _ in range(tvs)],
        "seed": draw(st.integers(0, 5)),
        "omit": draw(st.booleans()),
        "alias": draw(st.booleans()),
    }


_counter = itertools.count()


class Hierarchy:
    def __init__(self, case):
        for clear in getattr(typing, "_cleanups", []):
            clear()
        self.case = case
        self.prefix = f"pbt_case_h{next(_counter)}_"
        self.names = [f"{self.prefix}m{i}" for i in range(len(case["modules"]))]
        self.sources = []
        self.built = {}
        for i, m in enumerate(case["modules"]):
            src = HEADER.format(future="from __future__ import annotations\n" if m["future"] else "")
            for j in range(i):
                src += f"import {self.names[j]} as m{j}\n"
            src += f"Num = {SOURCE[m['num']]}\n\n"
            for k, c in enumerate(case["classes"]):
                if c["mod"] == i:
                    src += self.render(k, c, m["future"]) + "\n"
            src += f"Later = {SOURCE[m['later']]}\nclass Outer:\n    Num = {SOURCE[m['nested']]}\n"
            self.sources.append(src)

    def expr(self, e, mod, owner, future, quoted, runtime=False):
        """The source of a type in the given module. *runtime*: it is evaluated when the class is declared."""

        go = lambda x: self.expr(x, mod, owner, future, quoted, runtime)  # noqa: E731
        name = None
        if e[0] in SOURCE:
            return SOURCE[e[0]]
        if e[0] == "tv":
            return f"T{e[1]}"
        if e[0] == "either":
            return repr("t.Union[str, int]") if quoted and not future else "t.Union[str, int]"
        if e[0] == "num":
            name, must = "Num", False
        elif e[0] == "later":
            name, must = "Later", True
        elif e[0] == "nested":
            name, must = "Outer.Num", True
        elif e[0] == "self":
            return f"t.Optional[{owner if future and not runtime else repr(owner)}]"
        elif e[0] == "list":
            return f"t.List[{go(e[1])}]"
        elif e[0] == "opt":
            return f"t.Optional[{go(e[1])}]"
        elif e[0] == "dict":
            return f"t.Dict[str, {go(e[1])}]"
        elif e[0] == "ann":
            return f"te.Annotated[{go(e[1])}, 'text']"
        elif e[0] == "cls":
            c = self.case["classes"][e[1]]
            ref = f"C{e[1]}" if c["mod"] == mod else f"m{c['mod']}.C{e[1]}"
            return ref + (f"[{', '.join(map(go, e[2]))}]" if e[2] else "")
        if must and not (future and not runtime) or quoted and not future:
            return repr(name)
        return name

    def render(self, k, c, future):
        bases = []
        for b, args in c["bases"]:
            other = self.case["classes"][b]
            ref = f"C{b}" if other["mod"] == c["mod"] else f"m{other['mod']}.C{b}"
            if args:
                ref += f"[{', '.join(self.expr(a, c['mod'], None, False, False, True) for a in args)}]"
            bases.append(ref)
        if c["tvs"]:
            bases.append(f"t.Generic[{', '.join(f'T{i}' for i in range(c['tvs']))}]")
        out = ""
        if not c["plain"]:
            args = [f"{n}=True" for n in ("kw_only", "slots") if c[n]]
            out += f"@dataclasses.dataclass({', '.join(args)})\n"
        out += f"class C{k}({', '.join(bases)}):\n" if bases else f"class C{k}:\n"
        for f in c["fields"]:
            t = self.expr(f["t"], c["mod"], f"C{k}", future, f["quoted"])
            if f["kind"] == "classvar":
                out += f"    {f['n']}: t.ClassVar[int] = 5\n"
                continue
            args = list(f.get("opts", []))
            if f["kind"] == "noinit":
                args.append("init=False")
            if "d" in f:
                v = f"_DEFAULT({k}, {f['n']!r})"
                args.append(f"default={v}" if f["d"] == "default" and self.immutable(f["t"]) else f"default_factory=lambda: {v}")
            out += f"    {f['n']}: {t}" + (f" = dataclasses.field({', '.join(args)})\n" if args else "\n")
        if not c["fields"]:
            out += "    pass\n"
        return out

    def immutable(self, e):
        return e[0] in SOURCE or e[0] in ("num", "later", "nested")

    def __enter__(self):
        for name, src in zip(self.names, self.sources):
            mod = types.ModuleType(name)
            sys.modules[name] = mod
            vars(mod)["_DEFAULT"] = self.default
            exec(compile(src, f"<{name}>", "exec", dont_inherit=True), vars(mod))
        return self

    def __exit__(self, *args):
        for name in self.names:
            sys.modules.pop(name, None)

    def cls(self, k):
        return vars(sys.modules[self.names[self.case["classes"][k]["mod"]]])[f"C{k}"]

    def default(self, k, name):
        f = next(f for f in self.case["classes"][k]["fields"] if f["n"] == name)
        e = f["t"]
        try:
            return self.sample(self.resolve(e, k, None), 7, 9)[1]
        except NoValue:
            return None

    # --- the model

    def resolve(self, e, k, args):
        """The type without any names: where it is declared in class k, that has the type arguments *args*."""

        m = self.case["modules"][self.case["classes"][k]["mod"]]
        if e[0] in SOURCE or e[0] == "either":
            return (e[0],)
        if e[0] in ("num", "later", "nested"):
            return (m[e[0]],)
        if e[0] == "tv":
            if args is None:
                raise NoValue
            return args[e[1]]
        if e[0] == "self":
            c = self.case["classes"][k]
            # A reference to a generic class without parameters
            return ("opt", ("cls", k, () if not c["tvs"] else None))
        if e[0] in ("list", "opt", "dict", "ann"):
            inner = self.resolve(e[1], k, args)
            return inner if e[0] == "ann" or e[0] == "opt" and inner[0] == "opt" else (e[0], inner)
        return ("cls", e[1], tuple(self.resolve(a, k, args) for a in e[2]))

    def arguments(self, k, args):
        """{class: set of the type arguments with which it is a base (or the class itself)}"""

        out = {k: {args}}
        for b, exprs in self.case["classes"][k]["bases"]:
            for a, x in self.arguments(b, tuple(self.resolve(e, k, args) for e in exprs)).items():
                out.setdefault(a, set()).update(x)
        return out

    def effective(self, k):
        """{name: (class in which it is declared, field)}, by the rules of dataclasses."""

        numbers = [int(c.__name__[1:]) for c in self.cls(k).__mro__ if c.__module__ in self.names]
        c = self.case["classes"][k]
        if c["plain"]:
            for j in numbers[1:]:
                if not self.case["classes"][j]["plain"]:
                    return self.effective(j)
            return {}
        out = {}
        for j in reversed(numbers[1:]):
            # Those that are not decorated also count, with the fields they inherit.
            out.update(self.effective(j))
        for f in c["fields"]:
            out[f["n"]] = (k, f)
        return out

    def fields(self, k, args):
        """{name: (resolved type or None if it is ambiguous, field)} of the parameters of the constructor."""

        table = self.arguments(k, args)
        out = {}
        for n, (j, f) in self.effective(k).items():
            if f["kind"] != "field":
                continue
            a = table[j]
            out[n] = (self.resolve(f["t"], j, next(iter(a))) if len(a) == 1 else None, f)
        return out

    def sample(self, t, n, depth=0):
        """The JSON form and the value"""

        k = t[0]
        if k == "either":
            return (n, n) if n % 2 else (f"s{n}", f"s{n}")
        if k == "int":
            return n, n
        if k == "str":
            return f"s{n}", f"s{n}"
        if k == "bool":
            return n % 2 == 0, n % 2 == 0
        if k == "date":
            return f"2021-01-{n % 28 + 1:02}", datetime.date(2021, 1, n % 28 + 1)
        if k == "bytes":
            b = bytes([n % 256, 250])
            return base64.b64encode(b).decode(), b
        if k == "decimal":
            return f"{n}.50", decimal.Decimal(f"{n}.50")
        if k == "opt":
            if depth > 2 or t[1][0] == "cls" and t[1][2] is None:
                return None, None
            return self.sample(t[1], n, depth + 1)
        if k == "list":
            x = [self.sample(t[1], n + i, depth + 1) for i in range(2)]
            return [a for a, _ in x], [b for _, b in x]
        if k == "dict":
            a, b = self.sample(t[1], n, depth + 1)
            return {"k": a}, {"k": b}
        wire, values = {}, {}
        for i, (name, (ft, f)) in enumerate(sorted(self.fields(t[1], t[2]).items())):
            if ft is None:
                raise NoValue
            wire[name], values[name] = self.sample(ft, n + i, depth + 1)
        return wire, self.cls(t[1])(**values)

    def hint(self, t):
        k = t[0]
        if k == "either":
            return typing.Union[str, int]
        if k in SOURCE:
            return {"int": int, "str": str, "bool": bool, "date": datetime.date, "bytes": bytes, "decimal": decimal.Decimal}[k]
        if k == "cls":
            args = tuple(map(self.hint, t[2] or ()))
            return self.cls(t[1])[args] if args else self.cls(t[1])
        inner = self.hint(t[1])
        return {"list": typing.List[inner], "opt": typing.Optional[inner], "dict": typing.Dict[str, inner]}[k]


class NoValue(Exception):
    pass


def describe(case):
    h = Hierarchy(case)
    return "\n".join(s[s.index("T1 = ") :].split("\n", 1)[1] for s in h.sources)


def shape(v):
    """A value with the types of all of its parts."""

    if dataclasses.is_dataclass(v):
        return (type(v).__name__, [(f.name, shape(getattr(v, f.name, None))) for f in dataclasses.fields(v)])
    if isinstance(v, list):
        return [shape(x) for x in v]
    if isinstance(v, dict):
        return [(k, shape(x)) for k, x in v.items()]
    return (type(v).__name__, repr(v))


def run(case):
    h = Hierarchy(case)
    try:
        try:
            h.__enter__()
        except (TypeError, ValueError):
            # Not allowed by Python: inconsistent order of bases, slots that conflict, ... databind is not involved.
            return Info(False, ["impossible"])
        k = len(case["classes"]) - 1
        cls = h.cls(k)
        if not dataclasses.is_dataclass(cls):
            return Info(False, ["no dataclass"])
        args = tuple(h.resolve(a, k, ()) for a in case["args"])
        hint = h.hint(("cls", k, args))
        expected = h.fields(k, args)
        text = "\n" + "\n".join(h.sources)

        schema = convert_to_schema(TypeHint(hint)) if case["alias"] else convert_dataclass_to_schema(hint)
        check(schema.type is cls, lambda: f"the type of the schema is {schema.type}")
        parameters = list(inspect.signature(cls).parameters)
        check(set(parameters) == set(expected), lambda: f"model: {sorted(expected)}, constructor: {parameters}")
        check(
            set(schema.fields) == set(parameters),
            lambda: f"the schema has {sorted(schema.fields)}, the constructor takes {parameters}{text}",
        )
        own = {f.name: f for f in dataclasses.fields(cls)}
        defaulted = {n for n, f in own.items() if f.default is not dataclasses.MISSING or f.default_factory is not dataclasses.MISSING}
        known = True
        for n, (t, f) in expected.items():
            field = schema.fields[n]
            if t is None:
                known = False
                continue
            optional = t[0] == "opt"
            # An override without default inherits the value of the attribute as its default, so this is not up to the model.
            has = n in defaulted
            check(field.required == (not has and not optional), lambda: f"field {n}: required={field.required}{text}")
            check(field.has_default() == (has or optional), lambda: f"field {n}: has_default={field.has_default()}{text}")
            if own[n].default is not dataclasses.MISSING:
                check(field.default is own[n].default, lambda: f"field {n}: default {field.default!r}{text}")
            if own[n].default_factory is not dataclasses.MISSING:
                check(field.default_factory is own[n].default_factory, lambda: f"field {n}: default factory{text}")
            check(not field.flattened, "flattened")
        if not known:
            return Info(False, ["ambiguous"])
        try:
            wire, value = h.sample(("cls", k, args), case["seed"])
        except NoValue:
            return Info(False, ["ambiguous"])
        ok, got = attempt(load, wire, hint)
        check(ok, lambda: f"load({wire!r}) failed: {got}{text}")
        check(shape(got) == shape(value), lambda: f"load({wire!r}) gave {shape(got)}, expected {shape(value)}{text}")
        ok, got = attempt(dump, value, hint)
        check(ok, lambda: f"dump({value!r}) failed: {got}{text}")
        check(codec.canon(got) == codec.canon(wire), lambda: f"dump({value!r}) gave {got!r}, expected {wire!r}{text}")

        if case["omit"]:
            # Only what is required
            less = {n: x for n, x in wire.items() if n not in defaulted and expected[n][0][0] != "opt"}
            ok, got = attempt(load, less, hint)
            check(ok, lambda: f"load({less!r}) failed: {got}{text}")
            for n, (t, f) in expected.items():
                if n in less:
                    want = getattr(value, n)
                elif n in defaulted:
                    want = own[n].default if own[n].default is not dataclasses.MISSING else own[n].default_factory()
                else:
                    want = None
                check(shape(getattr(got, n)) == shape(want), lambda: f"load({less!r}): field {n} is {getattr(got, n)!r}, expected {want!r}{text}")
            for n in less:
                ok, got = attempt(load, {a: b for a, b in less.items() if a != n}, hint)
                check(not ok, lambda: f"loaded {got!r} without {n}{text}")
        for n in set(own) - set(expected):
            ok, got = attempt(load, {**wire, n: 1}, hint)
            check(not ok, lambda: f"loaded {got!r} although {n} is no parameter{text}")
        c = case["classes"][k]
        labels = []
        if len({case["classes"][j]["mod"] for j in h.arguments(k, args)}) > 1:
            labels.append("bases in other modules")
        if len(c["bases"]) > 1:
            labels.append("several bases")
        if args:
            labels.append("parametrized")
        if any(len(b[1]) for b in c["bases"]):
            labels.append("generic base")
        if c["plain"]:
            labels.append("not decorated")
        if any(sum(f["n"] == n for j in h.arguments(k, args) for f in case["classes"][j]["fields"]) > 1 for n in own):
            labels.append("overridden")
        return Info(bool(c["bases"] or args or c["fields"]), labels)
    finally:
        h.__exit__()


# --- markers ----------------------------------------------------------------------------------------------------------


@st.composite
def marker_lists(draw):
    """Lists of lists (from the inside) of markers, or None for an annotation that is no marker"""

    marker = st.one_of(
        st.tuples(st.sampled_from(["Required", "Required", "Flattened", "Remainder", "Strict"]), st.booleans(), st.integers(0, 3)).map(list),
        st.tuples(st.just("Alias"), st.sampled_from([["x"], ["y", "z"], ["y"], ["z", "x", "y", "w"]]), st.integers(0, 3)).map(list),
        st.none(),
    )
    return draw(st.lists(st.lists(marker, min_size=1, max_size=3), max_size=2))


@st.composite
def marker_cases(draw):
    return {
        "kind": draw(st.sampled_from(["dc", "dc", "td", "base"])),
        "optional": draw(st.booleans()),
        "inner": draw(marker_lists()) if draw(st.booleans()) else [],
        "outer": draw(marker_lists()),
        "default": draw(st.sampled_from([None, None, "plain", "computed", "odd", "unequal"])),
        "future": draw(st.booleans()),
        "payload": draw(st.sampled_from(["nothing", "name", "alias", "alias"])),
        "notes": draw(st.lists(st.sampled_from(["note", "other", 3]), max_size=3)),
    }


ODD = """\
class Odd:
    def __init__(self, answer): self.answer = answer
    def __eq__(self, other):
        if self.answer is None: raise ValueError("no truth value")
        return self.answer
    __ne__ = __eq__
    __hash__ = object.__hash__
ODD, UNEQUAL = Odd(True), Odd(None)
"""


def marker_source(case):
    def wrap(t, groups):
        for g in groups:
            t = f"te.Annotated[{t}, {', '.join(marker(m) for m in g)}]"
        return t

    def marker(m):
        if m is None:
            return "'note'"
        args = ", ".join(map(repr, m[1])) if m[0] == "Alias" else repr(m[1])
        constants.append(f"{m[0]}({args}, priority=Priority({m[2]}))")
        return f"M{len(constants)}"

    constants: typing.List[str] = []
    t = wrap("int", case["inner"])
    t = wrap(f"t.Optional[{t}]" if case["optional"] else t, case["outer"])
    default = {None: "", "plain": " = 7", "computed": " = dataclasses.field(default_factory=lambda: 7)", "odd": " = ODD", "unequal": " = UNEQUAL"}[case["default"]]
    if case["kind"] == "td" and case["default"] == "computed":
        default = " = 7"
    out = ["from __future__ import annotations\n" if case["future"] else "", "import dataclasses, typing as t\nimport typing_extensions as te\n"]
    out.append("from databind.core import Alias, Flattened, Priority, Remainder, Required, Strict\n")
    if case["default"] in ("odd", "unequal"):
        out.append(ODD)
    out += [f"M{i} = {c}\n" for i, c in enumerate(constants, 1)]
    if case["kind"] == "td":
        out.append(f"class A(te.TypedDict):\n    f: {t}{default}\n")
    else:
        out.append(f"@dataclasses.dataclass\nclass {'B' if case['kind'] == 'base' else 'A'}:\n    f: {t}{default}\n")
        if case["kind"] == "base":
            out.append("@dataclasses.dataclass\nclass A(B):\n    pass\n")
    return "".join(out)


def run_markers(case):
    source = marker_source(case)
    name = f"pbt_c15_markers_{next(_counter)}"
    mod = sys.modules[name] = types.ModuleType(name)
    try:
        exec(compile(source, name, "exec", dont_inherit=True), mod.__dict__)
        notes = case["notes"]
        schema = convert_to_schema(TypeHint(te.Annotated[(mod.A, *notes)] if notes else mod.A))
        check(list(schema.annotations) == notes, lambda: f"annotations={schema.annotations}, expected {notes}\n{source}")
        # The annotations of one hint have nothing to do with those of another hint of the same class.
        for other in (["another"], [], notes):
            again = convert_to_schema(TypeHint(te.Annotated[(mod.A, *other)] if other else mod.A)).annotations
            check(list(again) == other, lambda: f"annotations={again} after {schema.annotations}, expected {other}\n{source}")
        field = schema.fields["f"]
        groups = ([] if case["optional"] else case["inner"]) + case["outer"]
        markers = [m for g in groups for m in g if m]

        def first(kind):
            found = [m for m in markers if m[0] == kind]
            return max(found, key=lambda m: m[2])[1] if found else None

        required = first("Required")
        has = case["default"] is not None
        if required is None:
            required = not has and not case["optional"]
        aliases = first("Alias") or []
        flattened = bool(first("Flattened"))
        check(field.required is required, lambda: f"required={field.required}, expected {required}\n{source}")
        check(field.flattened is flattened, lambda: f"flattened={field.flattened}, expected {flattened}\n{source}")
        check(list(field.aliases) == aliases, lambda: f"aliases={field.aliases}, expected {aliases}\n{source}")
        seven = {"odd": vars(mod).get("ODD"), "unequal": vars(mod).get("UNEQUAL")}.get(case["default"], 7)
        check(field.has_default() == (has or not required), lambda: f"has_default={field.has_default()}\n{source}")
        if field.has_default():
            default = field.get_default()
            check(default is (seven if has else None), lambda: f"default={default}\n{source}")
        labels = [case["payload"], case["kind"]]
        if flattened or first("Remainder"):
            return Info(bool(markers), labels + ["flattened or remainder"])
        keys = aliases or ["f"]
        payload = {} if case["payload"] == "nothing" else {"f": 1} if case["payload"] == "name" else {keys[-1]: 1}
        want = payload[keys[-1]] if keys[-1] in payload else None
        ok, got = attempt(load, payload, mod.A)
        if payload.keys() - set(keys) or not payload and required:
            check(not ok, lambda: f"load({payload!r}) gave {got!r}\n{source}")
        else:
            want = 1 if payload else seven if has else None
            check(ok, lambda: f"load({payload!r}) failed: {got}\n{source}")
            value = got["f"] if case["kind"] == "td" else got.f
            check(value is want, lambda: f"load({payload!r}) gave {got!r}, expected {want!r}\n{source}")
            if (value is not None or case["optional"]) and type(want) is not vars(mod).get("Odd"):
                ok, back = attempt(dump, got, mod.A)
                check(ok and back == {keys[0]: want}, lambda: f"dump({got!r}) gave {back!r}\n{source}")
        return Info(bool(markers), labels + (["several of a kind"] if len({m[0] for m in markers}) < len(markers) else []))
    finally:
        del sys.modules[name]


PARTS = {
    "hierarchies": Part(cases, run, 3000, 150000, describe),
    "markers": Part(marker_cases, run_markers, 2500, 100000, marker_source),
}
REGRESSIONS = []
