import base64
import datetime
import decimal
import itertools
import sys
import types
import typing
import uuid

import typing_extensions as te
from hypothesis import strategies as st
from typeapi import TypeHint

from databind.core import convert_to_schema
from databind.core.schema import convert_typed_dict_to_schema

from pbt import codec
from pbt.props.c15 import BASIC, SOURCE, HEADER
from pbt.util import Info, Part, attempt, check, dump, load

ID = "C16"
TECHNIQUE = "property-based testing: generated typed dict and named tuple declarations against a model of their keys"
RULE = (
    "A case declares up to five typed dicts and named tuples over up to three generated modules (class or call syntax, "
    "inheritance with different totality, redeclared keys, aliases, defaults, forward references to names that mean "
    "something else in every module, nesting) and looks at the last one: a complete payload, payloads without some of "
    "the keys, with an unknown key, with a value of the wrong type and with no mapping at all are loaded, the values dumped. "
    "Non-trivial: the declaration has at least one key."
)
ASSUMPTIONS = [
    "Keys of typed dicts that are not required are no Optionals, and Required[]/NotRequired[] are not used (documented as to do)."
]

IMPORTS = "import collections\nfrom databind.core import Alias\n"
TD_KEYS = ["a", "b", "c", "keys", "items", "get", "update", "copy", "clear", "type", "x_y", "_under"]
ODD_KEYS = ["a-b", "class", "", "1", "with space", "é", "__name__", "$"]
NT_KEYS = ["a", "b", "c", "count", "index", "type", "keys"]


@st.composite
def exprs(draw, depth, usable, top=True):
    pool = ["basic", "basic", "num", "num", "later", "nested", "either"]
    if depth > 0:
        pool += ["list", "dict", "ann", "opt"]
        if usable:
            pool += ["ref", "ref"]
    k = draw(st.sampled_from(pool))
    if k == "basic":
        return [draw(st.sampled_from(BASIC))]
    if k in ("list", "dict", "ann", "opt"):
        inner = draw(exprs(depth - 1, usable, False))
        if k == "opt" and inner[0] == "opt":
            return inner
        return [k, inner]
    if k == "ref":
        return ["ref", draw(st.sampled_from(usable))]
    return [k]


def is_opt(e):
    return e[0] == "opt" or e[0] == "ann" and is_opt(e[1])


@st.composite
def cases(draw):
    nmod = draw(st.integers(1, 3))
    modules = [
        {
            "future": draw(st.booleans()),
            "num": draw(st.sampled_from(BASIC)),
            "later": draw(st.sampled_from(BASIC)),
            "nested": draw(st.sampled_from(BASIC)),
        }
        for _ in range(nmod)
    ]
    decls = []
    for i in range(draw(st.sampled_from([1, 2, 3, 3, 4, 4, 5]))):
        kind = draw(st.sampled_from(["td", "td", "nt"]))
        mod = draw(st.integers(0, nmod - 1))
        before = [j for j, d in enumerate(decls) if d["mod"] <= mod]
        candidates = [j for j in before if decls[j]["kind"] == kind]
        n = draw(st.sampled_from([0, 1, 1, 2])) if kind == "td" else draw(st.sampled_from([0, 0, 1]))
        bases = draw(st.lists(st.sampled_from(candidates), min_size=min(n, len(candidates)), max_size=n, unique=True)) if candidates and n else []
        if kind == "td" and len({decls[j]["te"] for j in bases}) > 1:
            bases = bases[:1]
        te = decls[bases[0]]["te"] if bases else draw(st.integers(0, 3)) == 0
        call = not bases and draw(st.integers(0, 3)) == 0
        total = draw(st.sampled_from([True, True, False]))
        pool = (TD_KEYS + (ODD_KEYS if call else [])) if kind == "td" else NT_KEYS
        fields = []
        if kind == "td" or not bases:
            for name in draw(st.lists(st.sampled_from(pool), min_size=kind == "nt", max_size=4, unique=True)):
                e = draw(exprs(2, before))
                if not total and kind == "td":
                    while is_opt(e):
                        e = e[1]
                f = {"n": name, "t": e, "quoted": draw(st.booleans())}
                if draw(st.integers(0, 4)) == 0:
                    f["al"] = [f"{name}:{j}" for j in range(draw(st.integers(1, 2)))]
                if not call and (kind == "nt" and (fields and "d" in fields[-1] or draw(st.integers(0, 5)) == 0) or kind == "td" and draw(st.integers(0, 9)) == 0):
                    f["d"] = draw(st.sampled_from(["some", "empty", "empty"]))
                fields.append(f)
        decls.append({"kind": kind, "mod": mod, "bases": bases, "te": te, "call": call, "total": total, "fields": fields})
    return {
        "modules": modules,
        "decls": decls,
        "drop": draw(st.integers(0, 255)),
        "alias": draw(st.integers(0, 1)),
        "seed": draw(st.integers(0, 5)),
        "extra": draw(st.sampled_from(["a", "zz", "a:2", "keys"])),
        "bad": draw(st.integers(0, 7)),
    }


_counter = itertools.count()
PYTHON = {"int": int, "str": str, "bool": bool, "date": datetime.date, "bytes": bytes, "decimal": decimal.Decimal}


class Declarations:
    def __init__(self, case):
        for clear in getattr(typing, "_cleanups", []):
            clear()
        self.case = case
        prefix = f"pbt_case_t{next(_counter)}_"
        self.names = [f"{prefix}m{i}" for i in range(len(case["modules"]))]
        self.sources = []
        for i, m in enumerate(case["modules"]):
            src = HEADER.format(future="from __future__ import annotations\n" if m["future"] else "") + IMPORTS
            for j in range(i):
                src += f"import {self.names[j]} as m{j}\n"
            src += f"Num = {SOURCE[m['num']]}\n\n"
            for k, d in enumerate(case["decls"]):
                if d["mod"] == i:
                    src += self.render(k, d, m["future"]) + "\n"
            src += f"Later = {SOURCE[m['later']]}\nclass Outer:\n    Num = {SOURCE[m['nested']]}\n"
            self.sources.append(src)

    def expr(self, e, mod, strings, quoted):
        """*strings*: the expression is not evaluated anyway."""

        go = lambda x: self.expr(x, mod, strings, quoted)  # noqa: E731
        if e[0] in SOURCE:
            return SOURCE[e[0]]
        if e[0] == "either":
            return "t.Union[bool, str]"
        if e[0] == "list":
            return f"t.List[{go(e[1])}]"
        if e[0] == "opt":
            return f"t.Optional[{go(e[1])}]"
        if e[0] == "dict":
            return f"t.Dict[str, {go(e[1])}]"
        if e[0] == "ann":
            return f"te.Annotated[{go(e[1])}, 'text']"
        if e[0] == "ref":
            m = self.case["decls"][e[1]]["mod"]
            return f"D{e[1]}" if m == mod else f"m{m}.D{e[1]}"
        name = {"num": "Num", "later": "Later", "nested": "Outer.Num"}[e[0]]
        return repr(name) if not strings and (e[0] != "num" or quoted) else name

    def render(self, k, d, future):
        def hint(f, strings):
            t = self.expr(f["t"], d["mod"], strings, f["quoted"])
            return f"te.Annotated[{t}, Alias({', '.join(map(repr, f['al']))})]" if "al" in f else t

        base = ("te" if d["te"] and d["kind"] == "td" else "t") + (".TypedDict" if d["kind"] == "td" else ".NamedTuple")
        if d["call"]:
            pairs = [(f["n"], hint(f, False)) for f in d["fields"]]
            if d["kind"] == "td":
                args = "{" + ", ".join(f"{n!r}: {h}" for n, h in pairs) + "}" + ("" if d["total"] else ", total=False")
            else:
                args = "[" + ", ".join(f"({n!r}, {h})" for n, h in pairs) + "]"
            return f"D{k} = {base}('D{k}', {args})\n"
        bases = []
        for b in d["bases"]:
            m = self.case["decls"][b]["mod"]
            bases.append(f"D{b}" if m == d["mod"] else f"m{m}.D{b}")
        total = ", total=False" if d["kind"] == "td" and not d["total"] else ""
        out = f"class D{k}({', '.join(bases or [base])}{total}):\n"
        for f in d["fields"]:
            out += f"    {f['n']}: {hint(f, future)}" + (f" = _DEFAULT({k}, {f['n']!r})\n" if "d" in f else "\n")
        return out + ("" if d["fields"] else "    pass\n")

    def __enter__(self):
        for name, src in zip(self.names, self.sources):
            mod = types.ModuleType(name)
            sys.modules[name] = mod
            vars(mod)["_DEFAULT"] = self.default
            exec(compile(src, f"<{name}>", "exec", dont_inherit=True), vars(mod))
        return self

    def __exit__(self, *args):
        for name in self.names:
            sys.modules.pop(name, None)

    def cls(self, k):
        return vars(sys.modules[self.names[self.case["decls"][k]["mod"]]])[f"D{k}"]

    def default(self, k, name):
        f = next(f for f in self.case["decls"][k]["fields"] if f["n"] == name)
        t = self.resolve(f["t"], k)
        if f["d"] == "empty":
            empty = {"opt": None, "list": [], "dict": {}, "int": 0, "str": "", "bool": False, "bytes": b"", "decimal": decimal.Decimal(0)}
            if t[0] in empty:
                return empty[t[0]]
        return self.sample(t, 11)[1]

    # --- the model

    def resolve(self, e, k):
        """The type of a key that is declared in D<k>, without names."""

        m = self.case["modules"][self.case["decls"][k]["mod"]]
        if e[0] in SOURCE or e[0] == "either":
            return (e[0],)
        if e[0] in ("num", "later", "nested"):
            return (m[e[0]],)
        if e[0] == "ref":
            return ("ref", e[1])
        inner = self.resolve(e[1], k)
        return inner if e[0] == "ann" or e[0] == "opt" and inner[0] == "opt" else (e[0], inner)

    def keys(self, k):
        """{key: (declared in, field, required)}"""

        d = self.case["decls"][k]
        out = {}
        for b in d["bases"]:
            for n, (j, f, required) in self.keys(b).items():
                if d["kind"] == "td" and "d" in f:
                    required = None  # Whether a value on a base class counts is not said anywhere.
                out[n] = (j, f, required)
        for f in d["fields"]:
            optional = d["kind"] == "td" and is_opt(f["t"])
            out[f["n"]] = (k, f, (d["total"] or d["kind"] == "nt") and not optional and "d" not in f)
        return out

    def sample(self, t, n, alias=0):
        """The JSON form and the value"""

        k = t[0]
        if k == "either":
            return (True, True) if n % 2 else (f"s{n}", f"s{n}")
        if k == "int":
            return n, n
        if k == "str":
            return f"s{n}", f"s{n}"
        if k == "bool":
            return n % 2 == 0, n % 2 == 0
        if k == "date":
            return f"2021-01-{n % 28 + 1:02}", datetime.date(2021, 1, n % 28 + 1)
        if k == "bytes":
            b = bytes([n % 256, 250])
            return base64.b64encode(b).decode(), b
        if k == "decimal":
            return f"{n}.50", decimal.Decimal(f"{n}.50")
        if k == "opt":
            return self.sample(t[1], n, alias) if n % 3 else (None, None)
        if k == "list":
            x = [self.sample(t[1], n + i, alias) for i in range(2)]
            return [a for a, _ in x], [b for _, b in x]
        if k == "dict":
            a, b = self.sample(t[1], n, alias)
            return {"k": a}, {"k": b}
        wire, values = {}, {}
        for i, (name, (j, f, _)) in enumerate(sorted(self.keys(t[1]).items())):
            w, values[name] = self.sample(self.resolve(f["t"], j), n + i, alias)
            wire[self.key(name, f, alias)] = w
        if self.case["decls"][t[1]]["kind"] == "nt":
            return wire, self.cls(t[1])(**values)
        return wire, values

    def key(self, name, f, alias=0):
        names = f.get("al") or [name]
        return names[min(alias, len(names) - 1)]


def describe(case):
    return "\n".join(s[s.index("import collections") :] for s in Declarations(case).sources)


def shape(v):
    """A value with the types of all of its parts."""

    if type(v) is tuple:
        return ("tuple", [shape(x) for x in v])
    if isinstance(v, tuple):
        return (type(v).__module__, type(v).__name__, [(n, shape(x)) for n, x in zip(v._fields, v)])
    if isinstance(v, list):
        return [shape(x) for x in v]
    if type(v) is dict:
        return {k: shape(x) for k, x in v.items()}
    return (type(v).__name__, repr(v))


def run(case):
    d = Declarations(case)
    try:
        try:
            d.__enter__()
        except TypeError:
            return Info(False, ["impossible"])  # e.g. defaults before other fields; databind is not involved
        k = len(case["decls"]) - 1
        decl, cls = case["decls"][k], d.cls(k)
        typed_dict = decl["kind"] == "td"
        keys = d.keys(k)
        if not keys and not typed_dict:
            return Info(False, ["empty"])
        text = "\n" + describe(case)

        def loads(payload, expected, what):
            ok, got = attempt(load, payload, cls)
            check(ok, lambda: f"load({payload!r}) failed, {what}: {got}{text}")
            check(typed_dict or type(got) is cls, lambda: f"load({payload!r}) gave a {type(got)}{text}")
            check(shape(got) == shape(expected), lambda: f"load({payload!r}) gave {got!r}, expected {expected!r}{text}")

        def refuses(payload, what):
            ok, got = attempt(load, payload, cls)
            check(not ok, lambda: f"load({payload!r}) gave {got!r}, {what}{text}")

        def dumps(value, expected, what):
            ok, got = attempt(dump, value, cls)
            check(ok, lambda: f"dump({value!r}) failed, {what}: {got}{text}")
            check(codec.canon(got) == codec.canon(expected), lambda: f"dump({value!r}) gave {got!r}, expected {expected!r}{text}")

        if typed_dict:
            hint = TypeHint(cls)
            for what, get in [("class", lambda: convert_typed_dict_to_schema(cls)), ("hint", lambda: convert_typed_dict_to_schema(hint)), ("any hint", lambda: convert_to_schema(hint))]:
                ok, schema = attempt(get)
                check(ok, lambda: f"the schema by the {what} failed: {schema}{text}")
                check(set(schema.fields) == set(keys) and schema.type is cls, lambda: f"the schema by the {what} has {list(schema.fields)}{text}")
                for n, (_, f, required) in keys.items():
                    check(required is None or schema.fields[n].required == required, lambda: f"schema by the {what}: {n} is required={schema.fields[n].required}{text}")
                    check(schema.fields[n].aliases == tuple(f.get("al") or ()), lambda: f"schema by the {what}: {n} has the aliases {schema.fields[n].aliases}{text}")

        # A complete value
        wire, value = d.sample(("ref", k), case["seed"])
        other, _ = d.sample(("ref", k), case["seed"], case["alias"])
        loads(wire, value, "complete")
        loads(other, value, "with aliases")
        dumps(value, wire, "complete")

        # Some keys are missing
        names = sorted(keys)
        dropped = {n for i, n in enumerate(names) if case["drop"] >> (i % 8) & 1}
        less = {d.key(n, keys[n][1]): wire[d.key(n, keys[n][1])] for n in names if n not in dropped}
        labels = []
        if dropped:
            unknown = any(keys[n][2] is None for n in dropped)
            if any(keys[n][2] for n in dropped):
                labels.append("required key missing")
                refuses(less, f"although {sorted(dropped)} are missing")
                if typed_dict:
                    partial = {n: x for n, x in value.items() if n not in dropped}
                    ok, got = attempt(dump, partial, cls)
                    check(not ok, lambda: f"dump({partial!r}) gave {got!r}{text}")
            elif not unknown:
                labels.append("other key missing" + (" (default)" if any("d" in keys[n][1] for n in dropped) else ""))
                partial = {n: getattr(value, n) if not typed_dict else value[n] for n in names if n not in dropped}
                expected = dict(partial)
                for n in dropped:
                    j, f, _ = keys[n]
                    if "d" in f:
                        expected[n] = d.default(j, n)
                    elif is_opt(f["t"]) and typed_dict:
                        expected[n] = None
                loads(less, expected if typed_dict else cls(**expected), f"without {sorted(dropped)}")
                if typed_dict:
                    dumps(partial, less, f"without {sorted(dropped)}")

        # Something that is not declared, of the wrong type, or no mapping at all
        known = {x for n in names for x in keys[n][1].get("al") or [n]}
        if case["extra"] not in known:
            labels.append("unknown key")
            refuses({**wire, case["extra"]: 1}, "although there is an unknown key")
        if names:
            n = names[case["bad"] % len(names)]
            refuses({**wire, d.key(n, keys[n][1]): 1.5}, f"although {n} has a wrong value")
            wrong = {**value, n: 1j} if typed_dict else value._replace(**{n: 1j})
            ok, got = attempt(dump, wrong, cls)
            check(not ok, lambda: f"dump({wrong!r}) gave {got!r}{text}")
        for nothing in ([], list(wire.items()), "text", None, 1, list(wire)):
            refuses(nothing, "which is no mapping")
            ok, got = attempt(dump, nothing, cls)
            check(not ok, lambda: f"dump({nothing!r}) gave {got!r}{text}")
        if not typed_dict:
            plain = tuple(value)
            ok, got = attempt(dump, plain, cls)
            check(not ok, lambda: f"dump({plain!r}) gave {got!r}{text}")
        for outer, w, v in (
            (typing.List[cls], [wire, other], [value, value]),
            (typing.Dict[str, cls], {"k": other}, {"k": value}),
            (typing.Tuple[cls, int], [other, 1], (value, 1)),
            (typing.Tuple[cls, ...], [wire, other], (value, value)),
            (typing.Tuple[typing.List[cls], cls], [[other], wire], ([value], value)),
            (typing.Optional[cls], other, value),
            (typing.List[typing.Optional[cls]], [None, other], [None, value]),
            (typing.Union[uuid.UUID, cls], other, value),
            (te.Annotated[cls, "text"], other, value),
            (typing.NewType("New", cls), other, value),
        ):
            ok, got = attempt(load, w, outer)
            check(ok and shape(got) == shape(v), lambda: f"load({w!r}, {outer}) gave {got!r}{text}")
            ok, back = attempt(dump, v, outer)
            again = attempt(load, back, outer) if ok else (False, back)
            check(again[0] and shape(again[1]) == shape(v), lambda: f"dump({v!r}, {outer}) gave {back!r}, and that {again[1]!r}{text}")

        labels.append(decl["kind"] + (" (call)" if decl["call"] else ""))
        if decl["bases"]:
            labels.append("inherited")
            if len({case["decls"][j]["mod"] for j, _, _ in keys.values()}) > 1:
                labels.append("keys of several modules")
            if len({case["decls"][j]["total"] for j, _, _ in keys.values()}) > 1:
                labels.append("mixed totality")
        return Info(bool(keys), labels)
    finally:
        d.__exit__()


PARTS = {"declarations": Part(cases, run, 3000, 150000, describe)}
REGRESSIONS = []
