import copy
import dataclasses
import itertools
import linecache
import sys
import types

from hypothesis import strategies as st

import databind.core.dataclasses
from databind.core.utils import NotSet

from pbt import gen
from pbt.util import Info, Part, Violation, check

ID = "C20"
TECHNIQUE = "property-based testing: generated class hierarchies declared with both decorators, compared with the standard library"
RULE = (
    "A hierarchy of up to four classes (fields with and without defaults in any order, class and init variables, field and "
    "class options, own methods, slots, hooks, multiple inheritance, undecorated classes in between) is declared with the "
    "decorator of the library and with the standard one, where everything is keyword-only so that every order is allowed; "
    "calls are bound by an own model of the parameters. Fields, class attributes, results of calls, representation, equality, "
    "ordering, hash, immutability and copies have to agree; where the standard decorator accepts the very same declaration, "
    "the parameters have to agree too; and the bases must not change when subclasses are declared. Non-trivial: a required "
    "field follows one with a default, or a class inherits fields."
)

NAMES = ["a", "b", "c", "d"]


class Equal:
    """Equal to everything, even to the marks for absent values."""

    __hash__ = object.__hash__

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    def __repr__(self):
        return "EQUAL"


EQUAL = Equal()
METHODS = {
    "__repr__": "def __repr__(self): return 'own repr'",
    "__eq__": "def __eq__(self, other): return 'own eq'",
    "__hash__": "def __hash__(self): return 42",
    "__lt__": "def __lt__(self, other): return 'own lt'",
    "__getattr__": "def __getattr__(self, name):\n        raise AttributeError('no ' + name)",
}
counter = itertools.count()


# --- generation


@st.composite
def field_specs(draw, name):
    kind = draw(st.sampled_from(["field"] * 8 + ["classvar", "initvar", "initvar"]))
    default = draw(st.sampled_from([None] * 6 + [0, 1, "x", "factory"] * 2 + ["EQUAL"]))
    options = {}
    if kind == "classvar":
        default = draw(st.sampled_from([None, 1, "x"]))
    elif kind == "initvar":
        default = draw(st.sampled_from([None, 1, "x"]))
        if draw(st.integers(0, 3)) == 0:
            options["kw_only"] = draw(st.booleans())
    elif draw(st.integers(0, 2)) == 0:
        for o in draw(st.lists(st.sampled_from(["init", "init", "repr", "compare", "hash", "kw_only", "metadata", "annotations"]), max_size=2, unique=True)):
            options[o] = {"hash": draw(st.sampled_from([True, False, None])), "metadata": draw(st.sampled_from(["META", "META", "PROXY"])), "annotations": [1]}.get(o, draw(st.booleans()) and o == "kw_only")
    return {"name": name, "kind": kind, "type": draw(st.sampled_from(["int", "str", "list"])), "default": default, "options": options, "call": bool(options) or draw(st.booleans())}


@st.composite
def class_specs(draw, n, frozen):
    names = [f"C{i}" for i in range(n)]
    bases = draw(st.lists(st.sampled_from(names), max_size=2, unique=True)) if names else []
    if names and not bases and draw(st.integers(0, 3)):
        bases = [names[-1]]
    deco = {}
    for o in draw(st.lists(st.sampled_from(["eq", "order", "unsafe_hash", "repr", "slots", "slots", "kw_only", "match_args"]), max_size=2, unique=True)):
        deco[o] = draw(st.booleans())
    if deco.get("slots") and draw(st.integers(0, 4)) == 0:
        deco["weakref_slot"] = True
    if frozen or draw(st.integers(0, 19)) == 0:
        deco["frozen"] = draw(st.integers(0, 19)) > 0
    fields = [draw(field_specs(x)) for x in draw(st.lists(st.sampled_from(NAMES), max_size=4, unique=True))]
    return {
        "name": f"C{n}",
        "bases": bases,
        "deco": None if draw(st.integers(0, 8)) == 0 else deco,
        "bare": draw(st.booleans()),
        # Called with the class, rather than used as a decorator.
        "direct": draw(st.integers(0, 3)) == 0,
        "fields": fields,
        "marker": draw(st.sampled_from([None, None, None, None, 0, 1, 2])),
        "post": draw(st.integers(0, 3)) == 0,
        "methods": draw(st.lists(st.sampled_from(list(METHODS)), max_size=1)) if draw(st.integers(0, 4)) == 0 else [],
        "std": draw(st.integers(0, 5)) == 0,
        "attribute": draw(st.sampled_from(NAMES)) if draw(st.integers(0, 9)) == 0 else None,
    }


values = st.one_of(st.integers(0, 2), st.sampled_from(["x", "y"]), st.lists(st.integers(0, 1), max_size=1))


@st.composite
def cases(draw):
    frozen = draw(st.integers(0, 3)) == 0
    classes = [draw(class_specs(i, frozen)) for i in range(draw(st.sampled_from([1, 1, 2, 2, 3, 4])))]
    # The standard decorator only below of everything that uses the one of the library.
    ours = set()
    for c in classes:
        if ours & set(c["bases"]):
            c["std"] = False
            if c["deco"] is None:
                # The library always calls the hook, the standard decorator only if the decorated class has one.
                c["post"] = False
        if not c["std"] or c["deco"] is None and ours & set(c["bases"]):
            ours.add(c["name"])
    calls = draw(
        st.lists(
            st.fixed_dictionaries(
                {
                    "cls": st.sampled_from([len(classes) - 1, len(classes) - 1, 0, 1]).map(lambda i: min(i, len(classes) - 1)),
                    "npos": st.integers(0, 4),
                    "optional": st.integers(0, 15),
                    "drop": st.sampled_from([None, None, None, 0, 0, 1, "all"]),
                    "extra": st.sampled_from([None, None, None, None, None, "z", "a", "b"]),
                    "values": st.lists(values, min_size=4, max_size=4),
                }
            ),
            min_size=1,
            max_size=4,
        )
    )
    return {"classes": classes, "future": draw(st.booleans()), "calls": calls}


# --- rendering


def literal(default):
    return default if default == "EQUAL" else repr(default)


def render(case, how):
    """The source of the classes: "ext" uses the decorator of the library, "std" the standard one, and "kw" the standard
    one with all parameters being keyword-only."""

    lines = ["from __future__ import annotations"] if case["future"] else []
    lines += ["import typing as t", "import dataclasses as std"]
    lines += ["import databind.core.dataclasses as ext" if how == "ext" else "import dataclasses as ext", "LOG = []"]
    lines += ["META = {'m': 1}", "from pbt.props.c20 import EQUAL", "import types", "PROXY = types.MappingProxyType({'p': 1})", "KEY = 'databind.core.annotations'"]
    for c in case["classes"]:
        d = "std" if c["std"] else "ext"
        if c["deco"] is not None:
            options = dict(c["deco"])
            if how == "kw":
                options["kw_only"] = True
            text = ", ".join(f"{k}={v!r}" for k, v in options.items())
            direct = f"{d}.dataclass({c['name']}, {text})"
            if not c["direct"]:
                lines.append(f"@{d}.dataclass" + ("" if not text and c["bare"] else f"({text})"))
        lines.append(f"class {c['name']}({', '.join(c['bases'])}):")
        body = ["'''Documentation'''"]
        if c["attribute"]:
            body.append(f"{c['attribute']} = 5")
        for i, f in enumerate(c["fields"]):
            if c["marker"] == i and how != "kw":
                body.append("_: std.KW_ONLY")
            ann = {"field": "{}", "classvar": "t.ClassVar[{}]", "initvar": "std.InitVar[{}]"}[f["kind"]].format(f["type"])
            options = dict(f["options"])
            if c["deco"] is None:
                body.append(f"{f['name']}: {ann}" + (f" = {literal(f['default'])}" if f["default"] not in (None, "factory") else ""))
                continue
            if how == "kw":
                options.pop("kw_only", None)
            if f["default"] == "factory":
                options["default_factory"] = "list"
            elif f["default"] is not None:
                options["default"] = f["default"]
            if f["call"] and f["kind"] != "classvar" or f["default"] == "factory":
                if "annotations" in options and d == "std" or how != "ext":
                    a = options.pop("annotations", None)
                    if a:
                        options["metadata"] = "{**%s, KEY: [1]}" % options.get("metadata", "{}")
                text = ", ".join(f"{k}={'list' if k == 'default_factory' else v if k == 'metadata' or v == 'EQUAL' else repr(v)}" for k, v in options.items())
                body.append(f"{f['name']}: {ann} = {d}.field({text})")
            elif f["default"] is not None:
                body.append(f"{f['name']}: {ann} = {literal(f['default'])}")
            else:
                body.append(f"{f['name']}: {ann}")
        if c["post"]:
            body.append("def __post_init__(self, *args):")
            body.append(f"    LOG.append(({c['name']!r}, args))")
            body.append(f"    parent = getattr(super({c['name']}, self), '__post_init__', None)")
            body.append("    if parent: parent(*args)")
        for m in c["methods"]:
            body.append(METHODS[m])
        lines += ["    " + x for x in body]
        if c["deco"] is not None and c["direct"]:
            lines.append(f"{c['name']} = {direct}")
        lines.append(f"DONE({c['name']})")
    return "\n".join(lines) + "\n"


class World:
    def __init__(self, case, how, done=lambda cls: None):
        self.source = render(case, how)
        self.module = types.ModuleType(f"generated_{next(counter)}")
        sys.modules[self.module.__name__] = self.module
        linecache.cache[f"<{self.module.__name__}>"] = (len(self.source), None, self.source.splitlines(True), f"<{self.module.__name__}>")
        self.declared = []

        def declared(cls):
            self.declared.append(cls.__name__)
            done(cls)

        self.module.DONE = declared
        self.error = None
        try:
            exec(compile(self.source, f"<{self.module.__name__}>", "exec"), vars(self.module))
        except Exception as exc:
            self.error = exc

    def close(self):
        sys.modules.pop(self.module.__name__, None)
        linecache.cache.pop(f"<{self.module.__name__}>", None)


def unset(x):
    return dataclasses.MISSING if x is NotSet.Value else x


def describe_field(f, kw_only=None):
    return (
        f.name, str(f.type), f._field_type.name, unset(f.default), f.default_factory, f.init, f.repr, f.hash, f.compare,
        dict(f.metadata), f.kw_only if kw_only is None else kw_only,
    )


def class_attribute(cls, name):
    try:
        x = getattr(cls, name)
    except AttributeError:
        return "no attribute"
    return ("descriptor", type(x)) if isinstance(x, types.MemberDescriptorType) else ("value", type(x), x)


def snapshot(cls):
    own = dict(vars(cls))
    ann = dict(own.get("__annotations__", {}))
    own.pop("__annotations__", None)
    # Created on demand
    for k in ("__weakref__", "__abstractmethods__", "_abc_impl", "__slotnames__"):
        own.pop(k, None)
    fields = getattr(cls, "__dataclass_fields__", {})
    return {k: id(v) for k, v in own.items()}, ann, [(id(f),) + describe_field(f) + (id(f.default),) for f in fields.values()], [own, *fields.values()]


def difference(cls, before):
    """What is different about a class now."""

    now = snapshot(cls)
    names = sorted(k for k in now[0].keys() | before[0].keys() if now[0].get(k) != before[0].get(k))
    return names or (now[1:3] if now[1:3] != before[1:3] else None)


def outcome(f, *args, **kwargs):
    try:
        return "result", f(*args, **kwargs)
    except Exception as exc:
        return "exception", type(exc).__name__


def state(x):
    result = {}
    for n in NAMES:
        try:
            result[n] = getattr(x, n)
        except AttributeError:
            continue
        if isinstance(result[n], types.MemberDescriptorType):
            del result[n]
    return result


def same(a, b, what, source):
    check(a == b or repr(a) == repr(b), lambda: f"{what}: {b!r} with the standard decorator, but {a!r}\n{source}")


def run(case):
    snapshots = []
    ext = World(case, "ext", lambda cls: snapshots.append((cls, snapshot(cls))))
    kw = World(case, "kw")
    std = World(case, "std")
    try:
        return compare(case, ext, kw, std, snapshots)
    finally:
        for w in (ext, kw, std):
            w.close()


def compare(case, ext, kw, std, snapshots):
    src = ""
    if ext.error is not None and "non-default argument" in str(ext.error) and any(c["std"] for c in case["classes"][: len(ext.declared) + 1]):
        # The class or its base is declared with the standard decorator in any case.
        return Info(False, ["refused by the standard decorator"])
    check(
        (ext.error is None) == (kw.error is None) and type(ext.error) is type(kw.error) and ext.declared == kw.declared,
        lambda: f"declaring the classes: {ext.error!r} after {ext.declared}, with the standard decorator: {kw.error!r} after {kw.declared}\n{src}",
    )
    same(getattr(ext.module, "META", None), getattr(kw.module, "META", None), "metadata", src)
    for cls, before in snapshots:
        check(not difference(cls, before), lambda: f"{cls} has been changed by the declaration of another class: {difference(cls, before)}\n{src}")
    # Who declared a field decides whether it is a keyword-only one.
    kw_only = {}
    labels, nontrivial = [], False
    for c in case["classes"]:
        if c["name"] not in ext.declared:
            continue
        E, K = getattr(ext.module, c["name"]), getattr(kw.module, c["name"])
        if c["deco"] is not None:
            for i, f in enumerate(c["fields"]):
                if f["name"] in K.__dataclass_fields__:
                    flag = f["options"].get("kw_only")
                    if flag is None:
                        # The default of None is not given explicitly.
                        flag = c["deco"].get("kw_only", False) or c["marker"] is not None and c["marker"] <= i
                    kw_only[id(K.__dataclass_fields__[f["name"]])] = bool(flag) and f["kind"] != "classvar"
        same(E.__name__ + E.__qualname__ + str(E.__doc__), K.__name__ + K.__qualname__ + str(K.__doc__), "names", src)
        same(hasattr(E, "__dataclass_fields__"), hasattr(K, "__dataclass_fields__"), "being a dataclass", src)
        if not hasattr(K, "__dataclass_fields__"):
            continue
        kfields, efields = list(K.__dataclass_fields__.values()), list(E.__dataclass_fields__.values())

        def of(f):
            return kw_only.get(id(f), False)

        same(
            [describe_field(f, f.kw_only if f._field_type is not dataclasses._FIELD_CLASSVAR else False) for f in efields],
            [describe_field(f, of(f)) for f in kfields],
            f"fields of {c['name']}",
            src,
        )
        for n in NAMES + ["__hash__", "__slots__"]:
            a, b = class_attribute(E, n), class_attribute(K, n)
            if n == "__hash__":
                a, b = (getattr(x, n) is None for x in (E, K))
            same(a, b, f"{c['name']}.{n}", src)
        same("__weakref__" in dir(E), "__weakref__" in dir(K), "weak references", src)
        for n in ("__eq__", "__repr__", "__lt__", "__le__", "__setattr__", "__init__", "__hash__", "__match_args__"):
            same(n in vars(E), n in vars(K), f"{c['name']} has its own {n}", src)
        if len(c["bases"]) and kfields:
            labels.append("inherits")
            nontrivial = True
        flags = [unset(f.default) is dataclasses.MISSING and f.default_factory is dataclasses.MISSING for f in kfields if f.init and not of(f)]
        if flags != sorted(flags, reverse=True):
            labels.append("required behind optional")
            nontrivial = True
        if c["name"] in std.declared:
            S_ = getattr(std.module, c["name"])
            same([describe_field(f) for f in efields if f._field_type is not dataclasses._FIELD_CLASSVAR], [describe_field(f) for f in S_.__dataclass_fields__.values() if f._field_type is not dataclasses._FIELD_CLASSVAR], f"fields of {c['name']}", src)
            same(getattr(E, "__match_args__", None), getattr(S_, "__match_args__", None), "__match_args__", src)
            code1, code2 = E.__init__.__code__, S_.__init__.__code__
            same(
                (code1.co_varnames, code1.co_argcount, code1.co_kwonlyargcount),
                (code2.co_varnames, code2.co_argcount, code2.co_kwonlyargcount),
                f"parameters of {c['name']}",
                src,
            )
    objects = []
    for call in case["calls"]:
        name = case["classes"][call["cls"]]["name"]
        if name not in ext.declared or not hasattr(getattr(kw.module, name), "__dataclass_fields__"):
            continue
        E, K = getattr(ext.module, name), getattr(kw.module, name)
        params = [f for f in K.__dataclass_fields__.values() if f.init and f._field_type is not dataclasses._FIELD_CLASSVAR]
        positional = [f for f in params if not kw_only.get(id(f))]
        vals = iter(call["values"] * 3)
        args = [next(vals) for _ in range(min(call["npos"], len(positional) + (call["npos"] == 4)))]
        bound = {f.name for f, _ in zip(positional, args)}
        kwargs = {}
        for i, f in enumerate(x for x in params if x.name not in bound):
            required = f.default is dataclasses.MISSING and f.default_factory is dataclasses.MISSING
            if required and call["drop"] not in (i, "all") or not required and call["optional"] >> i & 1:
                kwargs[f.name] = next(vals)
        if call["extra"]:
            kwargs[call["extra"]] = next(vals)
        # Bound by the model
        all_kwargs = dict(kwargs)
        wrong = len(args) > len(positional)
        for f, x in zip(positional, args):
            wrong = wrong or f.name in kwargs
            all_kwargs[f.name] = x
        results = []
        for cls, a, k, module in ((E, args, kwargs, ext.module), (K, [], all_kwargs, kw.module)):
            del module.LOG[:]
            if cls is K and wrong:
                r = "exception", "TypeError"
            else:
                r = outcome(cls, *copy.deepcopy(a), **copy.deepcopy(k))
            if r[0] == "result":
                r += (state(r[1]), list(module.LOG))
            results.append(r)
        a, b = results
        what = f"{name}(*{args}, **{kwargs})"
        n = 3 if case["classes"][call["cls"]]["deco"] is None else 4  # The hook is called more often by design.
        same((a[0],) + a[2:n], (b[0],) + b[2:n], what, src)
        if a[0] == "exception":
            same(a, b, what, src)
            labels.append("call refused")
            continue
        labels.append("call")
        objects.append((a[1], b[1], what))
    for a, b, what in objects:
        pairs = [("repr", lambda x: repr(x) if type(x).__repr__ is not object.__repr__ else "identity"), ("hash", lambda x: hash(x) if type(x).__hash__ is not object.__hash__ else "identity"), ("asdict", dataclasses.asdict), ("astuple", dataclasses.astuple)]
        pairs += [("copy", lambda x: state(copy.copy(x))), ("replace", lambda x: state(dataclasses.replace(x)))]
        pairs += [("replace b", lambda x: state(dataclasses.replace(x, b=9))), ("set", lambda x: setattr(x, "a", 7)), ("set new", lambda x: setattr(x, "new", 7)), ("delete", lambda x: delattr(x, "a"))]
        for n, f in pairs[:7]:
            if n.startswith("replace") and any(x._field_type is dataclasses._FIELD_INITVAR for x in type(b).__dataclass_fields__.values()):
                # By design, init variables without default have a placeholder.
                continue
            same(outcome(f, a), outcome(f, b), f"{n} of {what}", src)
        for a2, b2, what2 in objects:
            for n in ("__eq__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__"):
                same(outcome(lambda x, y: getattr(x, n)(y), a, a2), outcome(lambda x, y: getattr(x, n)(y), b, b2), f"{n} of {what} and {what2}", src)
    for a, b, what in objects:
        for n, f in pairs[7:]:
            same(outcome(f, a), outcome(f, b), f"{n} of {what}", src)
        same(state(a), state(b), f"{what} after changing it", src)
    for cls, before in snapshots:
        check(not difference(cls, before), lambda: f"{cls} has been changed by its use: {difference(cls, before)}\n{src}")
    if ext.error is not None:
        labels.append("refused by both")
    if std.error is None:
        labels.append("accepted by the standard decorator")
    return Info(nontrivial and ext.error is None, labels)


def show(case):
    return render(case, "ext")


PARTS = {"classes": Part(cases, run, 5000, 250000, show)}
REGRESSIONS = []
